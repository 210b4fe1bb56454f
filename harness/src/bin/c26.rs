//! C26: rendered radiance of multi-bounce scenes against closed forms and an independent f64 path tracer.
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::scenes::*;

const BLACK: Mat = Mat::Lambert { kd: [0.; 3] };

/// statistical comparison in stages: only a difference that more samples confirm counts
fn judge(c: &mut Ctx, what: &str, desc: &str, w: &World, o: V, d: V, spp: u32, rng: &mut Rng, exact: Option<S3>) {
    let mut spp = spp;
    let mut last = String::new();
    for stage in 0..3 {
        let seed = rng.u64();
        let e = w.radiance(o, d, 8, spp, seed, 1, rng.chance(0.3));
        let (m, se) = match exact { Some(x) => (x, [0.; 3]), None => { let r = w.reference(o, d, spp as usize * 96, rng.u64()); (r.mean(), r.se()) } };
        let lost = e.weight < 64. * spp as f64 - 0.5 || e.weight > 64. * spp as f64 * 1.0001 + 2.;
        c.add("rendered_samples", 64 * spp as u64);
        if lost { c.violate("lost-samples", format!("{}: {} of {} samples reached the film", desc, e.weight, 64 * spp)); return; }
        let (z, rel) = compare_tail(&e, m, se, if exact.is_some() { 0. } else { 16. / (64. * spp as f64) });
        let lim = if stage == 0 { 4.5 } else { 6. };
        if stage == 0 { c.maximum(&format!("{}_z", what), z); let rs = (0..3).map(|k| if m[k] > 1e-6 { e.se()[k] / m[k] } else { 0. }).fold(0., f64::max); if rs < 0.02 { c.count(&format!("{}_within_2_percent", what)); } }
        if z < lim || rel < if exact.is_some() { 1e-4 } else { 3e-3 } { c.count(&format!("{}_agree", what)); if stage > 0 { c.count("settled_by_more_samples"); } return; }
        last = format!("rendered {:?} (standard error {:?}), expected {:?} (standard error {:?}), {:.1} standard errors apart at {} samples: {}", e.mean(), e.se(), m, se, z, 64 * spp, desc);
        spp *= 8;
    }
    c.violate(what, last);
}

/// mirrors along a path, ending at an emitter
fn chain(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let n = *rng.pick(&[0usize, 1, 1, 2, 3, 4, 5, 8, 14]);
    for _ in 0..200 {
        let mut w = World::default();
        let (o, d) = (pt(rng, 3.).q(), dir(rng).q());
        let (mut p, mut dd) = (o, d.norm());
        let mut k = [1.; 3];
        let mut ok = true;
        let mut legs = vec![(o, dd)];
        let mut bends = 0;
        for _ in 0..n {
            let q = p + dd * rng.range(1., 4.);
            let nn = loop { let x = dir(rng); if x.dot(dd).abs() > 0.3 { break x; } };
            let (s, t) = onb(nn);
            let r = rng.range(0.2, 0.6);
            let mut g = Geo::tri([q + s * r, q - s * (0.5 * r) + t * (0.87 * r), q - s * (0.5 * r) - t * (0.87 * r)]);
            let bent = rng.chance(0.25);
            let kr = q3([rng.range(0.5, 1.), rng.range(0.5, 1.), rng.range(0.5, 1.)]);
            let mat = if rng.chance(0.2) { Mat::Metal { r: kr, eta: q3([0.2, 0.92, 1.1]), k: q3([3.9, 2.45, 2.14]), ru: 0., rv: 0. } } else { Mat::Mirror { kr } };
            // true normal after rounding to f32
            if let Geo::Tri { p: tp, vn, .. } = &mut g {
                let mut tn = (tp[1] - tp[0]).cross(tp[2] - tp[0]).norm();
                let h = (tp[0] - p).dot(tn) / dd.dot(tn); p = p + dd * h;
                if bent {
                    // vertex normals: the mirror is turned to the interpolated normal
                    let lean = dir(rng) * rng.range(0., 0.4);
                    let z = if rng.chance(0.5) { 1. } else { -1. };
                    let m = [0; 3].map(|_| ((tn + lean + dir(rng) * 0.1).norm() * z).q());
                    let nn = (tp[1] - tp[0]).cross(tp[2] - tp[0]);
                    let (x, y) = ((p - tp[0]).cross(tp[2] - tp[0]).dot(nn) / nn.dot(nn), (tp[1] - tp[0]).cross(p - tp[0]).dot(nn) / nn.dot(nn));
                    let gn = tn;
                    tn = (m[0] * (1. - x - y) + m[1] * x + m[2] * y).norm();
                    let out = dd - tn * (2. * dd.dot(tn));
                    if out.dot(gn) * dd.dot(gn) > -0.02 || dd.dot(tn) * z * dd.dot(gn) < 0.02 { ok = false; }
                    *vn = Some(m);
                    bends += 1;
                }
                if let Mat::Metal { r, eta, k: kk, .. } = mat { k = mul3(k, mul3(r, Fr::Cond(eta, kk).eval(dd.dot(tn).abs(), true))); } else { k = mul3(k, kr); }
                dd = (dd - tn * (2. * dd.dot(tn))).norm();
                legs.push((p, dd));
            }
            let mut ob = Obj::new(g, mat.clone());
            let front = if let (Geo::Tri { p: tp, rev, .. }, Mat::Metal { .. }) = (&mut ob.geo, &mat) { let tn = (tp[1] - tp[0]).cross(tp[2] - tp[0]).norm(); *rev = tn.dot(dd) < 0.; true } else { true };
            let _ = front;
            w.objs.push(ob);
        }
        let q = p + dd * rng.range(1., 4.);
        let nn = loop { let x = dir(rng); if x.dot(dd) < -0.3 { break x; } };
        let (s, t) = onb(nn);
        let r = rng.range(0.3, 1.);
        let g = Geo::tri([q + s * r, q - s * (0.5 * r) + t * (0.87 * r), q - s * (0.5 * r) - t * (0.87 * r)]);
        let tp = match &g { Geo::Tri { p, .. } => *p, _ => unreachable!() };
        let le = q3([rng.range(0.5, 3.), rng.range(0.5, 3.), rng.range(0.5, 3.)]);
        let lit = rng.chance(0.35);
        let away = !lit && rng.chance(0.15);
        let mut end = le;
        if lit {
            // a diffuse triangle, perhaps with vertex normals, under one distant light
            let kd = q3([rng.range(0.2, 1.), rng.range(0.2, 1.), rng.range(0.2, 1.)]);
            let mut g = g.clone();
            let gn = { let m = (tp[1] - tp[0]).cross(tp[2] - tp[0]).norm(); if m.dot(dd) > 0. { -m } else { m } };
            let mut sn = gn;
            let x = p + dd * ((tp[0] - p).dot(gn) / dd.dot(gn));
            if let Geo::Tri { vn, rev, .. } = &mut g {
                *rev = rng.chance(0.5);
                if rng.chance(0.7) {
                    let lean = dir(rng) * rng.range(0., 0.7);
                    let z = if rng.chance(0.5) { 1. } else { -1. };
                    let m = [0; 3].map(|_| ((gn + lean + dir(rng) * 0.1).norm() * z).q());
                    let nn = (tp[1] - tp[0]).cross(tp[2] - tp[0]);
                    let (u, y) = ((x - tp[0]).cross(tp[2] - tp[0]).dot(nn) / nn.dot(nn), (tp[1] - tp[0]).cross(x - tp[0]).dot(nn) / nn.dot(nn));
                    sn = (m[0] * (1. - u - y) + m[1] * u + m[2] * y).norm() * z;
                    *vn = Some(m);
                }
            }
            if sn.dot(gn) < 0.1 || sn.dot(-dd) < 0.05 { continue; }
            let ld = (gn + dir(rng) * 0.95).q();
            let lw = ld.norm();
            if lw.dot(gn) < 0.05 || lw.dot(sn) < 0.05 { continue; }
            w.objs.push(Obj::new(g, Mat::Lambert { kd }));
            w.distants.push((le, ld));
            let (a, b) = onb(lw);
            if [v(0., 0., 0.), a * 1e-4, a * -1e-4, b * 1e-4, b * -1e-4].iter().any(|q| w.blocked(x + *q + gn * 1e-4, lw, f64::INFINITY, n)) { continue; }
            // no way back from the triangle to itself over the mirrors
            let mut back = false;
            for m in 0..n { for _ in 0..60 {
                let (mut o, mut skip) = (x, Some(n));
                let mut dd = (w.objs[m].geo.point(rng) - x).norm();
                for _ in 0..12 {
                    let (h, t) = match w.hit(o, dd, f64::INFINITY, skip) { Some(h) => h, None => break };
                    if h == n { back = true; break; }
                    o = o + dd * t; skip = Some(h);
                    let tn = match &w.objs[h].geo { Geo::Tri { p: q, vn: Some(m), .. } => { let nn = (q[1] - q[0]).cross(q[2] - q[0]); let (u, y) = ((o - q[0]).cross(q[2] - q[0]).dot(nn) / nn.dot(nn), (q[1] - q[0]).cross(o - q[0]).dot(nn) / nn.dot(nn)); (m[0] * (1. - u - y) + m[1] * u + m[2] * y).norm() } _ => w.normal(h, o) };
                    dd = (dd - tn * (2. * dd.dot(tn))).norm();
                }
            } }
            if back { continue; }
            end = sc3(mul3(le, kd), lw.dot(sn) / std::f64::consts::PI);
            c.count(if sn.dot(gn) < 0.999 { "chains_to_bent_diffuse" } else { "chains_to_flat_diffuse" });
        } else {
            let mut l = tri_facing(tp, p, Obj::light(g, BLACK, le));
            if away { if let Geo::Tri { rev, .. } = &mut l.geo { *rev = !*rev; } }
            w.objs.push(l);
        }
        // the chain must be what the ray sees
        let mut skip = None;
        for j in 0..=n {
            match w.hit(legs[j].0, legs[j].1, f64::INFINITY, skip) { Some((x, t)) if x == j && (j == n || (legs[j].0 + legs[j].1 * t - legs[j + 1].0).len() < 1e-6) => { skip = Some(x); } _ => { ok = false; break; } }
        }
        if !ok { continue; }
        let want = if away { [0.; 3] } else { mul3(k, end) };
        c.eval(Some(hash(&[i, 1])));
        c.count("mirror_chains"); c.add("mirror_bounces", n as u64); c.add("bounces_about_shading_normals", bends);
        c.sample(|| format!("chain of {} mirrors to an emitter, weight {:?}", n, k));
        let spp = if n <= 3 { 4 } else { 64 };
        if n <= 3 || away {
            // nothing is random here
            let e = w.radiance(o, d, 2, spp, rng.u64(), 1, rng.chance(0.3));
            let m = e.mean();
            for x in 0..3 { c.check((m[x] - want[x]).abs() <= 2e-5 * want[x], "mirror-chain", || format!("{} mirrors, emitter {:?} facing {}: rendered {:?}, expected {:?}: {:?} from {:?} towards {:?}", n, le, !away, m, want, w, o, d)); }
        } else {
            judge(c, "mirror-chain-roulette", &format!("{} mirrors {:?} from {:?} towards {:?}", n, w, o, d), &w, o, d, spp * 4, rng, Some(want));
        }
        return;
    }
    c.count("chain_not_placed");
}

/// two parallel mirrors, an emitter at the end of the corridor between them
fn corridor(c: &mut Ctx, rng: &mut Rng, i: u64) {
    for _ in 0..50 {
        let n = rng.int(8, 62) as usize;
        let f = dir(rng); let (s, t) = onb(f);
        let at = pt(rng, 3.);
        let h = rng.range(0.2, 2.);
        let step = rng.range(0.2, 2.) * h; // along the corridor per bounce
        let len = step * (n as f64 - 0.5 + rng.range(0.2, 0.8));
        let mut w = World::default();
        let strong = rng.chance(0.5);
        let mut wall = |z: f64, rng: &mut Rng| {
            let kr = if strong { [1.; 3] } else { q3([rng.range(0.93, 1.), rng.range(0.93, 1.), rng.range(0.93, 1.)]) };
            let g = Geo::tri([at + f * (z * h) - s * h - t * h, at + f * (z * h) - s * h + t * h, at + f * (z * h) + s * (len * 1.5 + h)]);
            w.objs.push(Obj::new(g, Mat::Mirror { kr }));
            kr
        };
        let kr = [wall(-1., rng), wall(1., rng)];
        let tp = [at + s * len + f * (5. * h) - t * (4. * h), at + s * len + f * (5. * h) + t * (4. * h), at + s * len - f * (15. * h)];
        let le = q3([rng.range(0.5, 3.), rng.range(0.5, 3.), rng.range(0.5, 3.)]);
        let o = at.q(); let d = (f * (2. * h) + s * step).q();
        w.objs.push(tri_facing([tp[0].q(), tp[1].q(), tp[2].q()], o, Obj::light(Geo::tri(tp), BLACK, le)));
        // follow the ray
        let (mut p, mut dd, mut skip, mut k, mut m) = (o, d.norm(), None, [1.; 3], 0usize);
        let sure = loop {
            let (x, dist) = match w.hit(p, dd, f64::INFINITY, skip) { Some(x) => x, None => break false };
            p = p + dd * dist; skip = Some(x);
            if x == 2 { break (p - at).dot(f).abs() < 0.99 * h; }
            let tn = match &w.objs[x].geo { Geo::Tri { p: q, .. } => (q[1] - q[0]).cross(q[2] - q[0]).norm(), _ => unreachable!() };
            dd = (dd - tn * (2. * dd.dot(tn))).norm();
            k = mul3(k, kr[x]); m += 1;
            if m > 64 { break false; }
        };
        if !sure { continue; }
        c.eval(Some(hash(&[i, 9])));
        c.count("mirror_corridors"); c.add("corridor_bounces", m as u64); c.maximum("longest_mirror_path", m as f64);
        if m > 40 { c.count("corridors_over_40_bounces"); }
        c.sample(|| format!("corridor with {} reflections, weight {:?}", m, k));
        judge(c, "mirror-corridor", &format!("{} reflections {:?} from {:?} towards {:?}", m, w, o, d), &w, o, d, 256, rng, Some(mul3(k, le)));
        return;
    }
    c.count("corridor_not_placed");
}

/// one pane of glass between emitters on both sides
fn pane(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let (kr, kt) = (color(rng), color(rng));
    let eta = index(rng);
    let mut w = World::default();
    let g = Geo::tri([v(-9., -8., 0.), v(10., -8., 0.), v(0., 11., 0.)]);
    w.objs.push(Obj::new(g, Mat::Glass { kr, kt, eta, ru: 0., rv: 0. }));
    let (l1, l2) = (q3([rng.range(0.5, 2.), 1., 0.]), q3([rng.range(0.5, 2.), 0., 1.]));
    for g in quad(2, 3., (-200., -200.), (200., 200.)) { let p = match &g { Geo::Tri { p, .. } => *p, _ => unreachable!() }; w.objs.push(tri_facing(p, v(0., 0., 0.), Obj::light(g, BLACK, l1))); }
    for g in quad(2, -3., (-200., -200.), (200., 200.)) { let p = match &g { Geo::Tri { p, .. } => *p, _ => unreachable!() }; w.objs.push(tri_facing(p, v(0., 0., 0.), Obj::light(g, BLACK, l2))); }
    let up = rng.chance(0.5);
    let cos = rng.range(0.15, 1.);
    let a = rng.range(0., 6.28);
    let s = (1. - cos * cos).sqrt();
    let o = v(s * a.cos(), s * a.sin(), if up { cos } else { -cos }).q();
    let d = (v(rng.range(-0.05, 0.05), rng.range(-0.05, 0.05), 0.) - o).q();
    let cos = d.norm().z.abs();
    let (n1, n2) = if up { (1., eta) } else { (eta, 1.) };
    let f = fr_diel(cos, n1, n2);
    let s2 = (n1 / n2) * (n1 / n2) * (1. - cos * cos);
    if (s2 - 1.).abs() < 1e-3 || s2 < 1. && (1. - s2).sqrt() < 0.05 { return; }
    let (lr, lt) = if up { (l1, l2) } else { (l2, l1) };
    let want = add3(sc3(mul3(kr, lr), f), sc3(mul3(kt, lt), if s2 < 1. { (1. - f) * (n1 / n2) * (n1 / n2) } else { 0. }));
    c.eval(Some(hash(&[i, 2]))); c.count("panes");
    judge(c, "glass-pane", &format!("glass pane kr {:?} kt {:?} eta {} seen from {} at cosine {}, emitters {:?} above {:?} below", kr, kt, eta, if up { "above" } else { "below" }, cos, l1, l2), &w, o, d.norm().q(), 96, rng, Some(want));
}

/// rooms with uniform emission and albedo, seen from a random point in a random direction
fn furnace(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let a = q3([rng.range(0., 0.8), rng.range(0., 0.8), rng.range(0., 0.8)]);
    let le = q3([rng.range(0.1, 2.), rng.range(0.1, 2.), rng.range(0.1, 2.)]);
    let h = v(rng.range(1., 4.), rng.range(1., 4.), rng.range(1., 4.));
    let c0 = if rng.chance(0.5) { v(0., 0., 0.) } else { pt(rng, 30.) };
    let mut w = World::default();
    w.objs.extend(room(c0 - h, c0 + h, |_| (Mat::Lambert { kd: a }, Some(le))));
    // furniture with the same emission and albedo (emitting towards its outside), or clear glass or perfect mirrors
    let mut inside: Vec<(V, f64)> = vec![];
    let m = h.x.min(h.y).min(h.z);
    for _ in 0..rng.below(3) {
        let r = rng.range(0.1, 0.35) * m;
        let q = v(rng.range(-1., 1.) * (h.x - r) * 0.95, rng.range(-1., 1.) * (h.y - r) * 0.95, rng.range(-1., 1.) * (h.z - r) * 0.95) + c0;
        if inside.iter().any(|(p, s)| (*p - q).len() < r + s + 0.02) { continue; }
        inside.push((q, r));
        match rng.below(3) {
            0 => { let k = r / 3f64.sqrt(); for mut x in room(q - v(k, k, k), q + v(k, k, k), |_| (Mat::Lambert { kd: a }, Some(le))) { if let Geo::Tri { rev, .. } = &mut x.geo { *rev = !*rev; } w.objs.push(x); } c.count("furnace_emitting_furniture"); }
            1 => { w.objs.push(Obj::new(Geo::sph(q, r), Mat::Glass { kr: [1.; 3], kt: [1.; 3], eta: index(rng), ru: 0., rv: 0. })); c.count("furnace_glass"); }
            _ => { w.objs.push(Obj::new(Geo::sph(q, r), Mat::Mirror { kr: [1.; 3] })); c.count("furnace_mirror"); }
        }
    }
    let o = loop { let o = (v(rng.range(-1., 1.) * h.x, rng.range(-1., 1.) * h.y, rng.range(-1., 1.) * h.z) * 0.95 + c0).q(); if inside.iter().all(|(p, s)| (*p - o).len() > s + 0.01) { break o; } };
    let d = if !inside.is_empty() && rng.chance(0.6) { let (p, s) = inside[rng.below(inside.len())]; p + dir(rng) * s * 0.9 - o } else { dir(rng) };
    let mut want = [0.; 3];
    for k in 0..3 { want[k] = le[k] / (1. - a[k]); }
    c.eval(Some(hash(&[i, 3]))); c.count("furnaces");
    c.sample(|| format!("furnace emission {:?} albedo {:?} half sizes {:?} with {} bodies inside", le, a, h, inside.len()));
    judge(c, "furnace", &format!("room {:?} around {:?} emission {:?} albedo {:?} furniture {:?} seen from {:?} towards {:?}", h, c0, le, a, inside, o, d), &w, o, d.norm().q(), 96, rng, Some(want));
}

/// anything, against the reference path tracer
fn general(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let (w, o, d) = furnished(rng, 0.15, true);
    if w.hit(o, d, f64::INFINITY, None).is_none() && rng.chance(0.9) { return; }
    c.eval(Some(hash(&[i, 4]))); c.count("furnished_scenes");
    if !w.distants.is_empty() { c.count("furnished_with_distant_light"); }
    judge(c, "reference-path-tracer", &format!("case {} from {:?} towards {:?}: {:?}", i, o, d, w), &w, o, d, 128, rng, None);
}

fn main() {
    run("C26", "one evaluation: radiance along one ray of one random scene, rendered with many samples, against a closed form (mirror chains, glass panes, furnaces) or an independent f64 path tracer (furnished rooms); distinct = different scenes",
        &["statistical: a difference counts when it exceeds six standard errors and more samples confirm it", "albedo of furnaces at most 0.8 (paths are cut after 65 bounces)", "film state read through the pt_verif_film hook"], |ctx| {
        let n = ctx.n(2400, 24000);
        let only: Option<u64> = std::env::var("ONLY").ok().and_then(|s| s.parse().ok());
        par(ctx, 1, n, |c, i| {
            if only.map_or(false, |o| o != i % 8) { return; }
            let mut rng = c.rng.clone();
            c.guard(|| format!("case {}", i), |c| match i % 8 { 0 if i % 16 == 0 => corridor(c, &mut rng, i), 0 | 1 => chain(c, &mut rng, i), 2 => pane(c, &mut rng, i), 3 | 4 => furnace(c, &mut rng, i), _ => general(c, &mut rng, i) });
        });
        for (k, m) in [("mirror_chains", 250), ("mirror_corridors", 100), ("corridors_over_40_bounces", 20), ("bounces_about_shading_normals", 300), ("chains_to_bent_diffuse", 80), ("panes", 150), ("furnaces", 300), ("furnished_scenes", 400), ("reference-path-tracer_within_2_percent", 20)] { ctx.require(k, m); }
    });
}
