//! C25: direct illumination of diffuse surfaces against closed-form irradiance.
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::scenes::*;
use std::f64::consts::PI;

const BLACK: Mat = Mat::Lambert { kd: [0.; 3] };

/// Irradiance at p (unit normal n) from a polygon of unit radiance, both its sides emitting.
fn form(poly: &[V], p: V, n: V) -> f64 {
    // clip to the upper half space
    let q: Vec<V> = poly.iter().map(|x| *x - p).collect();
    let mut r: Vec<V> = vec![];
    for k in 0..q.len() {
        let (a, b) = (q[k], q[(k + 1) % q.len()]);
        let (da, db) = (a.dot(n), b.dot(n));
        if da >= 0. { r.push(a); }
        if (da > 0.) != (db > 0.) && da != db && da * db < 0. { r.push(a + (b - a) * (da / (da - db))); }
    }
    if r.len() < 3 { return 0.; }
    let mut e = 0.;
    for k in 0..r.len() {
        let (a, b) = (r[k], r[(k + 1) % r.len()]);
        let c = a.cross(b);
        let l = c.len();
        if l < 1e-15 * a.len() * b.len() || l == 0. { continue; }
        e += l.atan2(a.dot(b)) * c.dot(n) / l;
    }
    (0.5 * e).abs()
}

/// Expected direct radiance, the part of it without shadows, and whether anything is shadowed.
fn direct(w: &World, own: usize, p: V, n: V, kd: S3, rng: &mut Rng) -> (S3, S3, bool) {
    let (mut l, mut free) = ([0.; 3], [0.; 3]);
    let mut shadow = false;
    for (e, d) in &w.distants {
        let d = d.norm();
        let c = d.dot(n);
        if c <= 0. { continue; }
        free = add3(free, sc3(*e, c / PI));
        if w.blocked(p, d, f64::INFINITY, own) { shadow = true; } else { l = add3(l, sc3(*e, c / PI)); }
    }
    for (k, o) in w.objs.iter().enumerate() {
        let e = match o.le { Some(e) if k != own => e, _ => continue };
        let t = match &o.geo { Geo::Tri { p, .. } => *p, _ => unreachable!() };
        if (p - t[0]).dot(w.normal(k, p)) <= 0. { continue; }
        let f = form(&t, p, n) / PI;
        if f == 0. { continue; }
        free = add3(free, sc3(e, f));
        // anything in between?
        let mut seen = 0.;
        let mut hidden = false;
        let mut todo = vec![(t, 0)];
        while let Some((t, depth)) = todo.pop() {
            // cells of at most 1/3000 of the irradiance, one visibility sample each
            let g = form(&t, p, n);
            if depth < 5 || depth < 24 && g > f * PI / 3000. {
                let m = [(t[0] + t[1]) * 0.5, (t[1] + t[2]) * 0.5, (t[2] + t[0]) * 0.5];
                for x in [[t[0], m[0], m[2]], [m[0], t[1], m[1]], [m[2], m[1], t[2]], m] { todo.push((x, depth + 1)); }
                continue;
            }
            let (u, x) = (rng.f64().sqrt(), rng.f64());
            let q = t[0] * (1. - u) + t[1] * (u * (1. - x)) + t[2] * (u * x);
            if w.blocked2(p, q - p, 1. - 1e-6, own, k) { hidden = true; } else { seen += g; }
        }
        if hidden { shadow = true; l = add3(l, sc3(e, seen / PI)); } else { l = add3(l, sc3(e, f)); }
    }
    (mul3(l, kd), mul3(free, kd), shadow)
}

fn case(c: &mut Ctx, rng: &mut Rng, i: u64, precise: bool) {
    let kd = q3([rng.range(0.1, 1.), rng.range(0.1, 1.), rng.range(0.1, 1.)]);
    let mut w = World::default();
    // receiver
    let scale = if rng.chance(0.3) { rng.logu(0.01, 100.) } else { 1. };
    let off = if rng.chance(0.3) { pt(rng, 5. * scale) } else { v(0., 0., 0.) };
    let n0 = if rng.chance(0.4) { v(0., 0., 1.) } else { dir(rng) };
    let (s0, t0) = onb(n0);
    let at = |x: f64, y: f64, z: f64| (s0 * x + t0 * y + n0 * z) * scale + off;
    let sphere = rng.chance(0.25);
    let shiny = !sphere && rng.chance(0.1);
    // vertex normals: the light arriving about the interpolated normal counts
    let bent = !sphere && !shiny && rng.chance(0.3);
    let vn = if bent { let s = if rng.chance(0.5) { 1. } else { -1. }; let lean = dir(rng) * rng.range(0., 0.8); let k = if rng.chance(0.5) { 0. } else { 0.3 }; Some([0; 3].map(|_| ((n0 + lean + dir(rng) * k).norm() * s).q())) } else { None };
    if sphere { w.objs.push(Obj::new(Geo::sph(at(0., 0., -1.), scale), Mat::Lambert { kd })); }
    else { let mut o = Obj::new(Geo::Tri { p: [at(-3., -2.5, 0.).q(), at(3., -2.7, 0.).q(), at(0.2, 4., 0.).q()], vn, rev: rng.chance(0.5) }, Mat::Lambert { kd }); if shiny { o.le = Some(q3([rng.f64(), rng.f64(), 0.])); } w.objs.push(o); }
    // view ray
    let above = sphere || rng.chance(0.8);
    let t = if sphere { at(0., 0., -1.) + (n0 + dir(rng) * 0.9).norm() * scale } else { at(rng.range(-0.7, 0.7), rng.range(-0.7, 0.7), 0.) };
    let side = if sphere { (t - at(0., 0., -1.)).norm() } else if above { n0 } else { -n0 };
    let o = (t + (side + dir(rng) * 0.8).norm() * scale * rng.range(0.05, 0.3)).q();
    let d = (t - o).q();
    // lights
    let many = !precise && rng.chance(0.02);
    let lit = { let a = rng.f64(); let b = rng.range(0.05, 0.5); if rng.chance(0.5) { (a, a + b) } else { (0., 2.) } };
    let nl = if many { rng.logu(80., 1500.) as i64 } else if precise { 1 } else { match rng.below(4) { 0 => 1, 1 => 2, _ => rng.int(1, 6) } };
    let style = if precise { 1 } else { rng.below(5) };
    for k in 0..nl {
        let ch = if rng.chance(0.5) { let mut e = [0.; 3]; e[(k % 3) as usize] = rng.range(0.2, 5.); e } else { [rng.range(0.2, 5.), rng.range(0.2, 5.), rng.range(0.2, 5.)] };
        // among many lights perhaps only a run of them (in their order) shines
        let x = k as f64 / nl as f64;
        let e = if many { if x >= lit.0 && x < lit.1 || x + 1. < lit.1 { q3([1., 0.5, 0.7]) } else { [0.; 3] } } else { q3(ch) };
        if many { if rng.chance(0.7) || k < 3 { w.distants.push((e, (side + dir(rng) * 0.6).q())); continue; } }
        if style == 0 || style > 2 && rng.chance(0.3) {
            let a = side + dir(rng) * if rng.chance(0.7) { 0.9 } else { 3. };
            w.distants.push((e, (a * rng.logu(0.1, 10.)).q()));
        } else {
            // from touching to far, from small to large
            let h = rng.logu(0.05, 30.);
            let sz = h * rng.logu(if precise { 0.01 } else { 0.03 }, 6.);
            let sz = if bent { sz.min(0.4 * h) } else { sz };
            let ctr = t + (side + dir(rng) * if bent { 0.6 } else { 0.95 }).norm() * (h * scale);
            let tri = [ctr + pt(rng, sz * scale), ctr + pt(rng, sz * scale), ctr + pt(rng, sz * scale)].map(|x| x.q());
            let g = Geo::tri(tri);
            let a = (tri[1] - tri[0]).cross(tri[2] - tri[0]).len();
            let m = (0..3).map(|k| (tri[k] - tri[(k + 1) % 3]).len()).fold(0., f64::max);
            if a < 0.1 * m * m || g.quality() < 1e-3 { continue; }
            let mut l = tri_facing(tri, t, Obj::light(g, BLACK, e));
            if rng.chance(0.1) { if let Geo::Tri { rev, .. } = &mut l.geo { *rev = !*rev; } }
            w.objs.push(l);
        }
    }
    if w.distants.is_empty() && w.objs.iter().all(|o| o.le.is_none()) { return; }
    // blockers
    if !precise && rng.chance(0.4) { for _ in 0..rng.int(1, 2) {
        let ctr = t + (side + dir(rng) * 0.8).norm() * scale * rng.logu(0.35, 4.);
        let r = scale * rng.logu(0.03, 0.6);
        if (ctr - t).len() < r * 1.5 { continue; }
        if rng.chance(0.5) { w.objs.push(Obj::new(Geo::sph(ctr, r), BLACK)); } else { let g = Geo::tri([ctr + pt(rng, 2. * r), ctr + pt(rng, 2. * r), ctr + pt(rng, 2. * r)]); if g.quality() > 1e-3 { w.objs.push(Obj::new(g, BLACK)); } }
    } }
    // what the ray sees
    let (own, tt) = match w.hit(o, d, f64::INFINITY, None) { Some(h) => h, None => return };
    if own != 0 { c.count("receiver_hidden"); return; }
    let p = o + d * tt;
    let mut n = w.normal(0, p);
    if n.dot(d) > 0. { n = -n; }
    // no light or blocker may touch the point
    for (k, x) in w.objs.iter().enumerate() { if k > 0 { if let Geo::Tri { p: q, .. } = &x.geo { let m = (q[1] - q[0]).cross(q[2] - q[0]).norm(); if (p - q[0]).dot(m).abs() < 1e-4 * (p.maxabs() + scale) { return; } } else if let Geo::Sph { c: q, r } = &x.geo { if ((p - *q).len() - r).abs() < 0.02 * scale { return; } } } }
    if let Geo::Tri { p: q, vn: Some(m), .. } = &w.objs[0].geo {
        let nn = (q[1] - q[0]).cross(q[2] - q[0]);
        let (x, y) = ((p - q[0]).cross(q[2] - q[0]).dot(nn) / nn.dot(nn), (q[1] - q[0]).cross(p - q[0]).dot(nn) / nn.dot(nn));
        let mut sn = (m[0] * (1. - x - y) + m[1] * x + m[2] * y).norm();
        if sn.dot(n) < 0. { sn = -sn; }
        // everything on the same side of the surface and of the plane of the interpolated normal
        let both = |r: V| { let r = r.norm(); let (a, b) = (r.dot(n), r.dot(sn)); a > 0.02 && b > 0.02 || a < -0.02 && b < -0.02 };
        let lights = w.objs.iter().filter(|o| o.le.is_some()).all(|o| match &o.geo { Geo::Tri { p: l, .. } => l.iter().all(|l| both(*l - p) && (*l - p).dot(n) > 0.) || l.iter().all(|l| both(*l - p) && (*l - p).dot(n) < 0.), _ => false });
        if !both(-d) || !lights || !w.distants.iter().all(|l| both(l.1)) { c.count("bent_skipped"); return; }
        c.count("bent_receivers");
        c.maximum("bent_angle", sn.dot(n).min(1.).acos());
        n = sn;
    }
    // the shadow of an edge may not run through the point
    for (_, x) in &w.distants {
        let x = x.norm();
        if x.dot(n).abs() < 1e-3 { return; }
        let (a, b) = onb(x);
        let k = 1e-5 * (p.maxabs() + scale);
        let r: Vec<bool> = [v(0., 0., 0.), a * k, a * -k, b * k, b * -k].iter().map(|q| w.blocked(p + *q + n * k, x, f64::INFINITY, 0)).collect();
        if r.iter().any(|q| *q != r[0]) { c.count("shadow_edges_skipped"); return; }
    }
    let (mut want, mut free, shadow) = direct(&w, 0, p, n, kd, rng);
    if let Some(e) = w.objs[0].le { if w.normal(0, p).dot(d) < 0. { want = add3(want, e); free = add3(free, e); } }
    let desc = format!("from {:?} towards {:?}: point {:?} normal {:?}: {:?}", o, d, p, n, w);
    c.eval(Some(hash(&[i])));
    c.count(if shadow { "shadowed" } else { "unshadowed" });
    let na = w.objs.iter().skip(1).filter(|o| o.le.is_some()).count();
    c.count(match (na, w.distants.len()) { (0, 1) => "one_distant_light", (0, _) => "distant_lights", (1, 0) => "one_area_light", (_, 0) => "area_lights", _ => "mixed_lights" });
    if many { c.count("many_lights"); c.maximum("lights_in_one_scene", (na + w.distants.len()) as f64); }
    if sphere { c.count("sphere_receivers"); }
    if shiny { c.count("emitting_receivers"); }
    c.sample(|| format!("{} lights, expected {:?}, without shadows {:?}", w.objs.iter().filter(|o| o.le.is_some()).count() + w.distants.len(), want, free));
    let lmax = w.objs.iter().filter_map(|o| o.le).chain(w.distants.iter().map(|l| l.0)).map(max3).fold(0., f64::max);
    let exact = na == 0 && w.distants.len() == 1 && !shiny;
    let mut spp = if exact { 1 } else if precise { 1500 } else { 32 };
    if precise { c.count(match (0..3).map(|k| want[k] / (kd[k] * w.objs.iter().skip(1).filter_map(|o| o.le).next().unwrap_or([1.; 3])[k]).max(1e-9)).fold(0., f64::max) { f if f < 0.001 => "precise_tiny_light", f if f < 0.03 => "precise_small_light", f if f < 0.2 => "precise_medium_light", _ => "precise_large_light" }); }
    let mut msg = None;
    for stage in 0..4 {
        let seed = rng.u64();
        let e = w.radiance(o, d, 8, spp, seed, 1, rng.chance(0.3));
        c.add("rendered_samples", 64 * spp as u64);
        let (m, se) = (e.mean(), e.se());
        let mut bad = false;
        let mut zz = 0f64;
        for k in 0..3 {
            // visibility is integrated numerically, and the shadow of an edge through the point is a step
            let tol = 6. * se[k] + 2e-4 * want[k] + if shadow { 0.004 * free[k] } else { 0. } + 1e-7 + 3e-6 * lmax;
            if !((m[k] - want[k]).abs() <= tol) { bad = true; }
            zz = zz.max(((m[k] - want[k]).abs() - (tol - 6. * se[k])).max(0.) / (se[k] + 1e-12));
        }
        if stage == 0 && !exact { let rs = (0..3).map(|k| if want[k] > 1e-6 { se[k] / want[k] } else { 0. }).fold(0., f64::max); if rs < 0.02 { c.count("within_2_percent"); } }
        if !bad { c.count("agree"); if stage > 0 { c.count("settled_by_more_samples"); } else { c.maximum("standard_errors", zz); } msg = None; break; }
        msg = Some(format!("rendered {:?} (standard error {:?}), expected {:?} (without shadows {:?}), {:.1} standard errors apart at {} samples, {}", m, se, want, free, zz, 64 * spp, desc));
        if exact && !shadow { break; }
        spp = (spp * 6).max(32);
    }
    if let Some(mut m) = msg {
        // light by light
        for k in 0..w.objs.len() + w.distants.len() {
            if many { break; }
            let mut x = w.clone();
            if k < w.objs.len() { if w.objs[k].le.is_none() || k == 0 { continue; } x.distants.clear(); for (j, o) in x.objs.iter_mut().enumerate() { if j != k { o.le = None; } } }
            else { for o in &mut x.objs { o.le = None; } x.distants = vec![w.distants[k - w.objs.len()]]; }
            let e = x.radiance(o, d, 8, 512, 1, 1, false);
            m = format!("[alone, light {}: {:?}, expected {:?}] {}", k, e.mean(), direct(&x, 0, p, n, kd, rng).0, m);
        }
        c.violate(if shadow { "direct-light-shadowed" } else { "direct-light" }, m); return; }
    // ---- scaling all lights, with the same random numbers
    let k = if rng.chance(0.5) { 2f64.powi(rng.int(-6, 6) as i32) } else { rng.logu(0.1, 10.) as f32 as f64 };
    let mut w2 = w.clone();
    for o in &mut w2.objs { if let Some(l) = &mut o.le { *l = sc3(*l, k); } }
    for l in &mut w2.distants { l.0 = sc3(l.0, k); }
    let seed = rng.u64();
    let (a, b) = (w.radiance(o, d, 4, 4, seed, 1, false), w2.radiance(o, d, 4, 4, seed, 1, false));
    for j in 0..3 { let (x, y) = (a.mean()[j] * k, b.mean()[j]); c.check((x - y).abs() <= 3e-6 * x.abs().max(y.abs()), "scaling", || format!("scaling all lights by {} changes {:?} into {:?}, {}", k, a.mean(), b.mean(), desc)); }
    c.count("scalings");
}

fn main() {
    run("C25", "one evaluation: direct light of one random arrangement of lights and blockers on one diffuse point, rendered and compared with the polygon form factor, the cosine law and f64 visibility; distinct = different arrangements",
        &["statistical: a difference counts when it exceeds six standard errors and more samples confirm it", "partly hidden area lights are integrated numerically to 0.4 percent", "triangle lights with a smallest altitude of at least a tenth of their longest edge", "film state read through the pt_verif_film hook"], |ctx| {
        let n = ctx.n(6000, 60000);
        par(ctx, 1, n, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("case {}", i), |c| case(c, &mut rng, i, false)); });
        let m = ctx.n(700, 6000);
        par(ctx, 2, m, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("precise case {}", i), |c| case(c, &mut rng, n + i, true)); });
        for (k, m) in [("unshadowed", 1000), ("many_lights", 20), ("shadowed", 400), ("one_distant_light", 100), ("distant_lights", 200), ("one_area_light", 200), ("area_lights", 400), ("mixed_lights", 200), ("sphere_receivers", 200), ("bent_receivers", 300), ("emitting_receivers", 50), ("within_2_percent", 50), ("scalings", 2000), ("precise_tiny_light", 50), ("precise_small_light", 50), ("precise_medium_light", 30), ("precise_large_light", 20)] { ctx.require(k, m); }
    });
}
