//! C05: rays leaving a surface.
use pt::verif::interaction::Interaction;
use pt::verif::shape::Shape;
use pt::verif::vector::Point2f;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use std::sync::Arc;

fn shape(rng: &mut Rng, s: f64, o: V) -> Geo {
    for _ in 0..50 {
        let g = match rng.below(8) {
            0 | 1 => rand_tri(rng, o, s),
            2 => { let k = rng.below(3); quad(k, o[k], (o[(k + 1) % 3], o[(k + 2) % 3]), (o[(k + 1) % 3] + s * rng.range(0.1, 1.), o[(k + 2) % 3] + s * rng.range(0.1, 1.)))[rng.below(2)].clone() }
            3 => { let d = dir(rng); let (a, b) = onb(d); let w = s * rng.logu(0.02, 1.); Geo::tri([o - d * s, o + d * s + a * w, o + d * s + b * w]) }
            4 => Geo::tri([o + pt(rng, s) * 30., o + pt(rng, s) * 30., o + pt(rng, s) * 30.]),
            5 => Geo::sph(o, s),
            6 => Geo::sph(o, s * rng.logu(0.05, 20.)),
            _ => Geo::sph(v(0., 0., 0.), s),
        };
        if g.quality() > 2e-4 { return match g { Geo::Tri { p, .. } => {
            // shading normals, possibly far from the plane's: they decide nothing here
            let k = rng.logu(0.02, 3.); let n = (p[1] - p[0]).cross(p[2] - p[0]).norm() * if rng.chance(0.5) { 1. } else { -1. };
            let vn = if rng.chance(0.4) { let l = rng.logu(0.1, 10.); Some([0, 1, 2].map(|_| ((n + pt(rng, k)) * l).q())) } else { None };
            Geo::Tri { p, vn: vn.filter(|v| bary_ok(v)), rev: rng.chance(0.3) } }, g => g }; }
    }
    Geo::sph(v(0., 0., 0.), s)
}

/// a hit of the shape, from a ray aimed at a random point of it
fn hit(rng: &mut Rng, g: &Geo, s: &Arc<dyn Shape>) -> Option<Interaction> {
    let mut t = g.point(rng);
    // near the origin and the coordinate planes, where errors are largest relative to the coordinates
    if let Geo::Tri { p, .. } = g { if rng.chance(0.3) {
        let n = (p[1] - p[0]).cross(p[2] - p[0]).norm();
        let mut q = v(0., 0., 0.);
        if rng.chance(0.5) { for k in 0..3 { q[k] = t[k]; } q[rng.below(3)] = 0.; }
        t = q + n * (p[0] - q).dot(n) + pt(rng, 1e-3) * (g.hi() - g.lo()).maxabs() * rng.f64();
        t = t - n * (t - p[0]).dot(n);
    } }
    let (o, d);
    match rng.below(4) {
        0 => { let l = (g.hi() - g.lo()).len(); o = t + dir(rng) * (l * rng.logu(0.01, 100.)); d = t - o; }
        1 => { let l = (g.hi() - g.lo()).len(); let mut e = v(0., 0., 0.); e[rng.below(3)] = if rng.chance(0.5) { 1. } else { -1. }; o = t + e * (l * 2.); d = -e; }
        2 => { o = (g.hi() + g.lo()) * 0.5 + dir(rng) * ((g.hi() - g.lo()).len() * 3.); d = t - o; }
        _ => { let w = dir(rng); o = t + w * (g.hi().maxabs() + g.lo().maxabs()); d = -w; }
    }
    let r = R { o: o.q(), d: d.norm().q(), tmax: f64::INFINITY, kind: 0 };
    s.intersect(&r.ray()).map(|x| x.0)
}

fn main() {
    run("C05", "one evaluation: one spawned ray tested against the surfaces it leaves or connects; distinct = different rays", &["directions within 1e-3 of the tangent plane are not used: there the side itself is a rounding decision", "triangle altitude above 1e-3 of its coordinates"], |ctx| {
        let n = ctx.n(600000, 6000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let s = 2f64.powf(rng.range(-10., 13.));
            let far = *rng.pick(&[0., 1., 3., 30., 200.]);
            let o = pt(&mut rng, s * far);
            let a = shape(&mut rng, s, o);
            let sep = s * *rng.pick(&[0.1, 1., 3., 10.]);
            let o2 = o + pt(&mut rng, sep);
            let b = shape(&mut rng, s, o2);
            let (sa, sb) = (a.shape(), b.shape());
            let side = |g: &Geo, i: &Interaction, d: V| -> f64 { match g { // towards the outside of a sphere, or simply away from the plane
                Geo::Tri { .. } => i.n.to().dot(d).abs(), Geo::Sph { .. } => i.n.to().dot(d) } };
            for _ in 0..12 {
                let ia = match hit(&mut rng, &a, &sa) { Some(x) => x, None => { c.count("aimed_but_missed"); continue; } };
                let nrm = ia.n.to();
                // single surface
                for _ in 0..4 {
                    let w = if rng.chance(0.3) { let (x, y) = onb(nrm); let ph = rng.range(0., 6.283); let e = rng.logu(1.2e-4, 0.1) * if rng.chance(0.5) { 1. } else { -1. }; ((x * ph.cos() + y * ph.sin()) + nrm * e).norm() } else { dir(&mut rng) };
                    let w = (w * if rng.chance(0.2) { rng.logu(1e-2, 1e2) } else { 1. }).q();
                    let cw = nrm.dot(w) / w.len();
                    if cw.abs() < 1e-4 { continue; }
                    let ry = ia.spawn_ray(w.v());
                    let desc = || format!("{:?} p={:?} p_err={:?} n={:?} w={:?} origin={:?}", a, ia.p, ia.p_err, ia.n, w, ry.origin);
                    c.eval(Some(hash_f(&[ry.origin.x, ry.origin.y, ry.origin.z, ry.direction.x, ry.direction.y])));
                    c.check(ry.direction.to() == w && ry.t_max == f32::INFINITY, "ray", desc);
                    let moved = (ry.origin.to() - ia.p.to()).len();
                    c.check(moved <= 1e-5 * (ia.p.to().maxabs() * 4. + (a.hi() - a.lo()).maxabs() * 4.), "moved-far", || format!("{} moved {}", desc(), moved));
                    let again = sa.intersect(&ry);
                    match &a {
                        Geo::Tri { p, .. } => {
                            // the whole plane counts: the neighbour in the same flat surface must not be met either
                            let m = (p[1] - p[0]).cross(p[2] - p[0]).norm();
                            let h = (ry.origin.to() - p[0]).dot(m) * m.dot(w).signum();
                            let noise = 1e-14 * (p[0].maxabs() + p[1].maxabs() + p[2].maxabs() + ry.origin.to().maxabs());
                            c.maximum("wrong_side_rel", -h / (p[0].maxabs() + p[1].maxabs() + p[2].maxabs()));
                            c.check(h > -noise, "wrong-side", || format!("{}: starts {:e} behind the plane", desc(), -h));
                            c.count("leaving_triangle"); if ia.sn.to().dot(w) * nrm.dot(w) < 0. { c.count("between_the_horizons"); } c.check(again.is_none() && !sa.intersect_p(&ry), "triangle-self-hit", || format!("{} t={:?}", desc(), again.as_ref().map(|x| x.1))); }
                        Geo::Sph { r, .. } => if cw > 0. {
                            c.count("leaving_sphere"); c.check(again.is_none() && !sa.intersect_p(&ry), "sphere-self-hit", || format!("{} t={:?}", desc(), again.as_ref().map(|x| x.1)));
                        } else {
                            // chord of the sphere; the rounding of p shifts it
                            let chord = 2. * r * -cw;
                            let err = 8e-7 * (ia.p.to().maxabs() + r) / -cw;
                            if err > 0.2 * chord { continue; }
                            c.count("entering_sphere");
                            match again { Some((_, t)) => { let e = (t as f64 * w.len() - chord).abs(); c.maximum("chord_error_over_limit", e / (err * 4.)); c.check(e <= 4. * err + 1e-5 * chord, "near-side-again", || format!("{} t={} instead of {}", desc(), t, chord / w.len())); }
                                None => { c.violate("opposite-side-missed", desc()); } }
                        },
                    }
                }
                // two surfaces
                let ib = match &b {
                    Geo::Tri { .. } if rng.chance(0.3) => { // a point sampled on it, as lights do
                        c.count("sampled_targets");
                        let mut u = || if rng.chance(0.1) { *rng.pick(&[0f32, 1. - f32::EPSILON / 2., 1e-4]) } else { rng.f32() };
                        let (x, y) = (u(), u());
                        sb.sample(Point2f::new(x, y)) }
                    _ => match hit(&mut rng, &b, &sb) { Some(x) => x, None => continue } };
                let d = ib.p.to() - ia.p.to();
                let l = d.len();
                let scale = ia.p.to().maxabs().max(ib.p.to().maxabs());
                if l < 3e-2 * scale { c.count("too_close_pairs"); continue; }
                let u = d / l;
                // straight sight: the segment leaves A at ia and meets B at ib, and neither surface is crossed in between
                let (ca, cb) = (side(&a, &ia, u), side(&b, &ib, -u));
                if ca.abs() < 0.02 || cb.abs() < 0.02 { continue; }
                let oa = match &a { Geo::Sph { .. } => ca > 0., _ => true };
                let ob = match &b { Geo::Sph { .. } => cb > 0., _ => true };
                if !oa || !ob { continue; }
                let ry = ia.spawn_ray_to(&ib);
                let desc = || format!("{:?} -> {:?}: p={:?} q={:?} origin={:?} direction={:?} t_max={}", a, b, ia.p, ib.p, ry.origin, ry.direction, ry.t_max);
                c.eval(Some(hash_f(&[ry.origin.x, ry.origin.y, ry.origin.z, ry.direction.x, ry.direction.y])));
                c.count("segments");
                c.count(&format!("segment_{}_{}", kind(&a), kind(&b)));
                let end = ry.origin.to() + ry.direction.to() * ry.t_max as f64;
                let gap = (ib.p.to() - end).dot(u) / l;
                c.maximum("segment_gap_rel", gap);
                c.check(gap > 0. && gap < 2e-3, "segment-end", || format!("{} ends {} before the target", desc(), gap * l));
                c.check((end - ib.p.to()).len() < 3e-3 * l && (ry.origin.to() - ia.p.to()).len() < 3e-3 * l, "segment-place", desc);
                // a point of the triangle other than ib may lie on the segment only if the segment crosses its plane elsewhere: it does not
                c.check(!sa.intersect_p(&ry), "segment-blocked-by-start", || format!("{} t={:?}", desc(), sa.intersect(&ry).map(|x| x.1)));
                c.check(!sb.intersect_p(&ry), "segment-blocked-by-end", || format!("{} t={:?}", desc(), sb.intersect(&ry).map(|x| x.1)));
                if c.stop() { return; }
            }
            if i < 3 { c.sample(|| format!("{:?} and {:?}", a, b)); }
        });
        for k in ["leaving_triangle", "between_the_horizons", "sampled_targets", "leaving_sphere", "entering_sphere", "segments", "segment_tri_tri", "segment_tri_sph", "segment_sph_tri", "segment_sph_sph"] { ctx.require(k, 500); }
    });
}
/// interpolated normals stay away from zero
fn bary_ok(vn: &[V; 3]) -> bool { let m = (vn[0] + vn[1] + vn[2]) / 3.; let l = m.len(); l > 1e-3 && vn.iter().all(|x| x.dot(m) > 0.02 * l * x.len()) }
fn kind(g: &Geo) -> &'static str { match g { Geo::Tri { .. } => "tri", _ => "sph" } }
