//! C03: ray-shape hits against f64 geometry.
use pt::verif::light::AreaLight;
use pt::verif::shape::Shape;
use pt::verif::spectrum::Spectrum;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::synth::SMat;
use std::sync::Arc;

fn any_shape(rng: &mut Rng) -> Geo {
    let s = if rng.chance(0.3) { 2f64.powf(rng.range(-24., 24.)) } else { 2f64.powf(rng.range(-10., 10.)) };
    let far = match rng.below(4) { 0 => 0., 1 => 1., 2 => 10., _ => 100. };
    let o = pt(rng, s * far);
    for _ in 0..100 {
        let g = match rng.below(10) {
            0 => rand_tri(rng, o, s),
            1 => { let k = rng.below(3); let q = quad(k, o[k], (o[(k + 1) % 3], o[(k + 2) % 3]), (o[(k + 1) % 3] + s * rng.range(0.1, 1.), o[(k + 2) % 3] + s * rng.range(0.1, 1.))); q[rng.below(2)].clone() }
            2 => { let d = dir(rng); let (a, b) = onb(d); let w = s * rng.logu(0.01, 1.); Geo::tri([o - d * s, o + d * s + a * w, o + d * s + b * w]) }
            3 => Geo::tri([lat(rng, 4) * s, lat(rng, 4) * s, lat(rng, 4) * s]),
            4 => { // large, seen from close by
                Geo::tri([o + pt(rng, s) * 50., o + pt(rng, s) * 50., o + pt(rng, s) * 50.]) }
            5 => Geo::sph(o, s * rng.logu(0.1, 1.)),
            6 => Geo::sph(o, s * 30.),
            8 => { let r = s * rng.logu(0.1, 1.); Geo::sph(dir(rng) * (r * rng.logu(100., 3e5)), r) }
            7 => Geo::sph(lat(rng, 3) * s, s * rng.int(1, 4) as f64),
            _ => Geo::sph(v(0., 0., 0.), s),
        };
        if g.quality() > 2e-5 { return with_normals(rng, g); }
    }
    Geo::sph(o, s)
}
fn with_normals(rng: &mut Rng, g: Geo) -> Geo {
    match g {
        Geo::Tri { p, .. } => Geo::Tri { p, vn: if rng.chance(0.2) { let n = (p[1] - p[0]).cross(p[2] - p[0]).norm(); Some([n, (n + pt(rng, 0.5)).norm(), n]) } else { None }, rev: rng.chance(0.3) },
        g => g,
    }
}

fn main() {
    run("C03", "one evaluation: one ray against one shape, compared with f64 geometry; distinct = certain hits", &["cases within 1e-5 relative of a silhouette, of the ray's origin or of its end are not judged", "triangles have altitude above 2e-5 of their coordinates"], |ctx| {
        let n = ctx.n(400000, 6000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let geo = any_shape(&mut rng);
            let sh: Arc<dyn Shape> = if let (Geo::Tri { .. }, true) = (&geo, rng.chance(0.2)) { Arc::new(AreaLight::new(Spectrum::new(1., 1., 1.), geo.triangle(Arc::new(SMat {})))) } else { geo.shape() };
            let gs = [geo.clone()];
            let tri = if let Geo::Tri { .. } = geo { true } else { false };
            let what = if tri { "triangle" } else { "sphere" };
            for _ in 0..60 {
                let mut r = ray(&mut rng, &gs);
                if rng.chance(0.25) { // extents around the hit
                    let x = geo.isect(r.o, r.d, f64::INFINITY);
                    if x.kind == Tri::Hit { r.tmax = (x.t * rng.pick(&[0.3, 0.999, 1.001, 1.5, 3.])) as f32 as f64; }
                }
                if !tri && rng.chance(0.3) { if let Geo::Sph { c: cc, r: rad } = &geo { r.o = (*cc + dir(&mut rng) * (rad * rng.range(0., 0.99))).q(); r.kind = 50; c.count("inside_sphere"); } }
                if !tri && rng.chance(0.1) { if let Geo::Sph { c: cc, r: rad } = &geo { // exactly on the sphere
                    let mut e = v(0., 0., 0.); e[rng.below(3)] = if rng.chance(0.5) { *rad } else { -*rad };
                    r.o = (*cc + e).q(); if rng.chance(0.5) { r.d = (e * -1. / *rad).q(); } r.kind = 51; r.tmax = f64::INFINITY; } }
                if rng.chance(0.1) { // starting close to the surface, towards it
                    let q = geo.point(&mut rng);
                    let n = match &geo { Geo::Tri { p, .. } => (p[1] - p[0]).cross(p[2] - p[0]).norm() * if rng.chance(0.5) { 1. } else { -1. }, Geo::Sph { c: cc, .. } => (q - *cc).norm() };
                    let e = (geo.hi() - geo.lo()).maxabs() * rng.logu(1e-6, 0.1);
                    r.o = (q + n * e).q(); r.d = ((dir(&mut rng) * 0.9 - n).norm()).q(); r.tmax = f64::INFINITY; r.kind = 52; c.count("starts_near_surface");
                }
                if r.d.len() == 0. || !(r.tmax > 0.) { continue; }
                let ry = r.ray();
                let x = geo.isect(r.o, r.d, r.tmax);
                let desc = || format!("{:?} ray kind {} o={:?} d={:?} tmax={}", geo, r.kind, r.o, r.d, r.tmax);
                let got = match c.guard(desc, |_| sh.intersect(&ry)) { Some(g) => g, None => continue };
                let dl = r.d.len();
                match (&got, x.kind) {
                    (_, Tri::Unsure) => {
                        c.count(&format!("{}_unsure", what)); c.eval(None);
                        // whichever way the near crossing is decided, a certain far crossing is there
                        if let Geo::Sph { c: cc, r: rad } = &geo {
                            let (oc, dn) = (r.o - *cc, r.d / dl);
                            let scale = oc.len() + rad;
                            let tm = -oc.dot(dn);
                            let b = (oc + dn * tm).len();
                            if b < rad - 3e-6 * scale {
                                let h = (rad * rad - b * b).sqrt();
                                let tol = 1e-6 * scale * rad / h;
                                let (t0, t1) = (tm - h, tm + h);
                                if t0.abs() <= tol && t1 > 2. * tol && t1 < r.tmax * dl - tol {
                                    c.count("starts_on_sphere");
                                    if oc.len() == *rad { c.count("starts_exactly_on_sphere"); }
                                    match &got {
                                        None => c.violate("far-side-missed", format!("{}: crossings at {:e} and {}", desc(), t0, t1)),
                                        Some((_, t)) => { let t = *t as f64 * dl; c.check((t - t1).abs() <= tol || (t > 0. && t <= 2. * tol), "wrong-t", || format!("{}: t={} but the crossings are at {:e} and {}", desc(), t, t0, t1)); }
                                    }
                                }
                            }
                        }
                    }
                    (None, Tri::Miss) => { c.count(&format!("{}_miss", what)); c.eval(None); }
                    (Some((_, t)), Tri::Miss) => c.violate("false-hit", format!("{}: t={} reported but the ray misses", desc(), t)),
                    (None, Tri::Hit) => c.violate("missed-hit", format!("{}: true hit at t={}", desc(), x.t)),
                    (Some((_, t)), Tri::Hit) => {
                        c.eval(Some(hash_f(&[ry.origin.x, ry.origin.y, ry.origin.z, ry.direction.x, ry.direction.y, ry.direction.z])));
                        c.count(&format!("{}_hit", what));
                        if tri { if let Geo::Tri { p, .. } = &geo { c.count(if (p[1] - p[0]).cross(p[2] - p[0]).dot(r.d) < 0. { "triangle_front" } else { "triangle_back" }); } }
                        let e = (*t as f64 - x.t).abs();
                        c.maximum(&format!("{}_t_error_over_tolerance", what), e / x.tol);
                        c.check(e <= x.tol, "wrong-t", || format!("{}: t={} instead of {} (tolerance {})", desc(), t, x.t, x.tol));
                    }
                }
                if let Some((i, t)) = got {
                    c.check(t > 0. && t as f64 <= r.tmax * (1. + 3e-7), "outside-extent", || format!("{}: reported at {:e}", desc(), t));
                    let p = i.p.to();
                    // judged for rounding-level decisions as well: the point is on the surface and, within the conditioning of t, on the ray
                    let (ds, sc) = match &geo {
                        Geo::Tri { p: q, .. } => {
                            let m = (q[1] - q[0]).cross(q[2] - q[0]).norm();
                            let sc = (0..3).map(|k| q[k].maxabs()).fold(0., f64::max);
                            let mut out = 0f64;
                            for k in 0..3 { let a = q[k]; let b = q[(k + 1) % 3]; let en = m.cross(b - a).norm(); out = out.max(-(p - a).dot(en)); }
                            (((p - q[0]).dot(m)).abs().max(out), sc)
                        }
                        Geo::Sph { c, r } => (((p - *c).len() - r).abs(), c.maxabs() + r),
                    };
                    c.maximum(&format!("{}_surface_distance_rel", what), ds / sc);
                    c.check(ds <= 3e-6 * sc, "off-surface", || format!("{}: point {:?} is {} off the surface", desc(), p, ds));
                    if x.kind == Tri::Hit {
                        let on = r.o + r.d * t as f64;
                        let e = (on - p).len();
                        let lim = 3. * x.tol * dl + 4e-6 * (p.maxabs() + r.o.maxabs());
                        c.maximum(&format!("{}_ray_distance_over_limit", what), e / lim);
                        c.check(e <= lim, "off-ray", || format!("{}: point {:?} is {} from the ray point (limit {})", desc(), p, e, lim));
                    }
                }
                if c.stop() { return; }
            }
            if i < 3 { c.sample(|| format!("{:?}", geo)); }
        });
        for k in ["triangle_hit", "triangle_miss", "sphere_hit", "sphere_miss", "triangle_front", "triangle_back", "inside_sphere", "starts_on_sphere", "starts_exactly_on_sphere", "starts_near_surface"] { ctx.require(k, 1000); }
    });
}
