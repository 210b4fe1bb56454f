//! C04: the surface frame of every reported hit.
use pt::verif::interaction::Interaction;
use pt::verif::light::AreaLight;
use pt::verif::shape::Shape;
use pt::verif::spectrum::Spectrum;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::synth::SMat;
use std::f64::consts::PI;
use std::sync::Arc;

fn unit(x: V) -> bool { x.finite() && (x.len() - 1.).abs() <= 2e-5 }

fn frame(c: &mut Ctx, geo: &Geo, r: &R, i: &Interaction) {
    let desc = || format!("{:?} ray kind {} o={:?} d={:?}: p={:?} n={:?} sn={:?} dpdu={:?} dpdv={:?} uv=({}, {}) wo={:?}", geo, r.kind, r.o, r.d, i.p, i.n, i.sn, i.dpdu, i.dpdv, i.uv.x, i.uv.y, i.wo);
    let (p, n, sn, du, dv, wo) = (i.p.to(), i.n.to(), i.sn.to(), i.dpdu.to(), i.dpdv.to(), i.wo.to());
    c.check(p.finite() && i.uv.x.is_finite() && i.uv.y.is_finite(), "not-finite", desc);
    c.check(unit(n), "n-not-unit", desc);
    c.check(unit(sn), "sn-not-unit", desc);
    c.check(n.dot(sn) >= -1e-5, "opposite-sides", desc);
    c.check(wo.finite() && (wo + r.d).len() <= 1e-5 * r.d.len(), "wo", desc);
    for (t, s) in [(du, "dpdu"), (dv, "dpdv")] {
        let ok = t.finite() && t.len() > 0.;
        if !c.check(ok, &format!("{}-degenerate", s), desc) { continue; }
        let e = t.dot(sn).abs() / t.len();
        c.maximum(&format!("{}_tilt", s), e);
        c.check(e <= 2e-3, &format!("{}-not-tangent", s), desc);
    }
    match geo {
        Geo::Sph { c: cc, r: rad } => {
            let m = (p - *cc).norm();
            let eps = 4e-6 * (cc.maxabs() + rad) / rad + 1e-5;
            c.check(n.dot(m) > 0. && (n - m).len() <= eps, "sphere-normal", desc);
            c.check((sn - n).len() <= 1e-5, "sphere-shading-normal", desc);
            // phi in [0, 2 pi] around z, theta in [0, pi] from +z
            let (u, t) = (i.uv.x as f64, i.uv.y as f64);
            c.check(u >= -1e-5 && u <= 2. * PI + 1e-5 && t >= -1e-5 && t <= PI + 1e-5, "sphere-uv-range", desc);
            let th = n.z.clamp(-1., 1.).acos();
            let st = n.x.hypot(n.y);
            c.check((t - th).abs() <= eps + 4e-6 / st.max(1e-3) && (t.cos() - n.z).abs() <= eps, "sphere-theta", desc);
            if st > 1e-3 {
                let q = (n.x / st - u.cos()).hypot(n.y / st - u.sin());
                c.check(q <= (eps + 1e-5) / st, "sphere-phi", desc);
                // dpdu follows growing phi, dpdv growing theta
                let (fu, fv) = (v(-n.y, n.x, 0.) / st, v(n.x * n.z / st, n.y * n.z / st, -st));
                let tol = 3e-4 + 4. * (eps + 1e-5) / st;
                if tol < 0.5 { c.count("sphere_tangents"); c.check((du.norm() - fu).len() <= tol && (dv.norm() - fv).len() <= tol, "sphere-tangents", || format!("{} expected along {:?} and {:?}", desc(), fu, fv)); }
            } else { c.count("near_poles"); }
        }
        Geo::Tri { p: q, vn, rev } => {
            let e = (q[1] - q[0]).cross(q[2] - q[0]);
            let w = e.norm() * if *rev { -1. } else { 1. };
            let tol = 3e-6 / geo.quality().max(1e-7) + 1e-5;
            let tol = tol.min(0.2);
            c.check((n.dot(w).abs() - 1.).abs() <= tol * tol + 1e-5 && n.cross(w).len() <= tol, "triangle-normal", desc);
            // barycentric coordinates of the point
            let g = |a: V, b: V| e.dot((a - p).cross(b - p)) / e.dot(e);
            let b = [g(q[1], q[2]), g(q[2], q[0]), g(q[0], q[1])];
            let bt = 1e-5 / geo.quality().max(1e-7) + 1e-5;
            match vn {
                None => { c.check(n.dot(w) > 0., "winding", desc); c.check((sn - n).len() <= 1e-5, "shading-normal", desc); c.count("flat_triangles"); }
                Some(vn) => {
                    let s = vn[0] * b[0] + vn[1] * b[1] + vn[2] * b[2];
                    let l = s.len();
                    if l > 10. * bt && bt < 0.02 {
                        let s = s / l * if *rev { -1. } else { 1. };
                        c.maximum("shading_normal_error", (sn - s).len() / (3. * bt / l));
                        c.check((sn - s).len() <= 6. * bt / l + 1e-5, "interpolated-normal", || format!("{} expected {:?}", desc(), s));
                        c.count("interpolated");
                    } else { c.count("vanishing_normals"); }
                }
            }
            // dpdu lies along growing u (from the first to the second vertex), turned into the plane of the shading normal and up to its sign
            let (fu, fv) = (q[1] - q[0], q[2] - q[1]);
            let ax = |a: V, b: V| a.norm().cross(b.norm()).len();
            if vn.is_none() {
                c.count("triangle_tangents");
                c.check(ax(du, fu) <= tol && ax(dv, fv) <= tol && du.dot(fu) > 0. && dv.dot(fv) > 0., "triangle-tangents", || format!("{} expected along {:?} and {:?}", desc(), fu, fv));
            } else {
                let f = fu.norm() - sn * fu.norm().dot(sn);
                if f.len() > 0.02 {
                    c.count("turned_tangents");
                    c.check(ax(du, f) <= 1e-4 + 2e-5 / f.len() && ax(dv, sn.cross(f)) <= 1e-4 + 2e-5 / f.len(), "turned-tangents", || format!("{} expected along {:?}", desc(), f));
                }
            }
            // u and v interpolate (0,0), (1,0), (1,1)
            if bt < 0.05 {
                let (u, vv) = (b[1] + b[2], b[2]);
                c.check((i.uv.x as f64 - u).abs() <= 4. * bt && (i.uv.y as f64 - vv).abs() <= 4. * bt, "triangle-uv", || format!("{} expected ({}, {})", desc(), u, vv));
            }
        }
    }
}

fn shape(rng: &mut Rng) -> Geo {
    let s = 2f64.powf(rng.range(-8., 8.));
    let far = *rng.pick(&[0., 0., 1., 10., 50.]);
    let o = pt(rng, s * far);
    if rng.chance(0.4) { return match rng.below(3) { 0 => Geo::sph(v(0., 0., 0.), s), 1 => Geo::sph(lat(rng, 5), rng.int(1, 4) as f64), _ => Geo::sph(o, s) }; }
    for _ in 0..50 {
        let g = match rng.below(3) { 0 => rand_tri(rng, o, s), 1 => Geo::tri([lat(rng, 3), lat(rng, 3), lat(rng, 3)]), _ => { let k = rng.below(3); quad(k, o[k], (o[(k + 1) % 3], o[(k + 2) % 3]), (o[(k + 1) % 3] + s, o[(k + 2) % 3] + s))[rng.below(2)].clone() } };
        if g.quality() < 1e-4 { continue; }
        if let Geo::Tri { p, .. } = g {
            let m = (p[1] - p[0]).cross(p[2] - p[0]).norm();
            let (a, b) = onb(m);
            let vn = match rng.below(8) {
                0 | 1 | 2 => None,
                3 => { let k = rng.range(0., 0.5); Some([(m + pt(rng, k)).norm(), (m + pt(rng, k)).norm(), (m + pt(rng, k)).norm()]) }
                4 => { let k = rng.range(0., 0.5); Some([-(m + pt(rng, k)).norm(), -(m + pt(rng, k)).norm(), -(m + pt(rng, k)).norm()]) }
                5 => Some([dir(rng), dir(rng), dir(rng)]),
                6 => { let d = if rng.chance(0.5) { m } else { dir(rng) }; Some([d, -d, d]) } // opposed
                _ => { // exactly opposed and axis-aligned, or along the first edge
                    let d = *rng.pick(&[v(1., 0., 0.), v(0., 1., 0.), v(0., 0., -1.), (p[1] - p[0]).norm(), a, b]); Some([d, -d, if rng.chance(0.5) { d } else { -d }]) }
            };
            return Geo::Tri { p, vn: vn.map(|n| [n[0].q(), n[1].q(), n[2].q()]), rev: rng.chance(0.4) };
        }
    }
    Geo::sph(o, s)
}

fn main() {
    run("C04", "one evaluation: one reported hit whose whole frame is checked; distinct = different hits", &["triangles have altitude above 1e-4 of their coordinates; tolerances grow with the conditioning of the triangle", "interpolated normals are compared where their sum is longer than 10 times the rounding of the barycentric coordinates"], |ctx| {
        let n = ctx.n(600000, 800000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let geo = shape(&mut rng);
            let sh: Arc<dyn Shape> = if let (Geo::Tri { .. }, true) = (&geo, rng.chance(0.2)) { Arc::new(AreaLight::new(Spectrum::new(1., 1., 1.), geo.triangle(Arc::new(SMat {})))) } else { geo.shape() };
            let gs = [geo.clone()];
            for k in 0..30 {
                let mut r = ray(&mut rng, &gs);
                r.tmax = f64::INFINITY;
                match &geo {
                    Geo::Sph { c: cc, r: rad } => match k {
                        // poles, from outside and inside, exactly and barely off the axis
                        0..=5 => {
                            let s = if k % 2 == 0 { 1. } else { -1. };
                            let off = *rng.pick(&[0., 0., 1e-30, 1e-20, 1e-12, 1e-7, 1e-4]) * rad;
                            r.o = (*cc + v(off, if rng.chance(0.5) { off } else { 0. }, s * rad * *rng.pick(&[0., 0.5, 2., 3.]))).q();
                            r.d = v(0., 0., if (r.o.z - cc.z).abs() > *rad { -s } else { s });
                            if rng.chance(0.3) { r.d = r.d * 3.; }
                            r.kind = 60; c.count("pole_rays");
                        }
                        // seam and equator
                        6..=9 => {
                            let d = *rng.pick(&[v(1., 0., 0.), v(-1., 0., 0.), v(0., 1., 0.), v(0., -1., 0.), v(1., 1e-8, 0.), v(1., -1e-8, 0.), v(1., 0., 1.), v(1., -0., 0.)]);
                            r.o = *cc; r.d = d.q(); r.kind = 61; c.count("seam_rays");
                        }
                        _ => {}
                    },
                    Geo::Tri { p, vn, .. } => if k < 10 { // special points: centre of the edges, where opposed normals cancel
                        let t = *rng.pick(&[(p[0] + p[1]) * 0.5, (p[1] + p[2]) * 0.5, (p[0] + p[2]) * 0.5, (p[0] + p[1] * 2. + p[2]) * 0.25, (p[0] + p[1] + p[2] * 2.) * 0.25]);
                        let m = (p[1] - p[0]).cross(p[2] - p[0]).norm();
                        let h = (p[1] - p[0]).len();
                        let side = if rng.chance(0.5) { 1. } else { -1. };
                        r.o = (t + m * (h * side)).q(); r.d = (t - r.o).q(); r.kind = 62;
                        if vn.is_some() { c.count("cancelling_normals_aimed"); }
                    },
                }
                if r.d.len() == 0. { continue; }
                let g = &geo; let s = &sh;
                if let Some(Some((i, _))) = c.guard(|| format!("{:?} {:?} {:?}", g, r.o, r.d), |_| s.intersect(&r.ray())) {
                    c.eval(Some(hash_f(&[i.p.x, i.p.y, i.p.z, i.wo.x, i.wo.y, i.wo.z])));
                    c.count(if let Geo::Sph { .. } = geo { "sphere_hits" } else { "triangle_hits" });
                    frame(c, &geo, &r, &i);
                    if c.stop() { return; }
                }
            }
            if i < 3 { c.sample(|| format!("{:?}", geo)); }
        });
        for k in ["sphere_hits", "triangle_hits", "pole_rays", "seam_rays", "interpolated", "vanishing_normals", "flat_triangles", "near_poles", "sphere_tangents", "triangle_tangents", "turned_tangents"] { ctx.require(k, 500); }
    });
}
