//! C29: rough materials against an f64 Torrance-Sparrow / GGX model.
use pt::verif::vector::Point2f;
use ptmon::fw::*;
use ptmon::geo::*;
use ptmon::gen::dir;
use ptmon::mats::*;
use std::f64::consts::PI;

fn main() {
    run("C29", "one evaluation: the scattering value of one rough material for one pair of directions compared with the f64 model, or one smooth limit; distinct = different (material, pair of directions)", &["roughness at least 0.02 along both tangents", "pairs whose f32 conditioning exceeds 10 percent are skipped and counted", "index ratio not within 4 percent of one"], |ctx| {
        let n = ctx.n(400000, 1500000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let kind = *rng.pick(&[2usize, 4, 6, 6]);
            let m = mat_kind(&mut rng, kind, 0.02);
            let bent = rng.chance(0.3);
            let fr = if bent { Frame::bent(&mut rng) } else { Frame::flat(&mut rng) };
            let (mat, lobes, eta) = (m.material(), m.lobes(), m.eta());
            c.guard(|| format!("{:?} {:?}", m, fr), |c| {
                let b = fr.bsdf(&mat);
                for _ in 0..20 {
                    let wo = wo_dir(&mut rng, &fr, 0.01);
                    let o = fr.local(wo);
                    // incident direction: near the mirror or Snell direction of a random facet, or anything
                    let (ru, rv) = match m { Mat::Metal { ru, rv, .. } | Mat::Glass { ru, rv, .. } => (ru, rv), Mat::Plastic { rough, .. } => (rough, rough), _ => (1., 1.) };
                    let wi = match rng.below(5) {
                        0 => dir(&mut rng).q(),
                        1 => wo_dir(&mut rng, &fr, 0.01),
                        k => {
                            let e = rng.logu(0.05, 3.); let a = rng.range(0., 2. * PI);
                            let mut h = v(ru * e * a.cos(), rv * e * a.sin(), 1.).norm(); if o.z < 0. { h = -h; }
                            let ci = o.dot(h);
                            let (n1, n2) = if o.z > 0. { (1., eta) } else { (eta, 1.) };
                            let s2 = (1. - ci * ci) * (n1 / n2) * (n1 / n2);
                            let w = if k == 2 && kind == 6 || k == 3 && kind == 6 { if s2 >= 1. || ci <= 0. { continue; } -o * (n1 / n2) + h * (ci * n1 / n2 - (1. - s2).sqrt()) } else { h * (2. * ci) - o };
                            fr.world(w).q()
                        }
                    };
                    let iv = fr.local(wi);
                    if iv.z.abs() < 0.005 || wo.dot(fr.gn).abs() < 1e-4 || wi.dot(fr.gn).abs() < 1e-4 { continue; }
                    let want = match ref_f(&lobes, &fr, wo, wi) { Some(w) => w, None => { c.count("sides_disagree"); continue; } };
                    let tol = match rel_tol(&lobes, eta, o, iv) { Some(t) => t + lobes.iter().map(|l| l.cond_tol(o.dot((o + iv).norm()).abs())).fold(0., f64::max), None => { c.count("ill_conditioned"); continue; } };
                    let got = sp(b.f(wo.v(), wi.v()));
                    let trans = iv.z * o.z < 0.;
                    c.eval(Some(hash_f(&[wo.x as f32, wo.y as f32, wi.x as f32, wi.z as f32, ru as f32, eta as f32])));
                    c.count(&format!("{}_{}_{}", m.name(), if trans { "transmission" } else { "reflection" }, if o.z > 0. { "above" } else { "below" }));
                    if ru != rv { c.count("anisotropic"); }
                    if bent { c.count("bent_frames"); }
                    if max3(want) > 1e-6 { c.count("non_zero"); }
                    for k in 0..3 {
                        let e = (got[k] - want[k]).abs();
                        let lim = tol * want[k].max(max3(want) * 1e-3) + 1e-6 * want[k].max(1e-2);
                        if want[k] > 1e-4 { c.maximum("error_over_tolerance", e / lim); }
                        if !(e <= lim) { c.violate(if trans { "transmission" } else if o.z > 0. { "reflection" } else { "reflection-below" }, format!("{} got {:?} model {:?} (tol {:e}) local wo {:?} wi {:?} roughness ({}, {}) eta {}: {:?} {:?} wo {:?} wi {:?}", m.name(), got, want, tol, o, iv, ru, rv, eta, m, fr, wo, wi)); return; }
                    }
                }
                if i < 4 { c.sample(|| format!("{:?} {:?}", m, fr)); }
            });
        });
        // limit of small roughness: energy of the rough material approaches the smooth one's
        let n = ctx.n(1600, 6000);
        par(ctx, 2, n, |c, _| {
            let mut rng = c.rng.clone();
            let kind = *rng.pick(&[3usize, 5, 7, 7]);
            let smooth = mat_kind(&mut rng, kind, 0.1);
            let a = 0.02f32 as f64;
            let rough = match smooth.clone() { Mat::Plastic { ks, .. } => Mat::Plastic { kd: [0.; 3], ks, rough: a }, Mat::Metal { r, eta, k, .. } => Mat::Metal { r, eta, k, ru: a, rv: a * 1.25 }, Mat::Glass { kr, kt, eta, .. } => Mat::Glass { kr, kt, eta, ru: a, rv: a * 1.25 }, m => m };
            let smooth = match smooth { Mat::Plastic { ks, .. } => Mat::Plastic { kd: [0.; 3], ks, rough: 0. }, m => m };
            let fr = Frame::flat(&mut rng);
            let wo = wo_dir(&mut rng, &fr, 0.35); let o = fr.local(wo);
            let eta = smooth.eta(); let (n1, n2) = if o.z > 0. { (1., eta) } else { (eta, 1.) };
            let s2 = (1. - o.z * o.z) * (n1 / n2).powi(2);
            if kind != 5 && (s2 - 1.).abs() < 0.35 { return; } // Fresnel changes quickly inside the lobe
            let (ms, mr) = (smooth.material(), rough.material());
            let desc = format!("{:?} {:?} wo {:?}", smooth, fr, wo);
            c.guard(|| desc.clone(), |c| {
                let (bs, br) = (fr.bsdf(&ms), fr.bsdf(&mr));
                let (mut es, mut er) = ([[0.; 3]; 2], [[0.; 3]; 2]);
                for k in 0..64 { let (wi, f, pdf, _) = bs.sample_f(wo.v(), Point2f::new((k as f32 + 0.5) / 64., 0.5)); if pdf > 0. { let s = (wi.to().dot(fr.sn) * o.z < 0.) as usize; es[s] = add3(es[s], sc3(sp(f), wi.to().dot(fr.sn).abs() / pdf as f64 / 64.)); } }
                // integrate the value over facet normals around the shading normal: wi = reflection or refraction about h
                for side in 0..2 {
                    if side == 1 && kind != 7 { continue; }
                    let mut g = |e: f64, p: f64| -> [f64; 3] {
                        // slopes (x, y) = alpha * tan, radius e in (0, 1) mapped to (0, inf)
                        let r = a * e / (1. - e); let jr = a / ((1. - e) * (1. - e));
                        let hz = 1. / (1. + r * r).sqrt();
                        let mut h = v(r * p.cos() * hz, r * p.sin() * hz, hz);
                        let dwh = r * hz * hz * hz * jr; // d omega_h = hz^3 r dr dphi
                        if o.z < 0. { h = -h; }
                        let ci = o.dot(h); if ci <= 0. { return [0.; 3]; }
                        let (wi, jac) = if side == 0 { (h * (2. * ci) - o, 4. * ci) } else {
                            let s2 = (1. - ci * ci) * (n1 / n2) * (n1 / n2); if s2 >= 1. { return [0.; 3]; }
                            let w = -o * (n1 / n2) + h * (ci * n1 / n2 - (1. - s2).sqrt()); let ct = w.dot(h);
                            (w, (n1 * ci + n2 * ct).powi(2) / (n2 * n2 * ct.abs())) };
                        // d omega_i = jac * d omega_h for reflection; for refraction d omega_h = n2^2 |wi.h| / (n1 wo.h + n2 wi.h)^2 d omega_i
                        if (side == 0) != (wi.z * o.z > 0.) { return [0.; 3]; }
                        let w = fr.world(wi).q();
                        let f = sp(br.f(wo.v(), w.v()));
                        let k = fr.local(w).z.abs() * jac * dwh;
                        let r = sc3(f, k); if r.iter().all(|x| x.is_finite()) { r } else { [0.; 3] }
                    };
                    er[side] = integrate(&mut g, 0., 1., 0., 2. * PI, 1e-4, 6);
                }
                c.eval(Some(hash_f(&[wo.x as f32, wo.y as f32, eta as f32, es[0][0] as f32])));
                c.count("smooth_limits");
                for s in 0..2 { for k in 0..3 {
                    let sc = if s == 1 { (n1 / n2).powi(2) } else { 1. };
                    c.maximum("smooth_limit_difference", (es[s][k] - er[s][k]).abs() / sc);
                    c.check((es[s][k] - er[s][k]).abs() <= 0.05 * sc, "smooth-limit", || format!("{}: smooth scatters reflected {:?} transmitted {:?}, roughness 0.02 scatters {:?} {:?}", desc, es[0], es[1], er[0], er[1]));
                } }
            });
        });
        for (k, m) in [("metal_reflection_above", 10000), ("plastic_reflection_above", 10000), ("plastic_reflection_below", 10000), ("glass_reflection_above", 5000), ("glass_reflection_below", 5000), ("glass_transmission_above", 5000), ("glass_transmission_below", 5000), ("anisotropic", 10000), ("bent_frames", 10000), ("non_zero", 100000), ("smooth_limits", 100)] { ctx.require(k, m); }
    });
}
