//! C22: smooth surfaces against the laws of reflection and refraction in f64.
use pt::verif::vector::Point2f;
use ptmon::fw::*;
use ptmon::geo::*;
use ptmon::mats::*;
use std::f64::consts::PI;

fn main() {
    run("C22", "one evaluation: one smooth material, frame and outgoing direction whose sampled directions and weights are compared with mirror, Snell and Fresnel laws; distinct = different (material, direction)", &["outgoing cosine at least 0.002"], |ctx| {
        let n = ctx.n(1200000, 3000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let kind = *rng.pick(&[1usize, 3, 5, 7, 7]);
            let mut m = mat_kind(&mut rng, kind, 0.1);
            if kind == 7 && rng.chance(0.3) { if let Mat::Glass { ref mut kr, ref mut kt, .. } = m { *kr = [1.; 3]; *kt = [1.; 3]; } }
            if kind == 7 { if let Mat::Glass { ref mut eta, .. } = m { match rng.below(5) { 0 => { let e = rng.logu(1e-3, 0.1); *eta = ((if rng.chance(0.5) { 1. + e } else { 1. - e }) as f32) as f64; c.count("index_close_to_one"); } 1 => { let e = rng.logu(2., 12.); *eta = ((if rng.chance(0.5) { e } else { 1. / e }) as f32) as f64; c.count("extreme_index"); } _ => () } } }
            let fr = Frame::flat(&mut rng);
            let mut wo = wo_dir(&mut rng, &fr, 0.002);
            let eta = m.eta();
            // around the critical angle
            if kind == 7 && rng.chance(0.2) {
                let nn = if eta > 1. { eta } else { 1. / eta };
                let cc = (1. - 1. / (nn * nn)).sqrt() + rng.range(-0.02, 0.02);
                if cc > 0.01 && cc < 1. { wo = wdir(&fr, if eta > 1. { -cc } else { cc }, rng.range(0., 2. * PI)); c.count("near_critical_angle"); }
            }
            let mat = m.material();
            let lobes = m.lobes();
            let desc = format!("{:?} {:?} wo {:?}", m, fr, wo);
            c.guard(|| desc.clone(), |c| {
                let b = fr.bsdf(&mat);
                let o = fr.local(wo);
                let above = o.z > 0.;
                let co = o.z.abs();
                let (n1, n2) = if above { (1., eta) } else { (eta, 1.) };
                let s2 = (1. - co * co) * (n1 / n2) * (n1 / n2);
                let g2 = (n1 / n2).max(n2 / n1).powi(2).max(1.); // rounding errors of the direction grow with the index ratio
                let critical = (s2 - 1.).abs() < 3e-5 * g2;
                let refr = if s2 < 1. { let ct = (1. - s2).sqrt(); Some(v(-o.x * n1 / n2, -o.y * n1 / n2, if above { -ct } else { ct })) } else { None };
                let mirror = v(-o.x, -o.y, o.z);
                // expected weights
                let (mut er, mut et) = ([0.; 3], [0.; 3]);
                let mut diffuse = false;
                for l in &lobes { match *l {
                    Lobe::SpecR(r, f) => er = mul3(r, f.eval(co, above)),
                    Lobe::SpecT(t, _) => if refr.is_some() { et = sc3(t, (1. - fr_diel(co, n1, n2)) * (n1 / n2) * (n1 / n2)); }
                    Lobe::Diff(_) => diffuse = true, _ => {} } }
                let (mut gr, mut gt) = ([0.; 3], [0.; 3]);
                let ns = 64;
                for k in 0..ns {
                    let u = Point2f::new((k as f32 + rng.f32() * 0.999) / ns as f32, rng.f32());
                    let (wi, f, pdf, flag) = b.sample_f(wo.v(), u);
                    c.count("samples");
                    if pdf == 0. { continue; }
                    if !is_spec(flag) { c.check(diffuse, "unexpected-lobe", || format!("{} u {:?}: non-mirror direction {:?} from a smooth surface", desc, u, wi)); continue; }
                    let w = fr.local(wi.to());
                    let weight = sc3(sp(f), wi.to().dot(fr.sn).abs() / pdf as f64);
                    // conditioning of the refracted direction near the critical angle
                    let tol = 3e-6 * g2.sqrt();
                    if w.z * o.z > 0. {
                        c.check(is_refl(flag) && !is_trans(flag), "kind", || format!("{} u {:?}: reflected direction flagged {}", desc, u, flag));
                        c.check((w - mirror).len() <= 3e-6, "mirror-direction", || format!("{} u {:?}: reflected to {:?}, mirror direction {:?}", desc, u, w, mirror));
                        gr = add3(gr, sc3(weight, 1. / ns as f64)); c.count("reflections");
                    } else {
                        c.check(is_trans(flag) && !is_refl(flag), "kind", || format!("{} u {:?}: transmitted direction flagged {}", desc, u, flag));
                        match refr {
                            Some(r) => { let t = tol + 1.5e-6 * g2 / r.z.abs(); c.maximum("refraction_error_over_tolerance", (w - r).len() / t); c.check(critical || (w - r).len() <= t, "snell", || format!("{} u {:?}: refracted to {:?}, Snell {:?}", desc, u, w, r)); c.count("refractions"); }
                            None => { c.check(critical, "beyond-critical", || format!("{} u {:?}: transmits to {:?} beyond the critical angle", desc, u, w)); }
                        }
                        gt = add3(gt, sc3(weight, 1. / ns as f64));
                    }
                    let e = b.f(wo.v(), wi); let p = b.pdf(wo.v(), wi);
                    if !diffuse { c.check(max3(sp(e)) == 0. && p == 0., "smooth-evaluates", || format!("{}: evaluating the mirror pair gives {:?}, density {}", desc, e, p)); }
                }
                if refr.is_none() { c.count("beyond_critical_angle"); }
                c.eval(Some(hash_f(&[wo.x as f32, wo.y as f32, wo.z as f32, eta as f32, er[0] as f32])));
                let ct = refr.map(|r| r.z.abs()).unwrap_or(1.);
                let tol = 2e-5 + 2e-6 / co + 1e-6 / (co * ct) + 2e-6 * if g2 > 9. { g2 } else { 1. } / (ct * ct) + lobes.iter().map(|l| l.cond_tol(co)).fold(0., f64::max);
                if !critical {
                    for k in 0..3 {
                        c.maximum("weight_error", (gr[k] - er[k]).abs());
                        c.check((gr[k] - er[k]).abs() <= tol, "reflected-fraction", || format!("{}: reflects {:?}, Fresnel law {:?}", desc, gr, er));
                        c.check((gt[k] - et[k]).abs() <= tol * (1. + (n1 / n2).powi(2)), "refracted-fraction", || format!("{}: transmits {:?}, Fresnel law {:?}", desc, gt, et));
                    }
                    if let Mat::Glass { kr, kt, .. } = m { if kr == [1.; 3] && kt == [1.; 3] {
                        c.count("clear_glass");
                        let sum = gr[0] + gt[0] * (n2 / n1).powi(2);
                        // the transmitted fraction is evaluated at the refracted direction, whose rounding error grows with the index ratio
                        c.check((sum - 1.).abs() <= tol * 4. + 5e-7 * g2 * g2.sqrt() / co, "glass-sum", || format!("{}: reflected and refracted fractions add up to {}", desc, sum));
                    } }
                }
                c.count(&format!("{}_{}", m.name(), if above { "above" } else { "below" }));
                if i < 4 { c.sample(|| desc.clone()); }
            });
        });
        for (k, m) in [("reflections", 10000), ("refractions", 10000), ("clear_glass", 500), ("beyond_critical_angle", 500), ("near_critical_angle", 500), ("metal_above", 1000), ("plastic_above", 1000), ("plastic_below", 1000), ("mirror_above", 1000), ("glass_below", 1000)] { ctx.require(k, m); }
    });
}
