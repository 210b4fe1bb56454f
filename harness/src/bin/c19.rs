//! C19: sampled scattering agrees with evaluation and is well-formed.
use pt::verif::vector::Point2f;
use ptmon::fw::*;
use ptmon::gen::dir;
use ptmon::geo::*;
use ptmon::mats::*;
use std::f64::consts::PI;

fn ok3(s: S3) -> bool { s.iter().all(|x| x.is_finite() && *x >= 0.) }

fn main() {
    run("C19", "one evaluation: one sampled direction compared with evaluating value and density for it, or one evaluated pair; distinct = different (material, frame, directions)", &["roughness zero along both tangents or at least 0.01 along both"], |ctx| {
        let n = ctx.n(600000, 2500000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let m = any_mat(&mut rng, 0.01);
            let bent = rng.chance(0.5);
            let fr = if bent { Frame::bent(&mut rng) } else { Frame::flat(&mut rng) };
            let (mat, lobes, eta) = (m.material(), m.lobes(), m.eta());
            let opaque = m.name() != "glass";
            c.guard(|| format!("{:?} {:?}", m, fr), |c| {
                let b = fr.bsdf(&mat);
                for _ in 0..12 {
                    let wo = match rng.below(8) { 0 => { let g = rng.logu(1e-7, 1e-2) * if rng.chance(0.5) { 1. } else { -1. }; c.count("grazing"); wdir(&fr, g, rng.range(0., 2. * PI)) } 1 => fr.sn * if rng.chance(0.5) { 1. } else { -1. }, 2 => { let a = rng.range(0., 2. * PI); c.count("horizon"); wdir(&fr, 0., a) } _ => wo_dir(&mut rng, &fr, 0.01) };
                    let o = fr.local(wo);
                    let u1 = |rng: &mut Rng| match rng.below(12) { 0 => 0f32, 1 => 1. - f32::EPSILON / 2., 2 => 0.5, 3 => 0.49999997, 4 => 0.25, 5 => 0.75, _ => rng.f32() };
                    let u = Point2f::new(u1(&mut rng), u1(&mut rng));
                    let (wi, f, pdf, flag) = b.sample_f(wo.v(), u);
                    let desc = || format!("{:?} {:?} local wo {:?} wo {:?} u {:?}: sampled {:?} value {:?} density {:e} kind {}", m, fr, o, wo, u, wi, f, pdf, flag);
                    c.count("samples");
                    if !c.check(pdf >= 0. && pdf.is_finite(), "density", desc) { return; }
                    if pdf > 0. {
                        let w = wi.to();
                        if !c.check(w.finite() && (w.len() - 1.).abs() < 2e-4, "direction", desc) { return; }
                        if !c.check(ok3(sp(f)), "value", desc) { return; }
                        let iv = fr.local(w);
                        c.eval(Some(hash_f(&[wi.x, wi.y, wi.z, pdf, f.r])));
                        c.check(is_refl(flag) != is_trans(flag), "kind", desc);
                        if iv.z.abs() > 1e-4 && o.z.abs() > 1e-4 {
                            c.check((iv.z * o.z > 0.) == is_refl(flag), "side", desc);
                            c.count(if is_refl(flag) { "reflected" } else { "transmitted" });
                        }
                        // what an opaque surface scatters diffusely stays on its geometric side, however the shading normal is bent
                        if opaque && !is_spec(flag) && w.dot(fr.gn) * wo.dot(fr.gn) < -1e-5 { c.count("opaque_other_side"); c.check(sp(f) == [0.; 3], "leak", desc); }
                        if !is_spec(flag) {
                            let (ef, ep) = (sp(b.f(wo.v(), wi)), b.pdf(wo.v(), wi) as f64);
                            let (gf, gp) = (sp(f), pdf as f64);
                            let away = w.dot(fr.gn).abs() > 1e-5 && wo.dot(fr.gn).abs() > 1e-5;
                            let tol = rel_tol(&lobes, eta, o, iv).map(|t| 2. * t + 2. * lobes.iter().map(|l| l.cond_tol(o.dot((o + iv).norm()).abs())).fold(0., f64::max));
                            if let (true, Some(tol)) = (away, tol) {
                                c.count("compared");
                                if bent && (w.dot(fr.gn) * wo.dot(fr.gn) > 0.) != (iv.z * o.z > 0.) { c.count("compared_sides_disagree"); }
                                let d2 = || format!("{}; evaluation gives value {:?} density {:e} (tol {:e})", desc(), ef, ep, tol);
                                for k in 0..3 { c.check((gf[k] - ef[k]).abs() <= tol * gf[k].max(ef[k]).max(1e-3 * max3(gf)) + 1e-9, "value-differs", d2); }
                                c.check((gp - ep).abs() <= tol * gp.max(ep) + 1e-9, "density-differs", d2);
                                c.maximum("density_relative_difference", (gp - ep).abs() / gp);
                            } else { c.count("ill_conditioned"); }
                        } else { c.count("specular"); }
                    } else { c.count("rejected"); c.eval(None); }
                    // evaluation of an arbitrary pair
                    let wi = match rng.below(5) { 0 => { let g = rng.logu(1e-7, 1e-2) * if rng.chance(0.5) { 1. } else { -1. }; wdir(&fr, g, rng.range(0., 2. * PI)) } 1 => -wo, 2 => wo, 3 => wdir(&fr, 0., rng.range(0., 2. * PI)), _ => dir(&mut rng).q() };
                    let (f, p) = (sp(b.f(wo.v(), wi.v())), b.pdf(wo.v(), wi.v()) as f64);
                    c.eval(None); c.count("evaluated_pairs");
                    c.check(ok3(f) && p.is_finite() && p >= 0., "evaluation", || format!("{:?} {:?} wo {:?} wi {:?} local {:?} {:?}: value {:?} density {:e}", m, fr, wo, wi, o, fr.local(wi), f, p));
                    if opaque && wi.dot(fr.gn) * wo.dot(fr.gn) < -1e-5 { c.count("opaque_other_side"); c.check(f == [0.; 3], "leak", || format!("{:?} {:?} wo {:?} wi {:?} local {:?} {:?}, on different sides of the surface: value {:?}", m, fr, wo, wi, o, fr.local(wi), f)); }
                    if c.stop() { return; }
                }
                if i < 4 { c.sample(|| format!("{:?} {:?}", m, fr)); }
            });
        });
        // axis-aligned frames and directions with vanishing components
        let n = ctx.n(40000, 100000);
        par(ctx, 2, n, |c, _| {
            let mut rng = c.rng.clone();
            let m = any_mat(&mut rng, 0.01); let mat = m.material();
            let k = rng.below(3);
            let mut sn = v(0., 0., 0.); sn[k] = 1.; let mut d = v(0., 0., 0.); d[(k + 1) % 3] = 1.;
            let fr = Frame { gn: sn, sn, dpdu: d };
            let b = fr.bsdf(&mat);
            let tiny = |rng: &mut Rng| { let a = rng.range(0., 2. * PI); let a = if rng.chance(0.3) { 0. } else { a }; let mut w = v(0., 0., 0.); w[(k + 1) % 3] = a.cos(); w[(k + 2) % 3] = a.sin(); w[k] = if rng.chance(0.2) { 0. } else { rng.logu(1e-15, 1e-3) } * if rng.chance(0.5) { 1. } else { -1. }; w.q() };
            for _ in 0..30 {
                let wo = if rng.chance(0.4) { dir(&mut rng).q() } else { tiny(&mut rng) };
                let wi = match rng.below(4) { 0 => -wo, 1 => dir(&mut rng).q(), 2 => { let mut w = -wo; w[k] = tiny(&mut rng)[k]; w } _ => tiny(&mut rng) };
                let (f, p) = (sp(b.f(wo.v(), wi.v())), b.pdf(wo.v(), wi.v()) as f64);
                c.count("vanishing_cosines"); c.eval(None); if wo[k] == 0. || wi[k] == 0. { c.count("exactly_in_the_surface"); }
                let u = Point2f::new(rng.f32(), rng.f32());
                c.check(ok3(f) && p.is_finite() && p >= 0., "evaluation", || format!("{:?} normal axis {} wo {:?} wi {:?}: value {:?} density {:e}", m, k, wo, wi, f, p));
                let (w, f, p, _) = b.sample_f(wo.v(), u);
                c.check(p >= 0. && (p == 0. || (ok3(sp(f)) && p.is_finite() && (w.to().len() - 1.).abs() < 2e-4)), "value", || format!("{:?} normal axis {} wo {:?} u {:?}: sampled {:?} value {:?} density {:e}", m, k, wo, u, w, f, p));
            }
        });
        for (k, m) in [("compared", 50000), ("compared_sides_disagree", 200), ("specular", 20000), ("opaque_other_side", 20000), ("reflected", 50000), ("transmitted", 10000), ("grazing", 5000), ("horizon", 5000), ("evaluated_pairs", 100000), ("vanishing_cosines", 50000)] { ctx.require(k, m); }
    });
}
