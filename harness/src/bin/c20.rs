//! C20: energy of every material by quadrature of its value and by sampling.
use pt::verif::vector::Point2f;
use ptmon::fw::*;
use ptmon::geo::*;
use ptmon::mats::*;
use std::f64::consts::PI;

fn main() {
    run("C20", "one evaluation: scattered fraction of one (material, frame, outgoing direction), by quadrature of the value and by sampling; distinct = different cases", &["roughness zero along both tangents or at least 0.04 along both", "outgoing cosine at least 0.02"], |ctx| {
        let n = ctx.n(10000, 60000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let mut m = any_mat(&mut rng, 0.04);
            // reflectances as large as allowed, often exactly one
            let one = rng.chance(0.5);
            match m {
                Mat::Lambert { ref mut kd } => if one { *kd = [1.; 3]; },
                Mat::Mirror { ref mut kr } => if one { *kr = [1.; 3]; },
                Mat::Plastic { ref mut kd, ref mut ks, .. } => { let a = rng.f32() as f64; for k in 0..3 { if one { kd[k] = a; ks[k] = 1. - a; } else if kd[k] + ks[k] > 1. { let s = kd[k] + ks[k]; kd[k] = (kd[k] / s) as f32 as f64; ks[k] = (ks[k] / s) as f32 as f64; } } }
                Mat::Metal { ref mut r, .. } => if one { *r = [1.; 3]; },
                Mat::Glass { ref mut kr, ref mut kt, .. } => if one { *kr = [1.; 3]; *kt = [1.; 3]; },
            }
            let bent = rng.chance(0.25);
            let fr = if bent { Frame::bent(&mut rng) } else { Frame::flat(&mut rng) };
            let wo = wo_dir(&mut rng, &fr, 0.02);
            let o = fr.local(wo);
            if bent && o.z * wo.dot(fr.gn) <= 0.02 * o.z.abs() { return; }
            let eta = m.eta();
            let (n1, n2) = if o.z > 0. { (1., eta) } else { (eta, 1.) };
            let kt = if matches!(m, Mat::Glass { .. }) { (n2 / n1) * (n2 / n1) } else { 1. };
            let mat = m.material();
            let desc = format!("{:?} {:?} wo {:?} local {:?}", m, fr, wo, o);
            c.guard(|| desc.clone(), |c| {
                let b = fr.bsdf(&mat);
                let lobes = m.lobes();
                // coarse quadrature; an excess is confirmed by a finer one
                let mut quad = [0.; 3];
                for fine in 0..2 {
                let (pieces, tol, depth) = if fine == 0 { (8, 1e-4, 8) } else { c.count("refined"); (40, 2e-7, 12) };
                quad = [0.; 3];
                if lobes.iter().any(|l| !l.specular()) {
                    let trans = lobes.iter().find(|l| matches!(l, Lobe::MicT(..))).copied();
                    for hemi in 0..2 {
                        let (z0, z1) = if hemi == 0 { (0., 1.) } else { (-1., 0.) };
                        let back = (hemi == 0) != (o.z > 0.);
                        for q in 0..pieces {
                            if let (Some(l), true) = (trans, back) {
                                // transmitted side: over the unit square of microfacet normals, where the integrand has no peak
                                let mut g = |a: f64, p: f64| -> [f64; 3] {
                                    let w = match lobe_dir(&l, o, [a, p]) { Some(w) => w, None => return [0.; 3] };
                                    let d = lobe_density(&l, o, w);
                                    if !(d > 0.) || w.z * o.z >= 0. { return [0.; 3]; }
                                    sc3(sp(b.f(wo.v(), fr.world(w).v())), w.z.abs() * kt / d) };
                                quad = add3(quad, integrate(&mut g, 0., 1., q as f64 / pieces as f64, (q + 1) as f64 / pieces as f64, tol, depth));
                            } else {
                                let mut g = |z: f64, p: f64| -> [f64; 3] { let s = (1. - z * z).max(0.).sqrt(); let w = fr.world(v(s * p.cos(), s * p.sin(), z)).q(); sc3(sp(b.f(wo.v(), w.v())), z.abs() * if z * o.z < 0. { kt } else { 1. }) };
                                quad = add3(quad, integrate(&mut g, z0, z1, q as f64 * 2. * PI / pieces as f64, (q + 1) as f64 * 2. * PI / pieces as f64, tol, depth));
                            }
                        }
                    }
                }
                if quad.iter().all(|x| *x <= 1. + 1e-3) || bent { break; }
                }
                let kk = 96;
                let (mut spc, mut mc, mut m2) = ([0.; 3], [0.; 3], [0.; 3]);
                for a in 0..kk { for e in 0..kk {
                    let (wi, f, pdf, flag) = b.sample_f(wo.v(), Point2f::new(((a as f64 + rng.f64()) / kk as f64 * 0.9999999) as f32, ((e as f64 + rng.f64()) / kk as f64 * 0.9999999) as f32));
                    if !(pdf > 0.) { continue; }
                    let z = wi.to().dot(fr.sn);
                    let w = sc3(sp(f), z.abs() / pdf as f64 * if z * o.z < 0. { kt } else { 1. } / (kk * kk) as f64);
                    if is_spec(flag) { spc = add3(spc, w); } else {
                        // clipped: the weights have a heavy tail, and clipping only lowers the mean
                        let w = w.map(|x| x.min(10. / (kk * kk) as f64)); mc = add3(mc, w); m2 = add3(m2, mul3(w, w)); }
                } }
                let tot = add3(quad, spc);
                c.eval(Some(hash_f(&[wo.x as f32, wo.y as f32, wo.z as f32, tot[0] as f32, i as f32])));
                c.count(&format!("{}_{}{}", m.name(), if o.z > 0. { "above" } else { "below" }, if bent { "_bent" } else { "" }));
                for k in 0..3 {
                    let tol = 1e-3 + 2e-5 / o.z.abs();
                    if !bent || matches!(m, Mat::Lambert { .. }) {
                        c.maximum("scattered_fraction", tot[k]);
                        c.check(tot[k] <= 1. + tol, "energy", || format!("{}: scatters {:?} (value {:?}, mirror part {:?})", desc, tot, quad, spc));
                        // what sampling returns does not exceed it either
                        c.maximum("scattered_fraction_sampled", mc[k] + spc[k]);
                        let n = (kk * kk) as f64; let se = (m2[k] - mc[k] * mc[k] / n).max(0.).sqrt();
                        c.maximum("sampled_standard_error", se);
                        c.check(mc[k] + spc[k] <= 1.01 + 6. * se, "energy-sampled", || format!("{}: sampling returns {:?} + mirror {:?}", desc, mc, spc));
                    } else { c.maximum("scattered_fraction_bent", tot[k]); c.maximum("scattered_fraction_bent_sampled", mc[k] + spc[k]);
                        if tot[k] > 1.05 { c.count("bent_over_one"); }
                    }
                    let exact = match m { Mat::Lambert { kd } => Some(kd[k]), Mat::Mirror { kr } => Some(kr[k]), Mat::Glass { kr, kt, ru, rv, .. } if ru == 0. && rv == 0. && kr == [1.; 3] && kt == [1.; 3] => Some(1.), _ => None };
                    if let Some(e) = exact { if !bent {
                        c.count("exact_fractions");
                        let s2 = (1. - o.z * o.z) * (n1 / n2).powi(2);
                        if !matches!(m, Mat::Glass { .. }) || (s2 - 1.).abs() > 1e-3 { c.check((tot[k] - e).abs() <= tol, "exact-fraction", || format!("{}: scatters {:?}, parameters say {}", desc, tot, e)); }
                    } }
                }
                if i < 4 { c.sample(|| desc.clone()); }
            });
        });
        for (k, m) in [("lambert_above", 20), ("mirror_above", 20), ("plastic_above", 50), ("plastic_below", 50), ("metal_above", 50), ("glass_above", 50), ("glass_below", 50), ("exact_fractions", 300)] { ctx.require(k, m); }
    });
}
