//! C21: reciprocity of every material.
use ptmon::fw::*;
use ptmon::gen::dir;
use ptmon::geo::*;
use ptmon::mats::*;

fn main() {
    run("C21", "one evaluation: one material and pair of directions, evaluated both ways round; distinct = different (material, pair)", &["roughness at least 0.02", "pairs whose f32 conditioning exceeds 10 percent are skipped and counted"], |ctx| {
        let n = ctx.n(1200000, 20000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let m = any_mat(&mut rng, 0.02);
            let fr = if rng.chance(0.4) { Frame::bent(&mut rng) } else { Frame::flat(&mut rng) };
            let (mat, lobes, eta) = (m.material(), m.lobes(), m.eta());
            c.guard(|| format!("{:?} {:?}", m, fr), |c| {
                let b = fr.bsdf(&mat);
                for _ in 0..20 {
                    let a = wo_dir(&mut rng, &fr, 0.01);
                    let o = fr.local(a);
                    let w = match rng.below(4) {
                        0 => dir(&mut rng).q(),
                        1 => wo_dir(&mut rng, &fr, 0.01),
                        2 => { let h = v(rng.range(-0.2, 0.2), rng.range(-0.2, 0.2), 1.).norm(); fr.world(h * (2. * o.dot(h)) - o).q() }
                        _ => { let mut h = v(rng.range(-0.3, 0.3), rng.range(-0.3, 0.3), 1.).norm(); if o.z < 0. { h = -h; } let (n1, n2) = if o.z > 0. { (1., eta) } else { (eta, 1.) }; let ci = o.dot(h); let s2 = (1. - ci * ci) * (n1 / n2) * (n1 / n2); if s2 >= 1. { continue; } fr.world(-o * (n1 / n2) + h * (ci * n1 / n2 - (1. - s2).sqrt())).q() }
                    };
                    let iv = fr.local(w);
                    if iv.z.abs() < 0.005 || a.dot(fr.gn).abs() < 1e-4 || w.dot(fr.gn).abs() < 1e-4 { continue; }
                    let same_geo = a.dot(fr.gn) * w.dot(fr.gn) > 0.;
                    let trans = iv.z * o.z < 0.;
                    if same_geo == trans { c.count("sides_disagree"); if lobes.iter().any(|l| l.alpha().is_some()) { continue; } }
                    let tol = match rel_tol(&lobes, eta, o, iv) { Some(t) => 2. * t + 2. * lobes.iter().map(|l| l.cond_tol(o.dot((o + iv).norm()).abs())).fold(0., f64::max), None => { c.count("ill_conditioned"); continue; } };
                    let (x, y) = (sp(b.f(a.v(), w.v())), sp(b.f(w.v(), a.v())));
                    // radiance: value(a, w) / n_a^2 is symmetric, where n is the index on the direction's side
                    let k = if trans && matches!(m, Mat::Glass { .. }) { if o.z > 0. { (1. / eta).powi(2) } else { eta * eta } } else { 1. };
                    c.eval(Some(hash_f(&[a.x as f32, a.y as f32, w.x as f32, w.z as f32, eta as f32])));
                    c.count(&format!("{}_{}", m.name(), if trans { "transmission" } else { "reflection" }));
                    if max3(x) > 0. { c.count("non_zero"); if trans { c.count("non_zero_transmission"); } }
                    for j in 0..3 {
                        let s = x[j].max(k * y[j]);
                        let lim = tol * s.max(1e-3 * max3(x)) + 1e-9;
                        c.check((x[j] - k * y[j]).abs() <= lim, if trans { "transmission" } else { "reflection" }, || format!("{} f(a,b) {:?} f(b,a) {:?} expected ratio {} (tol {:e}) local a {:?} b {:?}: {:?} {:?} a {:?} b {:?}", m.name(), x, y, k, tol, o, iv, m, fr, a, w));
                    }
                }
                if i < 4 { c.sample(|| format!("{:?} {:?}", m, fr)); }
            });
        });
        for (k, m) in [("lambert_reflection", 5000), ("plastic_reflection", 10000), ("metal_reflection", 5000), ("glass_reflection", 5000), ("glass_transmission", 5000), ("non_zero", 50000), ("non_zero_transmission", 3000)] { ctx.require(k, m); }
    });
}
