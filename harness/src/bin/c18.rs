//! C18: distribution of sampled directions against the reported density.
use pt::verif::vector::Point2f;
use ptmon::fw::*;
use ptmon::geo::*;
use ptmon::mats::*;
use std::f64::consts::PI;

const NC: usize = 8; // cosine bins per hemisphere
const NP: usize = 16;

fn main() {
    run("C18", "one evaluation: one solid-angle bin of one (material, frame, outgoing direction), fraction of stratified samples against the integral of the reported density; distinct = bins holding at least 1e-4 of the samples", &["roughness zero along both tangents or at least 0.04 along both", "outgoing cosine at least 0.02"], |ctx| {
        let n = ctx.n(960, 6000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let kind = *rng.pick(&[0usize, 2, 2, 3, 4, 4, 6, 6, 6, 6, 7, 5]);
            let m = mat_kind(&mut rng, kind, 0.04);
            let fr = if rng.chance(0.3) { Frame::bent(&mut rng) } else { Frame::flat(&mut rng) };
            let wo = wo_dir(&mut rng, &fr, 0.02);
            let o = fr.local(wo);
            let mat = m.material();
            let desc = format!("{:?} {:?} wo {:?} local {:?}", m, fr, wo, o);
            c.guard(|| desc.clone(), |c| {
                let b = fr.bsdf(&mat);
                // axes of the bins: shading frame rotated about the normal
                let rot = rng.range(0., 2. * PI);
                let kk = 320usize;
                let all = m.lobes();
                let mut h = vec![0u32; 2 * NC * NP];
                let (mut non_mirror, mut mirror) = (0u32, 0u32);
                for a in 0..kk { for e in 0..kk {
                    let u = Point2f::new((((a as f64 + rng.f64()) / kk as f64) as f32).min(1. - f32::EPSILON / 2.), (((e as f64 + rng.f64()) / kk as f64) as f32).min(1. - f32::EPSILON / 2.));
                    let (wi, _, pdf, flag) = b.sample_f(wo.v(), u);
                    if !(pdf > 0.) { continue; }
                    if is_spec(flag) { mirror += 1; continue; }
                    non_mirror += 1;
                    let w = fr.local(wi.to()).norm();
                    // the density handed out with the direction is the reported one
                    if wo.dot(fr.gn).abs() > 1e-5 && w.z.abs() > 1e-3 && o.z.abs() > 1e-3 {
                        if let Some(tol) = rel_tol(&all, m.eta(), o, w) {
                            let p = b.pdf(wo.v(), wi) as f64;
                            c.count("densities_compared");
                            c.check((pdf as f64 - p).abs() <= 3. * tol * p.max(pdf as f64) + 1e-9, "density-of-sample", || format!("{}: sampled {:?} from {:?} with density {:e}, but its density is {:e}", desc, wi, u, pdf, p));
                        }
                    }
                    let phi = (w.y.atan2(w.x) - rot).rem_euclid(2. * PI);
                    let ci = (((w.z + 1.) * NC as f64) as usize).min(2 * NC - 1);
                    let pi = ((phi / (2. * PI) * NP as f64) as usize).min(NP - 1);
                    h[ci * NP + pi] += 1;
                } }
                let total = (kk * kk) as f64;
                // integral of the reported density over every bin: importance sampling with independent reference samplers of
                // the lobes (and some uniform directions), weighted by their exact joint density
                let lobes: Vec<Lobe> = m.lobes().into_iter().filter(|l| !l.specular()).collect();
                let mut est = vec![0f64; 2 * NC * NP];
                let nl = lobes.len();
                let uw = 0.15;
                for li in 0..=nl {
                    let wgt = if nl == 0 { 1. } else if li == nl { uw } else { (1. - uw) / nl as f64 };
                    let k = 300usize;
                    for a in 0..k { for e in 0..k {
                        let u = [(a as f64 + rng.f64()) / k as f64, (e as f64 + rng.f64()) / k as f64];
                        let w = if li == nl { let z = 2. * u[0] - 1.; let s = (1. - z * z).max(0.).sqrt(); let p = 2. * PI * u[1]; v(s * p.cos(), s * p.sin(), z) } else { match lobe_dir(&lobes[li], o, u) { Some(w) => w, None => continue } };
                        let mut q = (if nl == 0 { 1. } else { uw }) / (4. * PI);
                        for l in &lobes { q += (1. - uw) / nl as f64 * lobe_density(l, o, w); }
                        let d = b.pdf(wo.v(), fr.world(w).v()) as f64;
                        if d == 0. { continue; }
                        let phi = (w.y.atan2(w.x) - rot).rem_euclid(2. * PI);
                        let ci = (((w.z + 1.) * NC as f64) as usize).min(2 * NC - 1);
                        let pi = ((phi / (2. * PI) * NP as f64) as usize).min(NP - 1);
                        est[ci * NP + pi] += d / q * wgt / (k * k) as f64;
                    } }
                }
                let mut sum = 0.;
                for ci in 0..2 * NC { for pi in 0..NP {
                    let (c0, c1) = (ci as f64 / NC as f64 - 1., (ci + 1) as f64 / NC as f64 - 1.);
                    let (p0, p1) = (pi as f64 / NP as f64 * 2. * PI + rot, (pi + 1) as f64 / NP as f64 * 2. * PI + rot);
                    let e = est[ci * NP + pi];
                    let got = h[ci * NP + pi] as f64 / total;
                    sum += e;
                    c.eval(if got > 1e-4 { Some(hash(&[i, ci as u64, pi as u64])) } else { None });
                    c.maximum("bin_difference", (got - e).abs());
                    c.check(e.is_finite() && (got - e).abs() <= 0.0025 + 0.015 * e, "distribution", || format!("{}: directions with cosine {:.3}..{:.3} azimuth {:.3}..{:.3}: sampled fraction {:.5}, reported density integrates to {:.5}", desc, c0, c1, p0, p1, got, e));
                } }
                let frac = non_mirror as f64 / total;
                c.maximum("total_difference", (sum - frac).abs());
                c.check((sum - frac).abs() <= 0.008, "normalisation", || format!("{}: non-mirror fraction {:.5}, reported density integrates to {:.5}", desc, frac, sum));
                c.count(&format!("{}_{}", m.name(), if o.z > 0. { "above" } else { "below" }));
                c.add("sampled_directions", non_mirror as u64); c.add("mirror_samples", mirror as u64);
                if m.rough() { c.count("rough"); }
                if i < 4 { c.sample(|| desc.clone()); }
            });
        });
        for (k, m) in [("densities_compared", 100000), ("sampled_directions", 1000000), ("mirror_samples", 1000), ("rough", 40), ("glass_above", 8), ("glass_below", 8), ("metal_above", 5), ("plastic_above", 5), ("lambert_above", 1)] { ctx.require(k, m); }
    });
}
