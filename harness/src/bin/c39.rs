//! C39: sampling a surface reaches all the light it scatters, with the right weight.
use pt::verif::vector::Point2f;
use ptmon::fw::*;
use ptmon::geo::*;
use ptmon::mats::*;
use std::f64::consts::PI;

const NC: usize = 3; // cosine bins per hemisphere
const NP: usize = 4;
const NB: usize = 2 * NC * NP;

#[derive(Clone, Copy)]
struct Acc { s: S3, q: S3 }
impl Acc {
    fn add(&mut self, x: S3) { self.s = add3(self.s, x); self.q = add3(self.q, mul3(x, x)); }
    fn mean(&self, n: f64, k: usize) -> f64 { self.s[k] / n }
    fn se(&self, n: f64, k: usize) -> f64 { ((self.q[k] / n - (self.s[k] / n).powi(2)).max(0.) / n).sqrt() }
}
const Z: Acc = Acc { s: [0.; 3], q: [0.; 3] };

fn main() {
    run("C39", "one evaluation: light scattered from one solid-angle bin (or all mirror directions) of one (material, frame, outgoing direction), mean over sampled directions against the integral of the value; distinct = bins that receive light", &["roughness zero along both tangents or at least 0.04 along both", "outgoing cosine at least 0.04", "bent frames: directions whose geometric and shading sides agree"], |ctx| {
        let n = ctx.n(10000, 150000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let kind = *rng.pick(&[0usize, 1, 2, 2, 3, 4, 4, 5, 6, 6, 6, 6, 7]);
            let m = mat_kind(&mut rng, kind, 0.04);
            let bent = rng.chance(0.3);
            let fr = if bent { Frame::bent(&mut rng) } else { Frame::flat(&mut rng) };
            let wo = wo_dir(&mut rng, &fr, 0.04);
            let o = fr.local(wo);
            if bent && o.z * wo.dot(fr.gn) <= 0.02 * o.z.abs() { return; }
            let mat = m.material();
            let all = m.lobes();
            let lobes: Vec<Lobe> = all.iter().copied().filter(|l| !l.specular()).collect();
            let desc = format!("{:?} {:?} wo {:?} local {:?}", m, fr, wo, o);
            c.guard(|| desc.clone(), |c| {
                let b = fr.bsdf(&mat);
                let rot = rng.range(0., 2. * PI);
                let bin = |w: V| { let phi = (w.y.atan2(w.x) - rot).rem_euclid(2. * PI); (((w.z + 1.) * NC as f64) as usize).min(2 * NC - 1) * NP + ((phi / (2. * PI) * NP as f64) as usize).min(NP - 1) };
                // the side of the geometric surface and of the shading normal agree (clearly), and the direction is not along the surface
                let fit = |w: V, i: V| (w.dot(fr.gn) * wo.dot(fr.gn) > 0.) == (i.z * o.z > 0.) && i.z.abs() > 1e-3 && w.dot(fr.gn).abs() > 1e-3;
                for round in 0..3 {
                    let kk = [130usize, 420, 1300][round];
                    let (mut got, mut mirror) = ([Z; NB], [Acc { ..Z }; 2]);
                    for a in 0..kk { for e in 0..kk {
                        let u = Point2f::new((((a as f64 + rng.f64()) / kk as f64) as f32).min(1. - f32::EPSILON / 2.), (((e as f64 + rng.f64()) / kk as f64) as f32).min(1. - f32::EPSILON / 2.));
                        let (wi, f, pdf, flag) = b.sample_f(wo.v(), u);
                        if !(pdf > 0.) { continue; }
                        let w = wi.to(); let iv = fr.local(w);
                        let x = sc3(sp(f), iv.z.abs() / pdf as f64);
                        if is_spec(flag) { mirror[is_trans(flag) as usize].add(x); c.count("mirror_samples"); }
                        else if fit(w, iv) { got[bin(iv)].add(x); c.count("samples"); }
                    } }
                    let mut want = [Z; NB];
                    let mut second = [[0.; 3]; NB]; // second moment of the weights of sampled directions, if they follow their density
                    let nl = lobes.len();
                    let uw = 0.15;
                    let total: usize = kk * kk;
                    if nl > 0 { for li in 0..=nl {
                        // part of the samples for every lobe, counted together as one mixture
                        let share = if li == nl { uw } else { (1. - uw) / nl as f64 };
                        let k = ((total as f64 * share).sqrt() as usize).max(8);
                        for a in 0..k { for e in 0..k {
                            let u = [(a as f64 + rng.f64()) / k as f64, (e as f64 + rng.f64()) / k as f64];
                            let w = if li == nl { let z = 2. * u[0] - 1.; let s = (1. - z * z).max(0.).sqrt(); let p = 2. * PI * u[1]; v(s * p.cos(), s * p.sin(), z) } else { match lobe_dir(&lobes[li], o, u) { Some(w) => w, None => continue } };
                            let mut q = uw / (4. * PI);
                            for l in &lobes { q += (1. - uw) / nl as f64 * lobe_density(l, o, w); }
                            let ww = fr.world(w).q();
                            if !fit(ww, w) { continue; }
                            let f = sp(b.f(wo.v(), ww.v()));
                            let x = sc3(f, w.z.abs() / q * share * total as f64 / (k * k) as f64);
                            want[bin(w)].add(x);
                            // nothing that scatters is out of reach
                            if max3(f) > 0. {
                                let p = b.pdf(wo.v(), ww.v()) as f64;
                                if max3(f) > 1e-6 && q > 1e-6 {
                                    c.count("pairs_with_light");
                                    c.check(p > 0., "unreachable", || format!("{} wi {:?} local {:?}: value {:?} density {:e}", desc, ww, w, f, p));
                                }
                                if p > 0. { let y = sc3(f, w.z.abs()); second[bin(w)] = add3(second[bin(w)], sc3(mul3(y, y), 1. / p / q * share * total as f64 / (k * k) as f64)); }
                            }
                        } }
                    } }
                    if c.stop() { return; }
                    let nn = total as f64;
                    let mut bad: Option<String> = None;
                    let mut seen = [0f64; 3];
                    for j in 0..NB { for k in 0..3 {
                        let (g, w) = (got[j].mean(nn, k), want[j].mean(nn, k));
                        let se = got[j].se(nn, k).max((second[j][k] / nn - w * w).max(0.).sqrt() / nn.sqrt()) + want[j].se(nn, k);
                        seen[k] += w;
                        let tol = 6. * se + 1e-3 + 0.01 * w;
                        c.maximum("difference_over_tolerance_first_round", if round == 0 { (g - w).abs() / tol } else { 0. });
                        if round == 0 && k == 0 { c.eval(if w > 1e-4 { Some(hash(&[i, j as u64])) } else { None }); }
                        if !((g - w).abs() <= tol) { bad = Some(format!("cosine bin {} azimuth bin {} channel {}: sampled directions bring {:e}, the surface scatters {:e} (standard error {:e}, {} samples)", j / NP, j % NP, k, g, w, se, total)); }
                    } }
                    // mirror directions carry the reflectance times the Fresnel weight; there every sample weighs the same up to the choice
                    if round == 0 && !bent {
                        let mut exp = [[0.; 3]; 2];
                        let mut some = false;
                        for l in &all { match *l {
                            Lobe::SpecR(r, f) => { some = true; exp[0] = add3(exp[0], mul3(r, f.eval(o.z.abs(), o.z > 0.))); }
                            Lobe::SpecT(t, eta) => { some = true; let (n1, n2) = if o.z > 0. { (1., eta) } else { (eta, 1.) }; let fr = fr_diel(o.z.abs(), n1, n2); exp[1] = add3(exp[1], sc3(t, (1. - fr) * (n1 / n2).powi(2))); }
                            _ => {} } }
                        if some { c.count("mirror_cases"); for t in 0..2 { for k in 0..3 {
                            let (g, w) = (mirror[t].mean(nn, k), exp[t][k]);
                            let (n1, n2) = if o.z > 0. { (1., m.eta()) } else { (m.eta(), 1.) };
                            if ((1. - o.z * o.z) * (n1 / n2).powi(2) - 1.).abs() < 0.02 { c.count("near_the_critical_angle"); continue; }
                            c.eval(None);
                            c.maximum("mirror_difference", (g - w).abs());
                            c.check((g - w).abs() <= 0.01 + 0.02 * w + 6. * mirror[t].se(nn, k), "mirror", || format!("{}: {} brings {:e}, the parameters say {:e}", desc, if t == 0 { "reflection" } else { "refraction" }, g, w));
                        } } }
                    }
                    match bad { None => break, Some(b) if round == 2 => { c.violate("light-missed", format!("{}: {}", desc, b)); } _ => { c.count(if round == 0 { "confirmed_with_ten_times_the_samples" } else { "confirmed_with_a_hundred_times_the_samples" }); } }
                }
                c.count(&format!("{}_{}{}", m.name(), if o.z > 0. { "above" } else { "below" }, if bent { "_bent" } else { "" }));
                if i < 4 { c.sample(|| desc.clone()); }
            });
        });
        for (k, m) in [("samples", 1000000), ("mirror_samples", 100000), ("pairs_with_light", 1000000), ("mirror_cases", 100), ("lambert_above", 20), ("plastic_above", 50), ("plastic_below", 50), ("metal_above", 50), ("glass_above", 50), ("glass_below", 50), ("plastic_above_bent", 20), ("glass_above_bent", 20)] { ctx.require(k, m); }
    });
}
