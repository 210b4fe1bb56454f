//! C10: sampler contract, uniformity and independence.
use pt::api::LambertianReflectionMaterial;
use pt::verif::bbox::BBox2i;
use pt::verif::camera::PerspectiveCamera;
use pt::verif::film::Film;
use pt::verif::filter::GaussianFilter;
use pt::verif::integrator::Integrator;
use pt::verif::sampler::Sampler;
use pt::verif::sampler_halton::HaltonSampler;
use pt::verif::sampler_random::RandomSampler;
use pt::verif::scene::Builder;
use pt::verif::spectrum::Spectrum;
use pt::verif::texture::ConstantTexture;
use pt::verif::transform::Transform;
use pt::verif::vector::*;
use pt::verif::{bbox::BBox2f, container_simple::Simple, light::{AreaLight, DistantLight}, shape_sphere::Sphere, shape_triangle::Triangle};
use ptmon::fw::*;
use ptmon::synth::tid;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

/// exactly spp samples, values in range, camera sample inside the pixel
fn contract<S: Sampler>(c: &mut Ctx, rng: &mut Rng, s: &mut S, spp: u32, area: (i32, i32, i32, i32), what: &str) {
    for _ in 0..6 {
        let p = (rng.int(area.0 as i64, area.2 as i64 - 1) as i32, rng.int(area.1 as i64, area.3 as i64 - 1) as i32);
        s.start_pixel(Point2i::new(p.0, p.1));
        let abandon = rng.chance(0.25); // the caller may leave a pixel early
        let mut n = 1;
        loop {
            let mut vals = vec![];
            if rng.chance(0.8) {
                let cs = s.get_camera_sample(Point2i::new(p.0, p.1));
                let ok = cs.p_film.x >= p.0 as f32 && cs.p_film.y >= p.1 as f32 && cs.p_film.x <= (p.0 + 1) as f32 && cs.p_film.y <= (p.1 + 1) as f32;
                c.check(ok, "camera-sample", || format!("{}: pixel {:?} got film position {:?}", what, p, cs.p_film));
                c.count("camera_samples");
            }
            for _ in 0..rng.below(12) { if rng.chance(0.5) { vals.push(s.get_1d()); } else { let v = s.get_2d(); vals.push(v.x); vals.push(v.y); } }
            for v in vals { c.eval(None); c.check(v >= 0. && v < 1., "range", || format!("{}: pixel {:?} sample {} value {:e}", what, p, n, v)); c.count("values"); }
            if abandon && rng.chance(0.3) { c.count("abandoned"); break; }
            if !s.start_next_sample() { c.check(n == spp, "sample-count", || format!("{}: pixel {:?} yielded {} of {} samples", what, p, n, spp)); c.count("completed_pixels"); break; }
            n += 1;
            if n > spp { c.violate("sample-count", format!("{}: pixel {:?} yields more than {} samples", what, p, spp)); break; }
        }
        c.eval(Some(hash(&[p.0 as u64, p.1 as u64, spp as u64, area.2 as u64, area.3 as u64])));
    }
}

/// chi-square z-score (Wilson-Hilferty)
fn chi_z(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum(); let e = n as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|k| (*k as f64 - e).powi(2) / e).sum();
    let k = (counts.len() - 1) as f64;
    ((x / k).cbrt() - (1. - 2. / (9. * k))) / (2. / (9. * k)).sqrt()
}

/// Records every value it hands out, per worker thread.
struct Rec<S: Sampler> { s: S, log: Arc<Mutex<HashMap<u64, Vec<f32>>>> }
impl<S: Sampler> Clone for Rec<S> { fn clone(&self) -> Self { Rec { s: self.s.clone(), log: self.log.clone() } } }
impl<S: Sampler> Rec<S> { fn put(&self, v: &[f32]) { self.log.lock().unwrap().entry(tid()).or_default().extend_from_slice(v); } }
impl<S: Sampler> Sampler for Rec<S> {
    fn start_pixel(&mut self, p: Point2i) { self.s.start_pixel(p) }
    fn start_next_sample(&mut self) -> bool { self.s.start_next_sample() }
    fn get_1d(&mut self) -> f32 { let v = self.s.get_1d(); self.put(&[v]); v }
    fn get_2d(&mut self) -> Point2f { let v = self.s.get_2d(); self.put(&[v.x, v.y]); v }
}

fn render_streams(w: u32, h: u32, spp: u32, threads: u8) -> HashMap<u64, Vec<f32>> {
    let mat = Arc::new(LambertianReflectionMaterial::new(Arc::new(ConstantTexture::new(Spectrum::new(0.6, 0.5, 0.4)))));
    let mut b = Builder::new();
    b.add_shape(Sphere::new(Point3f::new(0., 0., 5.), 2., mat.clone()));
    b.add_area_light(AreaLight::new(Spectrum::from(3.), Triangle::new([Point3f::new(-3., 4., 3.), Point3f::new(3., 4., 3.), Point3f::new(0., 4., 6.)], None, false, mat)));
    b.add_light(DistantLight::new(Spectrum::from(1.), Vector3f::new(0., 1., -1.)));
    let scene = b.construct(Simple::new);
    let cam = PerspectiveCamera::new(Transform::look_at(Point3f::new(0., 0., 0.), Point3f::new(0., 0., 1.), Vector3f::new(0., 1., 0.)), Transform::perspective(60., 0.1, 100.),
        BBox2f { min: Point2f::new(-1., -1.), max: Point2f::new(1., 1.) }, Point2u::new(w, h));
    let film = Film::new(Point2u::new(w, h), GaussianFilter::new(2., 2.));
    let log = Arc::new(Mutex::new(HashMap::new()));
    let integ = Integrator::new(scene, Rec { s: RandomSampler::new(spp), log: log.clone() }, cam, film);
    integ.render(threads);
    let r = std::mem::take(&mut *log.lock().unwrap());
    r
}

fn main() {
    run("C10", "one evaluation: one pixel's contract, one statistic of a random stream, or one worker stream of a render; distinct = different (pixel, area, samples)", &["statistical thresholds have a false-alarm probability below 1e-12 per run"], |ctx| {
        let n = ctx.n(3000, 60000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let spp = if rng.chance(0.05) { rng.int(100, 1000) as u32 } else if i < 12 { [254, 255, 256, 257, 300, 511, 65535, 65536, 65537, 70001, 32768, 131073][i as usize] } else { rng.int(1, 40) as u32 };
            let area = (-(rng.below(4) as i32), -(rng.below(4) as i32), rng.logu(1., 3000.) as i32, rng.logu(1., 3000.) as i32);
            c.guard(|| format!("area {:?} spp {}", area, spp), |c| {
                let b = BBox2i::new(Point2i::new(area.0, area.1), Point2i::new(area.2, area.3));
                let mut h = HaltonSampler::new(spp, b);
                contract(c, &mut rng, &mut h, spp, area, &format!("halton area {:?} spp {}", area, spp));
                // two copies agree
                let (mut a, mut b) = (h.clone(), h.clone());
                for _ in 0..rng.below(9) { a.get_1d(); }
                let p = Point2i::new(rng.int(area.0 as i64, area.2 as i64 - 1) as i32, rng.int(area.1 as i64, area.3 as i64 - 1) as i32);
                a.start_pixel(p); b.start_pixel(p);
                for k in 0..spp.min(10) {
                    for _ in 0..10 { let (x, y) = (a.get_2d(), b.get_2d()); c.check(x == y, "copies-differ", || format!("area {:?} pixel {:?} sample {}: {:?} / {:?}", area, p, k, x, y)); c.count("copy_values"); }
                    a.start_next_sample(); b.start_next_sample();
                }
                let mut r = RandomSampler::new(spp);
                if i % 2 == 0 { r = r.clone(); }
                contract(c, &mut rng, &mut r, spp, area, &format!("random spp {}", spp));
            });
        });
        // indices whose digits in some base are all the largest digit: the value is as close to 1 as it gets
        let primes: Vec<u64> = (2u64..).filter(|k| (2..).take_while(|d| d * d <= *k).all(|d| k % d != 0)).take(1024).collect();
        let kmax = ctx.n(3000, 20000);
        par(ctx, 3, primes.len() as u64 - 2, |c, i| {
            let d = i as usize + 2; let b = primes[d];
            let stride = 128u64 * 243;
            let mut pw = b;
            while pw < stride * kmax {
                for m in [0u64, 1, b, pw / b] {
                    let idx = pw - 1 - m.min(pw - 1);
                    let k = idx / stride;
                    let off = (idx % stride) as u32;
                    let (mut x, mut y, mut o) = (0u32, 0u32, off);
                    for _ in 0..7 { x = x * 2 + o % 2; o /= 2; }
                    o = off; for _ in 0..5 { y = y * 3 + o % 3; o /= 3; }
                    if y >= 128 { continue; } // never used
                    let mut s = HaltonSampler::new(k as u32 + 1, BBox2i::new(Point2i::new(0, 0), Point2i::new(128, 128)));
                    s.start_pixel(Point2i::new(x as i32, y as i32));
                    for _ in 0..k { s.start_next_sample(); }
                    for e in 0..=d { let v = s.get_1d(); c.check(v >= 0. && v < 1., "range", || format!("halton pixel {},{} sample {} dimension {}: {:e}", x, y, k, e, v)); if e == d && v > 1. - 1e-6 { c.count("values_next_to_one"); } }
                    c.eval(Some(hash(&[d as u64, idx]))); c.count("largest_digit_indices");
                }
                pw *= b;
            }
        });
        // range of pseudo-random values
        let n = ctx.n(256, 4096);
        par(ctx, 4, n, |c, i| {
            let mut s = RandomSampler::new(1);
            let mut top = 0f32;
            s.start_pixel(Point2i::new(0, i as i32));
            let mut bad = None;
            for _ in 0..1_000_000 { let a = s.get_1d(); let q = s.get_2d(); for v in [a, q.x, q.y] { if !(v >= 0. && v < 1.) { bad = Some(v); } if v > top { top = v; } } }
            c.add("random_range_values", 3_000_000); c.eval(None); c.maximum("largest_random", top as f64);
            c.check(bad.is_none(), "range", || format!("random value {:?}", bad));
        });
        // values are fine-grained, and a long stream does not come back to where it was
        let n = ctx.n(12, 120);
        par(ctx, 5, n, |c, i| {
            let mut s = RandomSampler::new(64);
            for d in 0..3usize {
                let m = 400_000usize;
                let mut vals = Vec::with_capacity(m);
                for k in 0..m {
                    if k % 4096 == 0 { s.start_pixel(Point2i::new((k / 4096) as i32, i as i32)); } else if k % 64 == 0 { s.start_next_sample(); }
                    vals.push(match d { 0 => s.get_1d(), 1 => s.get_2d().x, _ => s.get_2d().y });
                }
                let set: HashSet<u32> = vals.iter().map(|v| v.to_bits()).collect();
                // 2^23 equally likely values would give about 390 600 different ones
                c.maximum("repeated_of_400000", (m - set.len()) as f64);
                c.check(set.len() > 380_000, "coarse", || format!("{} different values among {} of kind {}", set.len(), m, d));
                let mut seen = HashMap::new();
                for (k, w) in vals.windows(4).enumerate() {
                    let key = [w[0].to_bits(), w[1].to_bits(), w[2].to_bits(), w[3].to_bits()];
                    if let Some(o) = seen.insert(key, k) { c.violate("stream-repeats", format!("values {} and {} of one stream of kind {} start the same run of four", o, k, d)); break; }
                }
                c.eval(Some(hash(&[i, d as u64, vals[0].to_bits() as u64]))); c.count("long_streams");
            }
        });
        ctx.require("long_streams", 30);
        // uniformity and independence of a pseudo-random sampler used as a renderer does
        let n = ctx.n(8, 64);
        par(ctx, 2, n, |c, i| {
            let spp = 5u32; let dims = 8usize;
            let mut s = RandomSampler::new(spp);
            if i % 2 == 1 { s = s.clone(); }
            let pixels = 25_000usize;
            let mut vals: Vec<f32> = Vec::with_capacity(pixels * spp as usize * dims);
            for p in 0..pixels {
                s.start_pixel(Point2i::new(p as i32 % 100, p as i32 / 100));
                for k in 0..spp { for d in 0..dims / 2 { if d % 2 == 0 { vals.push(s.get_1d()); vals.push(s.get_1d()); } else { let v = s.get_2d(); vals.push(v.x); vals.push(v.y); } } if k + 1 < spp { s.start_next_sample(); } }
                if p % 1000 == 999 { s = s.clone(); }
            }
            for v in &vals { if !(*v >= 0. && *v < 1.) { c.violate("range", format!("random value {:?}", v)); return; } }
            let lim = 8.5;
            let mut stat = |c: &mut Ctx, name: &str, z: f64| { c.eval(Some(hash(&[i, name.len() as u64, z.to_bits()]))); c.count("statistics"); c.maximum("z_score", z.abs()); c.check(z.abs() < lim, "uniformity", || format!("random sampler: {} deviates by {:.1} sigma over {} values", name, z, vals.len())); };
            let mut h = vec![0u64; 1024]; for v in &vals { h[(*v * 1024.) as usize] += 1; } stat(c, "histogram", chi_z(&h));
            let mut h = vec![0u64; 256]; for v in &vals { h[((*v as f64 * 65536.) as u64 % 256) as usize] += 1; } stat(c, "bits 9-16", chi_z(&h));
            let mut h = vec![0u64; 64]; for v in &vals { h[((*v as f64 * 4194304.) as u64 % 64) as usize] += 1; } stat(c, "bits 17-22", chi_z(&h));
            // joint distribution of pairs at a lag: neighbouring dimensions, samples, pixels
            for (name, lag) in [("adjacent dimensions", 1), ("dimensions two apart", 2), ("dimensions three apart", 3), ("same dimension of adjacent samples", dims), ("same dimension of adjacent pixels", dims * spp as usize), ("pixels in the next row", dims * spp as usize * 100), ("tiles", dims * spp as usize * 1000)] {
                let mut h = vec![0u64; 1024]; for k in (0..vals.len() - lag).step_by(1) { let (a, b) = ((vals[k] * 32.) as usize, (vals[k + lag] * 32.) as usize); h[a * 32 + b] += 1; }
                // overlapping pairs: chi-square is only approximate, so judge one residue class
                let mut g = vec![0u64; 1024]; let mut k = 0; while k + lag < vals.len() { let (a, b) = ((vals[k] * 32.) as usize, (vals[k + lag] * 32.) as usize); g[a * 32 + b] += 1; k += 2 * lag; if k % (2 * lag) == 0 && lag > 1 { k += 1; if k % lag == 0 { k += lag; } } }
                let m: u64 = h.iter().sum(); let e = m as f64 / 1024.; let worst = h.iter().map(|x| (*x as f64 - e).abs() / e.sqrt()).fold(0., f64::max);
                c.maximum("pair_cell_sigma", worst);
                c.check(worst < 10., "dependence", || format!("random sampler: {}: pair cell deviates by {:.1} sigma", name, worst));
                if g.iter().sum::<u64>() > 20_000 { stat(c, name, chi_z(&g)); }
                let mean = vals.iter().map(|v| *v as f64).sum::<f64>() / vals.len() as f64;
                let cov: f64 = (0..vals.len() - lag).map(|k| (vals[k] as f64 - mean) * (vals[k + lag] as f64 - mean)).sum::<f64>() * 12. / ((vals.len() - lag) as f64).sqrt();
                stat(c, name, cov);
            }
        });
        // independence across the workers of a real render, and across renders
        let n = ctx.n(6, 40);
        for k in 0..n {
            let threads = [2u8, 3, 4, 8, 16, 5][k as usize % 6];
            let (w, h, spp) = (64, 48, 4);
            let streams = render_streams(w, h, spp, threads);
            let total: usize = streams.values().map(|v| v.len()).sum();
            ctx.add("worker_values", total as u64); ctx.add("worker_streams", streams.len() as u64);
            if streams.len() > 1 { ctx.count("renders_with_several_workers"); }
            // Runs of 6 consecutive values repeat by chance with probability far below 1e-20.
            let mut seen: HashMap<Vec<u32>, (u64, usize)> = HashMap::new();
            let mut dup = 0u64; let mut first = None; let mut uniq = HashSet::new();
            for (t, v) in &streams { for (j, c) in v.windows(6).enumerate().step_by(1) {
                uniq.insert(c[0].to_bits());
                let key: Vec<u32> = c.iter().map(|x| x.to_bits()).collect();
                if let Some(o) = seen.insert(key, (*t, j)) { dup += 1; if first.is_none() { first = Some((o, (*t, j))); } }
            } }
            ctx.eval(Some(hash(&[k, total as u64, threads as u64])));
            ctx.add("distinct_values", uniq.len() as u64);
            ctx.check(dup == 0, "workers-share-stream", || format!("render {} threads {}x{} spp {}: {} of {} runs of 6 consecutive random values occur twice, first at (worker, position) {:?}", threads, w, h, spp, dup, total, first));
            if let Some(v) = streams.values().flatten().find(|v| !(**v >= 0. && **v < 1.)) { ctx.violate("range", format!("random value {:?} in a render", v)); break; }
            let mut hist = vec![0u64; 256]; for v in streams.values().flatten() { hist[(*v * 256.) as usize] += 1; }
            let z = chi_z(&hist); ctx.maximum("render_z_score", z.abs());
            ctx.check(z.abs() < 8.5, "uniformity", || format!("values handed out in a render deviate from uniform by {:.1} sigma", z));
        }
        for (k, m) in [("values_next_to_one", 100), ("camera_samples", 5000), ("values", 20000), ("completed_pixels", 5000), ("abandoned", 500), ("copy_values", 10000), ("statistics", 50), ("renders_with_several_workers", 2), ("worker_values", 10000)] { ctx.require(k, m); }
    });
}
