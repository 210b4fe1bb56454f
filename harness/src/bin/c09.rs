//! C09: Halton sampler against an independent integer reference.
use pt::verif::bbox::BBox2i;
use pt::verif::sampler::Sampler;
use pt::verif::sampler_halton::HaltonSampler;
use pt::verif::vector::Point2i;
use ptmon::fw::*;

fn primes(n: usize) -> Vec<u64> { let mut p: Vec<u64> = vec![]; let mut k = 2; while p.len() < n { if p.iter().take_while(|q| *q * *q <= k).all(|q| k % q != 0) { p.push(k); } k += 1; } p }

/// radical inverse, exact quotient of integers rounded once to f64
fn ri(base: u64, mut a: u64) -> f64 { let (mut x, mut n) = (0u128, 1u128); while a > 0 { x = x * base as u128 + (a % base) as u128; n *= base as u128; a /= base as u64; } x as f64 / n as f64 }
fn rev(base: u64, mut a: u64, digits: u32) -> u64 { let mut x = 0; for _ in 0..digits { x = x * base + a % base; a /= base; } x }
fn modp(a: i64, b: i64) -> i64 { ((a % b) + b) % b }

struct Ref { s: [u64; 2], e: [u32; 2], stride: u64, cell: Vec<u64>, primes: Vec<u64> }
impl Ref {
    fn new(w: i64, h: i64, primes: &[u64]) -> Ref {
        let (mut s, mut e) = ([1u64; 2], [0u32; 2]);
        for (k, (b, r)) in [(2u64, w), (3u64, h)].iter().enumerate() { while (s[k] as i64) < (*r).min(128) { s[k] *= b; e[k] += 1; } }
        let stride = s[0] * s[1];
        let mut cell = vec![u64::MAX; stride as usize];
        // which of the first `stride` points falls into which cell: walk the sequence
        for i in 0..stride { let (cx, cy) = (rev(2, i, e[0]), rev(3, i, e[1])); cell[(cy * s[0] + cx) as usize] = i; }
        Ref { s, e, stride, cell, primes: primes.to_vec() }
    }
    fn first(&self, x: i64, y: i64) -> u64 { let (cx, cy) = (modp(x, 128) as u64 % self.s[0], modp(y, 128) as u64 % self.s[1]); self.cell[(cy * self.s[0] + cx) as usize] }
    fn value(&self, index: u64, dim: usize) -> f64 {
        match dim { 0 => ri(2, index >> self.e[0]), 1 => ri(3, index / self.s[1]), d => ri(self.primes[d], index) }
    }
}

fn main() {
    run("C09", "one evaluation: one sampler value compared with the exact radical inverse of the reference index; distinct = different (area, pixel, sample, dimension)", &["dimensions below 1024 (the sampler's documented limit)"], |ctx| {
        let pr = primes(1024);
        // the reference table itself is a bijection onto cells
        let n = ctx.n(1500, 12000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let big = |rng: &mut Rng| match rng.below(6) { 0 => rng.int(1, 4), 1 => rng.int(5, 40), 2 => *rng.pick(&[1, 2, 3, 4, 8, 9, 16, 27, 32, 64, 81, 127, 128, 129, 243]), 3 => rng.int(41, 300), _ => rng.int(100, 3000) };
            let (w, h) = (big(&mut rng), big(&mut rng));
            let (x0, y0) = if rng.chance(0.5) { (0, 0) } else { (-rng.int(0, 4), -rng.int(0, 4)) };
            let r = Ref::new(w, h, &pr);
            c.guard(|| format!("area {}x{} at ({},{})", w, h, x0, y0), |c| {
                let b = BBox2i::new(Point2i::new(x0 as i32, y0 as i32), Point2i::new((x0 + w) as i32, (y0 + h) as i32));
                let deep = i % 16 == 15;
                let spp = if deep { 400_000 } else { rng.int(1, 200) as u32 };
                let mut s = HaltonSampler::new(spp, b);
                let npix = if deep { 1 } else { 8 };
                for _ in 0..npix {
                    if rng.chance(0.2) { s = s.clone(); }
                    let (x, y) = (x0 + rng.int(0, w - 1), y0 + rng.int(0, h - 1));
                    s.start_pixel(Point2i::new(x as i32, y as i32));
                    let i0 = r.first(x, y);
                    let stop = if deep { rng.int(100_000, 399_999) } else if rng.chance(0.2) { 0 } else { rng.int(0, spp as i64 - 1) };
                    for k in 0..=stop as u64 {
                        let draw = if deep { k + 3 >= stop as u64 || k % 40_000 == 0 } else { rng.chance(0.4) || k == stop as u64 };
                        if draw {
                            let idx = i0 + k * r.stride;
                            if idx > u32::MAX as u64 { c.count("indices_above_32_bits"); }
                            let nd = match rng.below(10) { 0 => 1024, 1 | 2 => 200, _ => 24 };
                            let mut d = 0;
                            while d < nd {
                                let mut got = vec![];
                                if rng.chance(0.5) && d + 2 <= nd { let p = s.get_2d(); got.push(p.x); got.push(p.y); } else { got.push(s.get_1d()); }
                                for g in got {
                                    let want = r.value(idx, d);
                                    let desc = || format!("area {}x{} at ({},{}), pixel ({},{}), sample {}, dimension {} (point {}): got {:e}, expected {:e}", w, h, x0, y0, x, y, k, d, idx, g, want);
                                    c.eval(Some(hash(&[w as u64, h as u64, idx, d as u64])));
                                    c.maximum("value_error", (g as f64 - want).abs());
                                    c.check(g >= 0. && g < 1., "range", desc);
                                    c.check((g as f64 - want).abs() <= 2.5e-7, if d < 2 { "pixel-dimension" } else { "dimension" }, desc);
                                    if d >= 100 { c.count("high_dimensions"); }
                                    d += 1;
                                }
                                if c.stop() { return; }
                            }
                            c.count("samples");
                            // the defining property: the point lies in the pixel's cell
                            let (fx, fy) = (ri(2, idx) * r.s[0] as f64, ri(3, idx) * r.s[1] as f64);
                            assert!(fx.floor() as u64 == modp(x, 128) as u64 % r.s[0] && (fy + 1e-9).floor() as u64 == modp(y, 128) as u64 % r.s[1], "reference");
                        }
                        if k < stop as u64 && !s.start_next_sample() { c.violate("too-few", format!("area {}x{}: sample {} of {} refused", w, h, k + 1, spp)); return; }
                    }
                    c.count("pixels");
                    if x < 0 || y < 0 { c.count("negative_pixels"); }
                    if x >= 128 || y >= 128 { c.count("wrapped_pixels"); }
                }
                if i < 3 { c.sample(|| format!("area {}x{} at ({},{}), {} samples per pixel", w, h, x0, y0, spp)); }
            });
        });
        // history independence: a sampler with an arbitrary past agrees with a fresh one
        let n = ctx.n(900, 6000);
        par(ctx, 2, n, |c, _| {
            let mut rng = c.rng.clone();
            let (w, h) = (rng.int(1, 200) as i32, rng.int(1, 200) as i32);
            let b = BBox2i::new(Point2i::new(-2, -2), Point2i::new(w, h));
            let spp = rng.int(1, 20) as u32;
            let mut s = HaltonSampler::new(spp, b.clone());
            let mut pix: Vec<(i32, i32)> = vec![];
            for _ in 0..30 {
                let p = if !pix.is_empty() && rng.chance(0.4) { *rng.pick(&pix) } else if rng.chance(0.1) { (0, 0) } else { (rng.int(-2, w as i64 - 1) as i32, rng.int(-2, h as i64 - 1) as i32) };
                pix.push(p);
                let mut f = HaltonSampler::new(spp, b.clone());
                s.start_pixel(Point2i::new(p.0, p.1)); f.start_pixel(Point2i::new(p.0, p.1));
                let ns = rng.int(0, spp as i64 - 1);
                for k in 0..=ns {
                    for d in 0..rng.int(0, 40) {
                        let (a, e) = if rng.chance(0.5) { (vec![s.get_1d()], vec![f.get_1d()]) } else { let (a, e) = (s.get_2d(), f.get_2d()); (vec![a.x, a.y], vec![e.x, e.y]) };
                        c.eval(None);
                        c.check(a == e, "history", || format!("area {}x{}: pixel {:?} sample {} draw {}: {:?} with a history of pixels {:?}, {:?} without", w, h, p, k, d, a, pix, e));
                        c.count("history_values");
                    }
                    let d = rng.int(0, 5); for _ in 0..d { s.get_1d(); } // extra draws at the end of a sample leave no trace
                    if k < ns { s.start_next_sample(); f.start_next_sample(); }
                }
                if c.stop() { return; }
            }
        });
        for (k, m) in [("samples", 5000), ("high_dimensions", 10000), ("indices_above_32_bits", 20), ("pixels", 500), ("negative_pixels", 100), ("wrapped_pixels", 500), ("history_values", 10000)] { ctx.require(k, m); }
    });
}
