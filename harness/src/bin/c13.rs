//! C13: the PPM writer against a parser, an f64 sRGB reference and hostile destinations.
use pt::verif::bbox::BBox2i;
use pt::verif::film::Film;
use pt::verif::filter::{Filter, GaussianFilter};
use pt::verif::spectrum::Spectrum;
use pt::verif::vector::{Point2f, Point2u};
use ptmon::fw::*;
use ptmon::ppm::*;
use std::io::{self, Write};

struct Flat(f32, f32);
impl Filter for Flat { fn radius(&self) -> f32 { self.0 } fn evaluate(&self, _: Point2f) -> f32 { self.1 } }

enum Fault { None, Chunk(usize), Interrupt(u64), ErrAt(usize), ZeroAt(usize) }
struct W { out: Vec<u8>, fault: Fault, calls: u64, errors: u64 }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        let n = match self.fault {
            Fault::None => b.len(),
            Fault::Chunk(n) => b.len().min(n),
            Fault::Interrupt(k) => { if hash(&[k, self.calls]) % 3 == 0 { return Err(io::Error::from(io::ErrorKind::Interrupted)); } b.len().min(1 + (hash(&[k, self.calls, 7]) % 9) as usize) }
            Fault::ErrAt(k) => { if self.out.len() >= k { self.errors += 1; return Err(io::Error::new(io::ErrorKind::Other, "injected")); } b.len().min(k - self.out.len()) }
            Fault::ZeroAt(k) => { if self.out.len() >= k { self.errors += 1; return Ok(0); } b.len().min(k - self.out.len()) }
        };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// render the film into a destination; Err(()) when the writer reported a failure
fn write(film: &Film, fault: Fault) -> (Result<(), ()>, W) {
    let mut w = W { out: vec![], fault, calls: 0, errors: 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| failed(&film.write_image_ppm(&mut w))));
    let r = match r { Ok(false) => Ok(()), Ok(true) => Err(()), Err(_) => Err(()) };
    (r, w)
}
trait Outcome { fn failed(&self) -> bool; }
impl Outcome for () { fn failed(&self) -> bool { false } }
impl<T> Outcome for io::Result<T> { fn failed(&self) -> bool { self.is_err() } }
fn failed<T: Outcome>(t: &T) -> bool { t.failed() }

fn make(w: u32, h: u32, mode: usize) -> Film {
    match mode { 0 => Film::new(Point2u::new(w, h), Flat(0.5, 1.)), 1 => Film::new(Point2u::new(w, h), Flat(0.5, 0.37)), _ => Film::new(Point2u::new(w, h), GaussianFilter::new(0.5, 2.)) }
}

fn case(ctx: &mut Ctx, idx: u64, size: Option<(u32, u32)>) {
    let (w, h) = if let Some(s) = size { ctx.count("large_images"); s } else { match ctx.rng.below(6) { 0 => (1, 1), 1 => (ctx.rng.int(1, 5) as u32, ctx.rng.int(1, 5) as u32), 2 => (0, 3), _ => (ctx.rng.int(1, 40) as u32, ctx.rng.int(1, 40) as u32) } };
    let film = make(w, h, ctx.rng.below(3));
    let mut vals: Vec<Option<[f64; 3]>> = vec![];
    let kind = ctx.rng.below(4);
    if w > 0 && h > 0 {
        let mut tile = film.get_film_tile(BBox2i::new(film.sample_bbox().min, film.sample_bbox().max));
        for y in 0..h { for x in 0..w {
            if ctx.rng.chance(0.05) { vals.push(None); ctx.count("unsampled_pixels"); continue; }
            let val = |rng: &mut Rng| -> f32 { match (kind, rng.below(10)) {
                (_, 0) => 0.,
                (_, 1) => rng.logu(1e-12, 1e-2) as f32,
                (_, 2) => rng.rf(0.9, 1.3),
                (_, 3) => rng.logu(1., 1e20) as f32,
                (_, 4) if rng.chance(0.2) => -rng.logu(1e-6, 1e6) as f32, // below black
                (1, _) => { // aim at the value just below / above an 8-bit rounding boundary
                    let k = rng.below(255) as f64 + 0.5 + if rng.chance(0.5) { 0.02 } else { -0.02 };
                    srgb_inv(k / 255.) as f32 }
                (2, _) => srgb_inv(rng.below(256) as f64 / 255.) as f32,
                _ => rng.f32() } };
            let c = [val(&mut ctx.rng), val(&mut ctx.rng), val(&mut ctx.rng)];
            let n = ctx.rng.int(1, 3);
            for k in 0..n {
                // the average of several samples
                let m = if n == 1 { 1. } else { 2. * k as f32 / (n - 1) as f32 };
                tile.add_sample(Point2f::new(x as f32 + 0.5, y as f32 + 0.5), Spectrum::new(c[0] * m, c[1] * m, c[2] * m));
            }
            vals.push(Some([c[0] as f64, c[1] as f64, c[2] as f64]));
        } }
        film.merge_film_tile(tile);
    } else { vals = vec![]; }
    let desc = format!("case {} film {}x{} kind {}", idx, w, h, kind);
    let (r, out) = write(&film, Fault::None);
    if r.is_err() { let (l, m) = take_panic().unwrap_or_default(); ctx.violate("write-failed", format!("{}: writing to memory failed: {} {}", desc, l, m)); return; }
    ctx.add("bytes", out.out.len() as u64);
    let img = match parse(&out.out) { Ok(i) => i, Err(e) => { ctx.violate("malformed", format!("{}: {}", desc, e)); return; } };
    if (img.w, img.h) != (w as usize, h as usize) { ctx.violate("size", format!("{}: header says {}x{}", desc, img.w, img.h)); return; }
    for (o, v) in vals.iter().enumerate() {
        let got = img.px[o];
        let v = v.unwrap_or([0.; 3]);
        for i in 0..3 {
            let (a, b) = expect(v[i]);
            if (got[i] as u32) < a || got[i] as u32 > b {
                ctx.violate(if v[i] == 0. { "black-not-zero" } else { "channel" }, format!("{}: pixel ({},{}) channel {} average {:e} written {} expected {}..{}", desc, o % w as usize, o / w as usize, i, v[i], got[i], a, b));
                return;
            }
            ctx.count(if a == b { "channels_decided" } else { "channels_at_boundary" });
            if v[i] == 0. { ctx.count("black_channels"); }
            if v[i] < 0. { ctx.count("negative_channels"); }
            if v[i] > 1. { ctx.count("saturated_channels"); }
        }
    }
    ctx.eval(if !vals.is_empty() { Some(hash(&[idx])) } else { None });
    ctx.sample(|| format!("{} first pixel {:?} -> {:?}", desc, vals.get(0), img.px.get(0)));
    // hostile destinations
    let k = ctx.rng.u64();
    for f in [Fault::Chunk(1), Fault::Chunk(ctx.rng.int(2, 9) as usize), Fault::Interrupt(k)] {
        let (r, o) = write(&film, f);
        ctx.count("hostile_writes");
        if r.is_err() { take_panic(); ctx.violate("short-write-failed", format!("{}: short or interrupted writes made writing fail", desc)); return; }
        if o.out != out.out { ctx.violate("short-write-bytes", format!("{}: bytes differ under short or interrupted writes", desc)); return; }
    }
    // the film is unchanged by writing it
    let (r, again) = write(&film, Fault::None);
    if r.is_err() || again.out != out.out { ctx.violate("second-write", format!("{}: writing again gave a different result", desc)); }
    // a failing destination at every (small film) or random byte offsets
    let len = out.out.len();
    let offs: Vec<usize> = if len < 200 { (0..len).collect() } else { (0..12).map(|i| match i { 0 => 0, 1 => len - 1, 2 => 1, _ => ctx.rng.below(len) }).collect() };
    for k in offs {
        for zero in [false, true] {
            let (r, o) = write(&film, if zero { Fault::ZeroAt(k) } else { Fault::ErrAt(k) });
            take_panic();
            ctx.count("failing_destinations");
            if r.is_ok() { ctx.violate("error-swallowed", format!("{}: destination failed after {} of {} bytes ({} errors) and nothing was reported", desc, k, len, o.errors)); return; }
        }
    }
}

fn main() {
    run("C13", "films 0x3..40x40 and up to 1300x1000, 70001x1 and 1x70001 with random, boundary-aimed, black, tiny, saturated and unsampled pixels; each is written to memory, through short/interrupted writes and to destinations failing at enumerated or random byte offsets; non-trivial: film with pixels",
        &["an average whose encoding is within 2e-3 of a rounding boundary may go either way"],
        |ctx| {
            ctx.extra.push(("level".into(), "\"fault_enumeration\"".into()));
            let n = ctx.n(30000, 100000);
            par(ctx, 1, n, |c, i| case(c, i, None));
            // more than 2^16 columns or rows, more than 2^20 bytes, more than 2^16 and 2^20 pixels
            let large = [(70001u32, 1u32), (1, 70001), (3, 65537), (900, 700), (257, 256), (1300, 1000), (65536, 2), (100, 99), (1000, 101)];
            par(ctx, 2, ctx.n(large.len() as u64, 40), |c, i| case(c, 1_000_000 + i, Some(large[i as usize % large.len()])));
            ctx.require("large_images", 9);
            ctx.require("channels_decided", 100000);
            ctx.require("failing_destinations", 1000);
        });
}
