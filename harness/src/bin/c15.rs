//! C15: event-log monitor of renders: exactly-once pixels, samples, camera rays and film contributions.
use pt::verif::film::Film;
use pt::verif::filter::Filter;
use pt::verif::integrator::Integrator;
use pt::verif::scene::Builder;
use pt::verif::shape::Shape;
use pt::verif::vector::{Point2f, Point2u};
use ptmon::fw::*;
use ptmon::synth::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

struct Flat(f32);
impl Filter for Flat { fn radius(&self) -> f32 { self.0 } fn evaluate(&self, _: Point2f) -> f32 { 1. } }

fn radiance(salt: u64, x: f32, y: f32, bad: bool) -> [f32; 3] {
    let h = hash(&[salt, x.to_bits() as u64, y.to_bits() as u64]);
    if bad { match h % 41 { 0 => return [f32::NAN, 1., 1.], 1 => return [1., f32::INFINITY, 1.], 2 => return [1., 1., -1.], 3 => return [0., f32::NEG_INFINITY, 0.], _ => () } }
    if h % 7 == 5 { return [0.; 3]; } // black samples count too
    // powers of two keep the sums exact
    let k = match salt % 6 { 0 => 2f32.powi(70), 1 => 2f32.powi(-70), 2 => 2f32.powi(-120), _ => 1. };
    [k, k * (h % 997) as f32, k * (h / 997 % 991) as f32]
}

fn case(ctx: &mut Ctx, idx: u64, w: u32, h: u32, r: f32, spp: u32, threads: u8, delay: u64, bad: bool) {
    let desc = format!("case {}: film {}x{} radius {} spp {} threads {} delay seed {} invalid samples {}", idx, w, h, r, spp, threads, delay, bad);
    ctx.sample(|| desc.clone());
    let log = Log::new(delay);
    let salt = hash(&[idx, ctx.seed]);
    let f: Radiance = Arc::new(move |x, y| radiance(salt, x, y, bad));
    let shape: Arc<dyn Shape> = Arc::new(SShape { log: log.clone(), f });
    let mut b = Builder::new();
    b.add_shape(SShape { log: log.clone(), f: Arc::new(|_, _| [0.; 3]) });
    let l2 = log.clone();
    let sh = shape.clone();
    let scene = b.construct(move |_| SCont { shape: sh, log: l2 });
    let film = Film::new(Point2u::new(w, h), Flat(r));
    let sb = film.sample_bbox();
    let integ = Integrator::new(scene, SSampler::new(log.clone(), spp, if w.max(h) > 60000 { 0 } else { salt | 1 }), SCam { log: log.clone() }, film);
    let ok = ctx.guard(|| desc.clone(), |_| { integ.render(threads); });
    if ok.is_none() { return; }
    let at_return = log.n.load(std::sync::atomic::Ordering::SeqCst);
    let px = integ.verif_film().verif_pixels();
    let events = log.events.lock().unwrap().clone();
    // --- per worker automaton
    let mut per: BTreeMap<u64, Vec<Ev>> = BTreeMap::new();
    let mut tile_order = vec![];
    for (t, e) in &events {
        per.entry(*t).or_default().push(*e);
        if let Ev::Start(x, y) = e { if tile_order.last() != Some(&(*t)) { tile_order.push(*t); } let _ = (x, y); }
    }
    let mut started: HashMap<(i32, i32), u32> = HashMap::new();
    let mut rays: HashMap<(i32, i32), Vec<(u32, u32)>> = HashMap::new();
    macro_rules! bad { ($s:expr, $($a:tt)*) => {{ ctx.violate($s, format!("{}: {}", desc, format!($($a)*))); return; }} }
    for (t, evs) in &per {
        let mut cur: Option<(i32, i32)> = None;
        let mut ray_in_sample = 0;
        let mut isect = 0;
        let mut done = true;
        for e in evs {
            match *e {
                Ev::Start(x, y) => {
                    if !done { bad!("pixel-abandoned", "worker {} left pixel {:?} before its samples were exhausted", t, cur); }
                    *started.entry((x, y)).or_insert(0) += 1;
                    cur = Some((x, y)); done = false; ray_in_sample = 0; isect = 0;
                }
                Ev::Ray(x, y) => {
                    if cur.is_none() || done { bad!("ray-outside-sample", "worker {} traced a camera ray after the last sample of {:?}", t, cur); }
                    if ray_in_sample > 0 { bad!("second-camera-ray", "worker {} traced a second camera ray in one sample of {:?}", t, cur); }
                    ray_in_sample += 1; isect = 0;
                    let p = cur.unwrap();
                    let (fx, fy) = (f32::from_bits(x), f32::from_bits(y));
                    if !(fx >= p.0 as f32 && fx <= p.0 as f32 + 1. && fy >= p.1 as f32 && fy <= p.1 as f32 + 1.) { bad!("ray-outside-pixel", "camera ray at film position ({},{}) while sampling pixel {:?}", fx, fy, p); }
                    rays.entry(p).or_default().push((x, y));
                }
                Ev::Isect => {
                    if ray_in_sample != 1 { bad!("trace-without-ray", "worker {} traced a ray before the camera ray of {:?}", t, cur); }
                    isect += 1;
                    if isect > 1 { bad!("traced-twice", "camera ray of {:?} traced {} times", cur, isect); }
                }
                Ev::Emit => {}
                Ev::Next(more) => {
                    if cur.is_none() || done { bad!("next-after-end", "worker {} asked for samples after the last one of {:?}", t, cur); }
                    if ray_in_sample != 1 || isect != 1 { bad!("sample-skipped", "sample of {:?} had {} camera rays and {} traces", cur, ray_in_sample, isect); }
                    ray_in_sample = 0; isect = 0;
                    if !more { done = true; }
                }
            }
        }
        if !done { bad!("pixel-abandoned", "worker {} ended inside pixel {:?}", t, cur); }
    }
    // --- exactly once over the sampled area
    for y in sb.min.y..sb.max.y { for x in sb.min.x..sb.max.x {
        let n = started.get(&(x, y)).copied().unwrap_or(0);
        if n != 1 { bad!("pixel-start-count", "pixel ({},{}) started {} times", x, y, n); }
        let k = rays.get(&(x, y)).map(|v| v.len()).unwrap_or(0);
        if k != spp as usize { bad!("sample-count", "pixel ({},{}) got {} samples instead of {}", x, y, k, spp); }
    } }
    let area = ((sb.max.x - sb.min.x) * (sb.max.y - sb.min.y)) as usize;
    if started.len() != area { bad!("pixel-outside-area", "{} pixels started, sampled area has {}", started.len(), area); }
    // --- conservation: exact integer arithmetic in f32
    let mut want = vec![[0f64; 4]; (w * h) as usize];
    let mut invalid = 0u64;
    for (_, v) in &rays { for &(xb, yb) in v {
        let (fx, fy) = (f32::from_bits(xb), f32::from_bits(yb));
        let c = radiance(salt, fx, fy, bad);
        if c.iter().any(|v| !v.is_finite() || *v < 0.) { invalid += 1; continue; }
        let (cx, cy, m) = (fx.floor() as i32, fy.floor() as i32, r.ceil() as i32 + 2);
        for py in (cy - m).max(0)..(cy + m).min(h as i32) { if (py as f32 + 0.5 - fy).abs() > r { continue; } for px in (cx - m).max(0)..(cx + m).min(w as i32) {
            if (px as f32 + 0.5 - fx).abs() > r { continue; }
            let o = (py * w as i32 + px) as usize;
            for i in 0..3 { want[o][i] += c[i] as f64; }
            want[o][3] += 1.;
        } }
    } }
    for (o, (c, ws)) in px.iter().enumerate() {
        let got = [c[0] as f64, c[1] as f64, c[2] as f64, *ws as f64];
        for i in 0..4 { if !((got[i] - want[o][i]).abs() <= want[o][i] * if i > 0 && i < 3 && spp > 10_000 { 1e-4 } else { 1e-6 }) {
            bad!("film-conservation", "pixel ({},{}) channel {} is {} instead of {} when render returned", o % w as usize, o / w as usize, i, got[i], want[o][i]);
        } }
    }
    // --- nothing happens after return
    if delay != 0 && idx % 8 == 0 {
        std::thread::sleep(std::time::Duration::from_millis(15));
        let later = log.n.load(std::sync::atomic::Ordering::SeqCst);
        if later != at_return { bad!("work-after-return", "{} events after render returned", later - at_return); }
    }
    ctx.add("events", events.len() as u64);
    ctx.add("camera_rays", (area * spp as usize) as u64);
    ctx.add("invalid_samples_injected", invalid);
    ctx.add("worker_switches", tile_order.len() as u64);
    ctx.maximum("workers_active", per.len() as f64);
    if per.len() > 1 { ctx.count("renders_with_parallel_workers"); }
    let k = hash(&tile_order.iter().map(|t| per.keys().position(|k| k == t).unwrap() as u64).collect::<Vec<_>>());
    ctx.eval(if area > 256 { Some(hash(&[k, idx])) } else { None });
}

fn main() {
    run("C15", "renders of a synthetic scene with recording sampler, camera, container and emitter; random film sizes, filter radii 0.5/1/1.5/2, 1..16 samples, 1..255 threads, injected delays and slow workers, invalid samples; distinct counts renders with several tiles by their interleaving of worker activity",
        &["monitors run at the Sampler, Camera, Container and Shape boundaries; film state is read through the pt_verif_film hook", "at least one worker thread is requested"],
        |ctx| {
            let n = ctx.n(260, 6000);
            for i in 0..n {
                if ctx.stop() { break; }
                let tiny = ctx.rng.chance(0.2);
                // films of hundreds of tiles: wide, tall and square ones
                let large = i % 37 == 5;
                let (w, h) = if large { match (i / 37) % 4 { 0 => (ctx.rng.int(4200, 9000) as u32, ctx.rng.int(1, 3) as u32), 1 => (ctx.rng.int(1, 3) as u32, ctx.rng.int(4200, 9000) as u32), 2 => (ctx.rng.int(270, 340) as u32, ctx.rng.int(270, 340) as u32), _ => (ctx.rng.int(120, 700) as u32, ctx.rng.int(300, 400) as u32) } } else if tiny { (ctx.rng.int(1, 4) as u32, ctx.rng.int(1, 4) as u32) } else { (ctx.rng.int(1, 70) as u32, ctx.rng.int(1, 70) as u32) };
                let r = *ctx.rng.pick(&[0.5f32, 0.5, 1., 1.5, 2.]);
                let spp = ctx.rng.int(1, if large { 1 } else if w * h > 1500 { 4 } else { 16 }) as u32;
                let threads = *ctx.rng.pick(&[1u8, 2, 2, 3, 4, 5, 8, 8, 16, 33, 64, 255]);
                let delay = if ctx.rng.chance(0.6) && !large { ctx.rng.u64() | 1 } else { 0 };
                let bad = ctx.rng.chance(0.3);
                if large { ctx.count("renders_of_hundreds_of_tiles"); }
                case(ctx, i, w, h, r, spp, threads, delay, bad);
            }
            // more than 2^16 tiles, columns, rows or sampled pixels
            let huge = [(1u32, 1_060_000u32, 4u8), (1_060_000, 1, 3), (70_003, 2, 2), (1200, 900, 8), (4096, 257, 5)];
            for (i, &(w, h, t)) in huge.iter().enumerate() {
                if ctx.stop() { break; }
                ctx.count("renders_of_millions_of_samples");
                case(ctx, 1_000_000 + i as u64, w, h, 0.5, 1, t, 0, false);
            }
            // more than 2^8 and 2^16 samples in a pixel
            let deep = [(2u32, 3u32, 70_003u32, 0.5f32, 3u8), (1, 1, 131_073, 0.5, 1), (7, 5, 300, 2., 4), (20, 17, 257, 1., 8), (3, 2, 4097, 1.5, 2)];
            for (i, &(w, h, spp, r, t)) in deep.iter().enumerate() {
                if ctx.stop() { break; }
                ctx.count("renders_of_deep_pixels");
                case(ctx, 2_000_000 + i as u64, w, h, r, spp, t, 0, i % 2 == 1);
            }
            ctx.require("renders_with_parallel_workers", 40);
            ctx.require("camera_rays", 50000);
            ctx.require("renders_of_hundreds_of_tiles", 4);
        });
}
