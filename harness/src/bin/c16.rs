//! C16: the same film and image for every thread count, interleaving and repetition.
use pt::verif::sampler_halton::HaltonSampler;
use ptmon::fw::*;
use ptmon::ppm;
use ptmon::scenes::*;
use ptmon::wild::*;
use std::collections::HashSet;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

struct Run { px: Pixels, img: Vec<[u32; 3]>, films: Vec<(u32, u32)>, order: u64, workers: usize }

fn go(w: &Wild, cam: &Cam, smp: &Smp, flt: &Flt, res: (u32, u32), simple: bool, threads: u8, delay: u64, again: bool) -> Result<Run, String> {
    let mut pr = Probe::new();
    pr.keep = true;
    pr.delay = delay;
    let p = Arc::new(pr);
    let _ = std::fs::remove_file("output.ppm");
    let sc = w.scene(&p, simple, false);
    let (film, err) = shoot2(sc, cam.clone(), smp.clone(), flt.film(res), &if again { vec![threads, 1] } else { vec![threads] }, &p);
    if err { return Err(format!("render panicked: {:?}", take_all_panics().into_iter().take(2).collect::<Vec<_>>())); }
    let px = film.verif_pixels();
    let b = std::fs::read("output.ppm").map_err(|e| format!("output.ppm: {}", e))?;
    let i = ppm::parse(&b).map_err(|e| format!("output.ppm: {:?}", e))?;
    let mut films: Vec<(u32, u32)> = p.films.lock().unwrap().iter().map(|x| (x.0.to_bits(), x.1.to_bits())).collect();
    let order = hash(&films.iter().map(|x| (x.0 as u64) << 32 | x.1 as u64).collect::<Vec<_>>());
    films.sort_unstable();
    let img = i.px.iter().map(|x| [x[0] as u32, x[1] as u32, x[2] as u32]).collect();
    let workers = p.workers.lock().unwrap().len();
    Ok(Run { px, img, films, order, workers })
}

fn main() {
    run("C16", "one evaluation: one render compared with the single-threaded render of the same scene; distinct = different observed orders of the camera samples",
        &["deterministic samplers (HaltonSampler and one that hashes pixel, sample and dimension)", "film state read through the pt_verif_film hook"], |ctx| {
        let n = ctx.n(110, 2500);
        let t0 = std::time::Instant::now();
        let mut orders: HashSet<u64> = HashSet::new();
        for i in 0..n {
            if ctx.stop() || t0.elapsed().as_secs() > ctx.n(300, 2400) { break; }
            let mut rng = Rng::new(hash(&[ctx.seed, 16, i]));
            let w = wild(&mut rng, [8, 8, 7, 4, 9, 6, 5][i as usize % 7], 0.05);
            let res = match rng.below(5) { 0 => (rng.int(1, 16) as u32, rng.int(1, 16) as u32), 1 => (rng.int(60, 110) as u32, rng.int(2, 10) as u32), _ => (rng.int(17, 60) as u32, rng.int(17, 50) as u32) };
            let flt = match rng.below(4) { 0 => Flt::Flat(0.5), 1 => Flt::Gauss(2., 2.), 2 => Flt::Gauss(1.5, 2.), _ => Flt::Flat(*rng.pick(&[1., 3.3])) };
            let cam = Cam::Persp(persp(&mut rng, &w, res));
            let spp = rng.int(1, 3) as u32;
            let halton = rng.chance(0.6);
            let smp = if halton { ctx.count("halton_scenes"); Smp::Halton(HaltonSampler::new(spp, flt.film(res).sample_bbox())) } else { ctx.count("hash_scenes"); Smp::H(HSampler::new(rng.u64(), spp)) };
            let simple = rng.chance(0.2);
            let desc = format!("case {} seed {} film {:?} {:?} spp {} halton {} objects {}", i, ctx.seed, res, flt, spp, halton, w.objs.len());
            let base = match go(&w, &cam, &smp, &flt, res, simple, 1, 0, false) { Ok(r) => r, Err(e) => { ctx.violate("render", format!("{}, {}", e, desc)); continue; } };
            ctx.count("scenes");
            if base.px.iter().any(|p| p.0.r > 0.) { ctx.count("lit_scenes"); }
            for k in 0..6 {
                let threads = match k { 0 => 1, 1 => 2, 2 => 3, 3 => 8, 4 => *rng.pick(&[4u8, 5, 7, 16]), _ => *rng.pick(&[16u8, 33, 64, 200]) };
                let delay = if rng.chance(0.6) { rng.u64() | 1 } else { 0 };
                let again = k == 3 && rng.chance(0.3);
                let r = match go(&w, &cam, &smp, &flt, res, simple, threads, delay, again) { Ok(r) => r, Err(e) => { ctx.violate("render", format!("{} with {} threads, {}", e, threads, desc)); break; } };
                ctx.eval(Some(r.order));
                orders.insert(r.order);
                ctx.count(&format!("threads_{}", if threads > 8 { "more_than_8".to_string() } else { threads.to_string() }));
                if delay != 0 { ctx.count("delayed_renders"); }
                if again { ctx.count("renders_of_a_used_integrator"); }
                if r.workers > 1 { ctx.count("renders_by_several_workers"); }
                if r.order != base.order { ctx.count("orders_unlike_the_baseline"); }
                ctx.maximum("workers", r.workers as f64);
                ctx.add("pixels_compared", r.px.len() as u64);
                let d = || format!("{} threads, delays {}, {}{}", threads, delay, desc, if again { ", second render of the same integrator" } else { "" });
                let m = if again { 2. } else { 1. };
                if !again { if !ctx.check(r.films == base.films, "camera-samples", || format!("other camera samples than with one thread: {} and {}, first difference {:?}, {}", r.films.len(), base.films.len(), r.films.iter().zip(&base.films).find(|x| x.0 != x.1).map(|x| ((f32::from_bits((x.0).0), f32::from_bits((x.0).1)), (f32::from_bits((x.1).0), f32::from_bits((x.1).1)))), d())) { break; } }
                let mut bad = None;
                for (j, (a, b)) in r.px.iter().zip(&base.px).enumerate() {
                    let near = |x: f32, y: f32| x == y || (x as f64 - y as f64 * m).abs() <= 1e-5 * (x.abs() as f64).max(y.abs() as f64 * m) || x.is_nan() && y.is_nan();
                    ctx.maximum("relative_difference", if b.0.g > 0. { ((a.0.g as f64 / m - b.0.g as f64) / b.0.g as f64).abs() } else { 0. });
                    if !near(a.1, b.1) || !near(a.0.r, b.0.r) || !near(a.0.g, b.0.g) || !near(a.0.b, b.0.b) { bad = Some((j, *a, *b)); break; }
                }
                if let Some((j, a, b)) = bad { ctx.violate("film", format!("pixel {}: {:?} unlike {:?} with one thread, {}", j, a, b, d())); break; }
                if !ctx.check(r.img.len() == base.img.len(), "image-size", || d()) { break; }
                let bad = r.img.iter().zip(&base.img).position(|(a, b)| (0..3).any(|k| (a[k] as i64 - b[k] as i64).abs() > 1));
                if let Some(j) = bad { ctx.violate("image", format!("pixel {}: {:?} unlike {:?} with one thread, {}", j, r.img[j], base.img[j], d())); break; }
            }
            ctx.sample(|| desc.clone());
        }
        ctx.add("distinct_sample_orders", orders.len() as u64);
        for (k, m) in [("scenes", 60), ("lit_scenes", 30), ("halton_scenes", 20), ("hash_scenes", 15), ("renders_by_several_workers", 150), ("orders_unlike_the_baseline", 100), ("delayed_renders", 100), ("threads_more_than_8", 60), ("renders_of_a_used_integrator", 5), ("distinct_sample_orders", 150)] { ctx.require(k, m); }
    });
}
#[allow(unused)] fn f(p: &Probe) { p.n.load(SeqCst); }
