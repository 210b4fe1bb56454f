//! C17: a failure injected into any component, at any event, fails the render and leaves output.ppm alone.
use pt::verif::sampler_halton::HaltonSampler;
use ptmon::fw::*;
use ptmon::scenes::*;
use ptmon::wild::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

const OLD: &[u8] = b"P3\n1 1\n255\n12 34 56\nleft over from an earlier render\n";

fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = r.split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
fn states() -> String {
    let mut m: BTreeMap<String, u32> = BTreeMap::new();
    for e in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
        let s = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        *m.entry(s.rsplit(')').next().unwrap_or("").split_whitespace().next().unwrap_or("?").to_string()).or_insert(0) += 1;
    }
    format!("{:?}", m)
}

enum Out { Done(bool), Stuck(String) }

/// Render in a thread of its own and watch it: `Stuck` when nothing happens any more.
fn watched(w: &Wild, cam: &Cam, smp: &Smp, flt: &Flt, res: (u32, u32), simple: bool, threads: u8, p: &Arc<Probe>) -> Out {
    let (tx, rx) = mpsc::channel();
    let sc = w.scene(p, simple, true);
    let (cam, smp, film, q) = (cam.clone(), smp.clone(), flt.film(res), p.clone());
    let p2 = p.clone();
    let armed = p.fault.is_some();
    let _ = armed;
    std::thread::spawn(move || { let (_, err) = shoot(sc, cam, smp, film, threads, &q); let _ = tx.send(err); });
    let (mut last, mut since, mut c0) = (0, Instant::now(), cpu());
    let start = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(e) => return Out::Done(e),
            Err(mpsc::RecvTimeoutError::Disconnected) => return Out::Done(true),
            Err(_) => {}
        }
        let n = p2.n.load(SeqCst);
        if n != last { last = n; since = Instant::now(); c0 = cpu(); }
        let idle = since.elapsed().as_secs();
        // nobody runs and nothing was observed: blocked for ever; busy without any event: not coming back either
        if idle >= 12 && cpu() - c0 < 20 { return Out::Stuck(format!("no event and no CPU time for {} s, threads {}", idle, states())); }
        if idle >= 60 { return Out::Stuck(format!("busy without any event for {} s, threads {}", idle, states())); }
        if start.elapsed().as_secs() > 120 && p2.faults.load(SeqCst) > 0 { return Out::Stuck(format!("still going {} s after the failure", start.elapsed().as_secs())); }
    }
}

fn main() {
    run("C17", "one evaluation: one render with failures injected at one chosen event; distinct = different (scene, threads, component, event number, persistence)",
        &["a failure is a panic out of a user-supplied or wrapped component (camera, sampler, container, shape, material, texture, light)", "a render that shows no event and uses no CPU time for 12 s is deadlocked"], |ctx| {
        let n = ctx.n(150, 4000);
        let t0 = Instant::now();
        for i in 0..n {
            if ctx.stop() || t0.elapsed().as_secs() > ctx.n(250, 2400) { break; }
            let mut rng = Rng::new(hash(&[ctx.seed, 17, i]));
            let mut w = wild(&mut rng, [8, 7, 9, 4][i as usize % 4], 0.05);
            if w.distants.is_empty() { w.distants.push(([1.; 3], ptmon::geo::v(0.3, 0.2, 1.))); }
            let res = (rng.int(1, 40) as u32, rng.int(1, 24) as u32);
            let flt = if rng.chance(0.5) { Flt::Flat(0.5) } else { Flt::Gauss(2., 2.) };
            let cam = if rng.chance(0.5) { Cam::Persp(persp(&mut rng, &w, res)) } else { Cam::List(Arc::new(w.rays.clone()), res.0) };
            let smp = if rng.chance(0.5) { Smp::Halton(HaltonSampler::new(1, flt.film(res).sample_bbox())) } else { Smp::H(HSampler::new(rng.u64(), rng.int(1, 2) as u32)) };
            let simple = rng.chance(0.2);
            let desc = format!("case {} seed {} film {:?} {:?} objects {}", i, ctx.seed, res, flt, w.objs.len());
            // a clean render first, to learn how many events there are
            let p = Arc::new(Probe::new());
            let _ = std::fs::remove_file("output.ppm");
            match watched(&w, &cam, &smp, &flt, res, simple, 1, &p) {
                Out::Done(false) => (),
                Out::Done(true) => { ctx.violate("clean-render-failed", format!("{:?}, {}", take_all_panics().first(), desc)); continue; }
                Out::Stuck(s) => { ctx.violate("hang", format!("clean render: {}, {}", s, desc)); return; }
            }
            ctx.check(std::path::Path::new("output.ppm").exists(), "clean-render-no-image", || desc.clone());
            ctx.count("clean_renders");
            let total = p.n.load(SeqCst);
            let per: Vec<u64> = KINDS.iter().map(|k| p.count(*k)).collect();
            for j in 0..14u64 {
                let threads = *rng.pick(&[1u8, 1, 2, 2, 3, 4, 8, 16, 50]);
                let mut pr = Probe::new();
                pr.delay = if rng.chance(0.4) { rng.u64() | 1 } else { 0 };
                pr.payload = rng.below(3) as u8;
                // which event
                let (kind, at) = if j < 10 {
                    let k = loop { let k = rng.below(KINDS.len()); if per[k] > 0 { break k; } };
                    // the number of clones depends on the threads, the others do not
                    if KINDS[k] == Kind::Clone { (Some(KINDS[k]), 1 + rng.below(threads as usize + 1) as u64) } else { (Some(KINDS[k]), match rng.below(4) { 0 => 1, 1 => per[k], _ => 1 + rng.u64() % per[k] }) }
                } else { (None, match rng.below(5) { 0 => 1, _ => 1 + rng.u64() % (total - per[Kind::Clone as usize]) }) };
                pr.fault = Some((kind, at));
                pr.persist = match rng.below(4) { 0 => 1, 1 if kind.is_some() => 2, _ => 0 };
                let persist = pr.persist;
                let p = Arc::new(pr);
                let existing = rng.chance(0.6);
                let _ = std::fs::remove_file("output.ppm");
                if existing { std::fs::write("output.ppm", OLD).unwrap(); }
                take_all_panics();
                // cloning the sampler into the integrator happens before render(): such a failure is not a worker's
                let out = watched(&w, &cam, &smp, &flt, res, simple, threads, &p);
                let hit = p.faults.load(SeqCst);
                let d = || format!("{} threads, failure at {:?} number {} (persistence {}), {} failures raised, {}", threads, kind, at, persist, hit, desc);
                let err = match out { Out::Done(e) => e, Out::Stuck(s) => { ctx.violate("hang", format!("{}: {}", s, d())); return; } };
                if hit == 0 { ctx.count("not_reached"); continue; }
                ctx.eval(Some(hash(&[i, threads as u64, kind.map_or(99, |k| k as u64), at, persist as u64])));
                ctx.count(&match kind { Some(k) => format!("fault_in_{:?}", k), None => "fault_at_any_event".to_string() });
                ctx.count(&format!("threads_{}", if threads > 1 { "several" } else { "one" }));
                if hit > 1 { ctx.count("several_workers_failed"); }
                if hit < threads as u64 && threads > 1 { ctx.count("some_workers_survived"); }
                if kind.is_some() && at == per[kind.unwrap() as usize] { ctx.count("fault_at_last_event"); }
                ctx.check(err, "reported-success", || format!("render returned normally, {}", d()));
                let now = std::fs::read("output.ppm");
                if existing { ctx.count("existing_image"); ctx.check(now.as_ref().map_or(false, |b| &b[..] == OLD), "image-changed", || format!("output.ppm was changed to {:?}, {}", now.as_ref().map(|b| b.len()), d())); }
                else { ctx.count("no_image_before"); ctx.check(now.is_err(), "image-written", || format!("output.ppm was written ({:?} bytes), {}", now.as_ref().map(|b| b.len()), d())); }
                // workers that survived may still be running: nothing may appear later either
                if j == 13 { std::thread::sleep(Duration::from_millis(30)); let later = std::fs::read("output.ppm"); ctx.check(later.ok() == now.ok(), "image-later", || format!("output.ppm changed after render() had failed, {}", d())); ctx.count("checked_later"); }
            }
            ctx.sample(|| format!("{} events {:?}, {}", total, KINDS.iter().zip(&per).collect::<Vec<_>>(), desc));
        }
        for k in [Kind::Start, Kind::Cam, Kind::Next, Kind::Dim, Kind::Isect, Kind::IsectP, Kind::ShapeI, Kind::Mat, Kind::Tex, Kind::LightS, Kind::Clone] { ctx.require(&format!("fault_in_{:?}", k), 5); }
        for (k, m) in [("clean_renders", 40), ("fault_at_any_event", 80), ("threads_one", 100), ("threads_several", 300), ("several_workers_failed", 60), ("some_workers_survived", 100), ("fault_at_last_event", 60), ("existing_image", 200), ("no_image_before", 150), ("checked_later", 20)] { ctx.require(k, m); }
    });
}
