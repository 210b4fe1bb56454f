//! C35: the requested number of workers render at the same time, a slow tile delays only itself, and nothing is left
//! behind: no threads, files or memory. Monitors: rendezvous of the workers inside the sampler, live workers counted by
//! thread-local guards, /proc/self, a counting allocator.
use pt::verif::bbox::{BBox2f, BBox2i};
use pt::verif::camera::{Camera, CameraSample, PerspectiveCamera};
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::film::Film;
use pt::verif::filter::GaussianFilter;
use pt::verif::integrator::Integrator;
use pt::verif::light::DistantLight;
use pt::verif::ray::Ray;
use pt::verif::sampler::Sampler;
use pt::verif::sampler_halton::HaltonSampler;
use pt::verif::sampler_random::RandomSampler;
use pt::verif::scene::Builder;
use pt::verif::shape_sphere::Sphere;
use pt::verif::transform::Transform;
use pt::verif::vector::*;
use ptmon::fw::*;
use ptmon::mats::{spec, Mat};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
struct Counting;
fn took(n: i64) { let l = LIVE.fetch_add(n, SeqCst) + n; if n > 0 { PEAK.fetch_max(l, SeqCst); } }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { took(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { took(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { took(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { took(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

/// generous: only a worker that can never come reaches it
const PATIENCE: Duration = Duration::from_secs(25);

/// A worker is alive from its first pixel to the end of its thread.
struct Alive(Arc<Mon>);
impl Drop for Alive { fn drop(&mut self) { self.0.alive.fetch_sub(1, SeqCst); } }
struct Me { mon: Arc<Mon>, tile: usize, _alive: Alive }
thread_local! { static ME: RefCell<Option<Me>> = RefCell::new(None); }

#[derive(Default)]
struct St { started: u64, pixels: u64, held: Option<usize>, late: Option<String>, workers: HashSet<std::thread::ThreadId>, rendezvous: u64, held_others: u64 }
struct Mon {
    st: Mutex<St>, cv: Condvar,
    alive: AtomicI64, most: AtomicI64,
    tile_of: Vec<usize>, min: (i64, i64), width: i64, tiles: u64,
    /// workers that have to meet, 0: none
    together: u64,
    /// number of the tile (in order of starting) whose worker is held up until all others are done
    hold: Option<u64>, other_pixels: Vec<u64>,
}
impl Mon {
    fn new(tiles: &[BBox2i], sb: BBox2i, together: u64, hold: Option<u64>) -> Arc<Mon> {
        let (w, h) = ((sb.max.x - sb.min.x) as i64, (sb.max.y - sb.min.y) as i64);
        let mut tile_of = vec![usize::MAX; (w * h) as usize];
        let mut rays = vec![0; tiles.len()];
        for (k, t) in tiles.iter().enumerate() { for p in t.iter() { tile_of[((p.y - sb.min.y) as i64 * w + (p.x - sb.min.x) as i64) as usize] = k; rays[k] += 1; } }
        let all: u64 = rays.iter().sum();
        Arc::new(Mon { st: Mutex::new(St::default()), cv: Condvar::new(), alive: AtomicI64::new(0), most: AtomicI64::new(0), tile_of, min: (sb.min.x as i64, sb.min.y as i64), width: w,
            tiles: tiles.len() as u64, together, hold, other_pixels: rays.iter().map(|r| all - r).collect() })
    }
    fn pixel(self: &Arc<Mon>, p: Point2i) {
        let (x, y) = (p.x as i64 - self.min.0, p.y as i64 - self.min.1);
        let tile = self.tile_of[((y * self.width + x).max(0) as usize).min(self.tile_of.len() - 1)];
        let fresh = ME.with(|m| {
            let mut m = m.borrow_mut();
            match m.as_mut() {
                Some(me) if Arc::ptr_eq(&me.mon, self) => { let f = me.tile != tile; me.tile = tile; f }
                _ => { let n = self.alive.fetch_add(1, SeqCst) + 1; self.most.fetch_max(n, SeqCst); *m = Some(Me { mon: self.clone(), tile, _alive: Alive(self.clone()) }); true }
            }
        });
        let mut st = self.st.lock().unwrap();
        st.pixels += 1;
        if st.held.is_some() && st.held != Some(tile) { st.held_others += 1; }
        if !fresh { if st.held.is_some() { self.cv.notify_all(); } return; }
        st.workers.insert(std::thread::current().id());
        let k = st.started;
        st.started += 1;
        self.cv.notify_all();
        if self.together > 1 && st.late.is_none() {
            let round = k / self.together;
            let goal = (round + 1) * self.together;
            if goal <= self.tiles {
                let until = Instant::now() + PATIENCE;
                while st.started < goal && st.late.is_none() {
                    let now = Instant::now();
                    if now >= until { let s = format!("round {}: {} of {} workers are in a tile at the same time ({} of {} tiles started)", round, st.started - round * self.together, self.together, st.started, self.tiles); st.late = Some(s); break; }
                    st = self.cv.wait_timeout(st, until - now).unwrap().0;
                }
                st.rendezvous += 1;
                self.cv.notify_all();
            }
        }
        if self.hold == Some(k) {
            let before = st.pixels - 1; // of other tiles, as this worker has started no other pixel of this tile
            st.held = Some(tile);
            let until = Instant::now() + PATIENCE;
            while before + st.held_others < self.other_pixels[tile] {
                let now = Instant::now();
                if now >= until { let s = format!("tile {} was held up and only {} of the {} pixels of the other tiles were rendered meanwhile", tile, before + st.held_others, self.other_pixels[tile]); st.late = Some(s); break; }
                st = self.cv.wait_timeout(st, until - now).unwrap().0;
            }
            st.held = None;
        }
    }
}

/// The workers meet where they start a pixel.
#[derive(Clone)]
struct Smp<S: Sampler> { inner: S, mon: Option<Arc<Mon>> }
impl<S: Sampler> Sampler for Smp<S> {
    fn start_pixel(&mut self, p: Point2i) { if let Some(m) = &self.mon { m.pixel(p) } self.inner.start_pixel(p) }
    fn start_next_sample(&mut self) -> bool { self.inner.start_next_sample() }
    fn get_1d(&mut self) -> f32 { self.inner.get_1d() }
    fn get_2d(&mut self) -> Point2f { self.inner.get_2d() }
}
fn persp(res: (u32, u32)) -> PerspectiveCamera {
    PerspectiveCamera::new(Transform::look_at(Point3f::new(0., 0.5, 4.), Point3f::new(0., 0., 0.), Vector3f::new(0., 1., 0.)), Transform::perspective(50., 0.1, 100.),
        BBox2f { min: Point2f::new(-1., -1.), max: Point2f::new(1., 1.) }, Point2u::new(res.0, res.1))
}
fn builder(n: usize) -> Builder {
    let mut b = Builder::new();
    for k in 0..n { let a = k as f32; b.add_shape(Sphere::new(Point3f::new((a * 1.3).sin(), (a * 0.7).cos(), (a * 0.37).sin()), 0.3, Mat::Lambert { kd: [0.5; 3] }.material())); }
    b.add_light(DistantLight::new(spec([1.; 3]), Vector3f::new(0.2, 1., 0.4).normalize()));
    b
}

// the main thread and the watchdog of fw::run are always there
fn tasks() -> usize { std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0) }
fn files() -> usize { std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0) }
/// Waits until the kernel has removed the entries of ended threads.  Waits of more than 0.3 s are counted: threads that live on for a moment make every render wait.
static SLOW: AtomicU64 = AtomicU64::new(0);
fn settles(want: impl Fn() -> bool) -> bool { let t = Instant::now(); loop { if want() { if t.elapsed() > Duration::from_millis(300) { SLOW.fetch_add(1, SeqCst); } return true; } if t.elapsed() > Duration::from_millis(2500) { SLOW.fetch_add(1, SeqCst); return false; } std::thread::sleep(Duration::from_millis(1)); } }

struct Setup { res: (u32, u32), r: f32, spp: u32, threads: u8, kd: bool, random: bool, shapes: usize }
impl Setup {
    fn film(&self) -> Film { Film::new(Point2u::new(self.res.0, self.res.1), GaussianFilter::new(self.r, 1.)) }
    fn desc(&self) -> String { format!("film {}x{} radius {} spp {} threads {} kd {} random {} shapes {}", self.res.0, self.res.1, self.r, self.spp, self.threads, self.kd, self.random, self.shapes) }
    fn with<C: Camera + 'static>(&self, cam: C, mon: Option<Arc<Mon>>, go: &mut dyn FnMut(&dyn Fn(u8))) {
        let film = self.film();
        let sb = film.sample_bbox();
        let b = builder(self.shapes);
        macro_rules! run { ($s:expr, $smp:expr) => {{ let i = Integrator::new($s, Smp { inner: $smp, mon }, cam, film); go(&|n| i.render(n)); }} }
        match (self.kd, self.random) {
            (false, false) => run!(b.construct(|s| Simple::new(s)), HaltonSampler::new(self.spp, sb)),
            (false, true) => run!(b.construct(|s| Simple::new(s)), RandomSampler::new(self.spp)),
            (true, false) => run!(b.construct(|s| KdTree::new(s, None)), HaltonSampler::new(self.spp, sb)),
            (true, true) => run!(b.construct(|s| KdTree::new(s, None)), RandomSampler::new(self.spp)),
        }
    }
}
fn setup(rng: &mut Rng, threads: u8, tiles: u64) -> Setup {
    // about `tiles` tiles
    let c = (1 + rng.below((tiles as f64).sqrt().ceil() as usize)).max(1) as u64;
    let (c, r) = (c, (tiles + c - 1) / c);
    Setup { res: ((c * 16) as u32 - rng.below(9) as u32, (r * 16) as u32 - rng.below(9) as u32), r: *rng.pick(&[0.5f32, 1., 2.]), spp: *rng.pick(&[1u32, 1, 2]), threads, kd: rng.chance(0.7), random: rng.chance(0.4), shapes: 3 + rng.below(12) }
}

/// Rendezvous of all workers, tile after tile; or one worker held up.
fn meeting(ctx: &mut Ctx, s: &Setup, hold: bool, salt: u64) {
    let film = s.film();
    let (sb, tiles) = (film.sample_bbox(), film.iter().collect::<Vec<_>>());
    let n = (s.threads as u64).min(tiles.len() as u64);
    let held = if hold { Some(salt % tiles.len() as u64) } else { None };
    let desc = format!("{}, {} tiles{}", s.desc(), tiles.len(), if let Some(k) = held { format!(", worker of start number {} held up", k) } else { String::new() });
    ctx.sample(|| desc.clone());
    let mon = Mon::new(&tiles, sb, if hold { 0 } else { n }, held);
    let (t0, f0) = (tasks(), files());
    let ok = ctx.guard(|| desc.clone(), |_| s.with(persp(s.res), Some(mon.clone()), &mut |render| render(s.threads)));
    if ok.is_none() { return; }
    let late = mon.st.lock().unwrap().late.clone();
    if let Some(l) = late { ctx.violate(if hold { "slow-tile-delays-others" } else { "workers-not-together" }, format!("{}: {}", desc, l)); return; }
    let most = mon.most.load(SeqCst);
    ctx.check(most <= s.threads as i64, "too-many-workers", || format!("{}: {} workers were alive at once", desc, most));
    ctx.check(settles(|| mon.alive.load(SeqCst) == 0), "workers-left", || format!("{}: {} workers are alive after the render returned", desc, mon.alive.load(SeqCst)));
    ctx.check(settles(|| tasks() <= t0), "threads-left", || format!("{}: {} threads before the render, {} after", desc, t0, tasks()));
    ctx.check(SLOW.load(SeqCst) < 8, "threads-linger", || format!("{}: the threads of a render have kept living after it returned {} times", desc, SLOW.load(SeqCst)));
    ctx.check(files() <= f0, "files-left-open", || format!("{}: {} open files before the render, {} after", desc, f0, files()));
    let st = mon.st.lock().unwrap();
    ctx.check(st.started >= tiles.len() as u64, "tiles-unseen", || format!("{}: pixels were started in {} tiles", desc, st.started));
    ctx.add("tiles_started", st.started); ctx.add("pixels", st.pixels); ctx.add("rendezvous_met", st.rendezvous);
    if hold { ctx.add("held_up_workers", 1); ctx.add("pixels_of_others_while_held", st.held_others); }
    ctx.add("worker_threads", st.workers.len() as u64);
    ctx.maximum("workers_at_once", most as f64);
    drop(st);
    ctx.eval(if n > 1 { Some(hash(&[s.res.0 as u64, s.res.1 as u64, s.threads as u64, s.spp as u64, held.unwrap_or(u64::MAX), s.kd as u64, s.random as u64])) } else { None });
}

/// Two renders at once meet each other as well.
fn two(ctx: &mut Ctx, a: &Setup, b: &Setup) {
    let desc = format!("two renders at once: {} and {}", a.desc(), b.desc());
    let meet = Arc::new((Mutex::new((0u32, false)), Condvar::new()));
    #[derive(Clone)]
    struct Gate { inner: PerspectiveCamera, meet: Arc<(Mutex<(u32, bool)>, Condvar)>, me: u32 }
    impl Camera for Gate {
        fn generate_ray(&self, s: &CameraSample) -> Ray {
            let mut g = self.meet.0.lock().unwrap();
            g.0 |= self.me;
            self.meet.1.notify_all();
            let until = Instant::now() + PATIENCE;
            while g.0 != 3 && !g.1 { let now = Instant::now(); if now >= until { g.1 = true; self.meet.1.notify_all(); break; } g = self.meet.1.wait_timeout(g, until - now).unwrap().0; }
            drop(g);
            self.inner.generate_ray(s)
        }
    }
    let ok = ctx.guard(|| desc.clone(), |_| std::thread::scope(|sc| {
        let (m1, m2) = (meet.clone(), meet.clone());
        let h = sc.spawn(move || a.with(Gate { inner: persp(a.res), meet: m1, me: 1 }, None, &mut |r| r(a.threads)));
        b.with(Gate { inner: persp(b.res), meet: m2, me: 2 }, None, &mut |r| r(b.threads));
        h.join().unwrap();
    }));
    if ok.is_none() { return; }
    let broke = meet.0.lock().unwrap().1;
    ctx.check(!broke, "renders-not-together", || format!("{}: one render waits for the other to finish", desc));
    ctx.add("simultaneous_renders", 1);
    ctx.eval(Some(hash(&[a.res.0 as u64, b.res.0 as u64, a.threads as u64, b.threads as u64, 2])));
}

/// Memory after and during renders.
fn memory(ctx: &mut Ctx, s: &Setup) {
    let desc = s.desc();
    let times = 8;
    let mut after = vec![];
    for _ in 0..times + 2 {
        let cam = persp(s.res);
        if ctx.guard(|| desc.clone(), |_| s.with(cam, None, &mut |r| r(s.threads))).is_none() { return; }
        settles(|| tasks() <= 2);
        after.push(LIVE.load(SeqCst));
    }
    // the first two fill whatever the runtime keeps
    let grew = (after[after.len() - 1] - after[1]) as f64 / times as f64;
    ctx.maximum("bytes_kept_per_dropped_integrator", grew);
    if grew > 128. { ctx.violate("memory-kept", format!("{}: {} bytes are kept per integrator made, rendered and dropped: {:?}", desc, grew, after)); }
    let mut after = vec![];
    s.with(persp(s.res), None, &mut |r| for _ in 0..times + 2 { r(s.threads); settles(|| tasks() <= 2); after.push(LIVE.load(SeqCst)); });
    let grew = (after[after.len() - 1] - after[1]) as f64 / times as f64;
    ctx.maximum("bytes_kept_per_further_render", grew);
    if grew > 128. { ctx.violate("memory-kept", format!("{}: {} bytes are kept per further render: {:?}", desc, grew, after)); }
    ctx.add("renders_for_memory", 2 * (times as u64 + 2));
    // the need during a render does not depend on the number of samples
    let mut need = |spp: u32| { let mut n = 0;
        Setup { spp, ..*s }.with(persp(s.res), None, &mut |r| { let b = LIVE.load(SeqCst); PEAK.store(b, SeqCst); r(s.threads); n = PEAK.load(SeqCst) - b; });
        settles(|| tasks() <= 2); n };
    let (few, many) = (need(1), need(48));
    ctx.maximum("peak_bytes_per_worker_1_sample", few as f64 / s.threads as f64);
    ctx.maximum("peak_bytes_per_worker_48_samples", many as f64 / s.threads as f64);
    // a tile with its border, 16 bytes a pixel; the writer's buffer; threads
    let tile = (16 + 2 * (s.r.ceil() as i64 + 1)).pow(2) * 16;
    let bound = few + (s.threads as i64) * (2 * tile + 8192) + 65536;
    ctx.check(many <= bound, "memory-grows-with-samples", || format!("{}: a render takes {} bytes with 1 sample and {} with 48 samples per pixel", desc, few, many));
    let pixels = (s.res.0 * s.res.1) as i64;
    let cap = (s.threads as i64) * (4 * tile + 32768) + 64 * pixels + 262144;
    ctx.check(few <= cap, "memory-need", || format!("{}: a render takes {} bytes", desc, few));
    ctx.eval(Some(hash(&[s.res.0 as u64, s.res.1 as u64, s.threads as u64, 77])));
}

fn main() {
    run("C35", "renders whose workers meet inside the sampler tile after tile, renders with one worker held up, renders side by side, repeated renders under a counting allocator; non-trivial: at least two workers",
        &["a worker that does not come within 25 s is taken never to come", "successful renders (failing workers: C17)"],
        |ctx| {
            let n = ctx.n(200, 2000);
            for i in 0..n {
                let mut rng = Rng::new(hash(&[ctx.seed, i, 35]));
                let threads = match i { 0 => 1, 1 => 255, 2 => 64, _ => *rng.pick(&[2u8, 2, 3, 4, 5, 7, 8, 8, 12, 16, 24, 33]) };
                let tiles = match rng.below(4) { 0 => threads as u64, 1 => 1 + rng.below(threads as usize) as u64, 2 => threads as u64 * 2 + rng.below(7) as u64, _ => threads as u64 * 3 + rng.below(40) as u64 };
                let s = setup(&mut rng, threads, tiles.min(400));
                let hold = i % 3 == 2 && threads > 1;
                meeting(ctx, &s, hold, rng.u64() >> 8);
                if !ctx.violations.is_empty() { return; } // each further failure would cost its patience
            }
            for i in 0..ctx.n(12, 120) {
                let mut rng = Rng::new(hash(&[ctx.seed, i, 36]));
                let (a, b) = (setup(&mut rng, 1 + (i % 4) as u8, 6), setup(&mut rng, 1 + (i / 4 % 4) as u8, 6));
                two(ctx, &a, &b);
                if !ctx.violations.is_empty() { return; }
            }
            for i in 0..ctx.n(24, 240) {
                let mut rng = Rng::new(hash(&[ctx.seed, i, 37]));
                let th = *rng.pick(&[1u8, 2, 4, 8]);
                let t = 4 + rng.below(12) as u64;
                let s = setup(&mut rng, th, t);
                memory(ctx, &s);
                if ctx.stop() { return; }
            }
            ctx.require("rendezvous_met", 1200);
            ctx.require("held_up_workers", 40);
            ctx.require("simultaneous_renders", 5);
            ctx.require("renders_for_memory", 100);
        });
}
