//! Synthetic scene, camera and sampler with recorded events, injected delays and injected faults.
use pt::verif::bbox::BBox3f;
use pt::verif::camera::{Camera, CameraSample};
use pt::verif::container::Container;
use pt::verif::interaction::Interaction;
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::reflection::BSDF;
use pt::verif::sampler::Sampler;
use pt::verif::shape::Shape;
use pt::verif::spectrum::Spectrum;
use pt::verif::vector::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use crate::fw::hash;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev { Start(i32, i32), Ray(u32, u32), Isect, Emit, Next(bool) }

/// Event log shared by every component of one render.
pub struct Log {
    pub events: Mutex<Vec<(u64, Ev)>>, // (worker id, event), in order per worker
    pub n: AtomicU64,
    pub delay: u64,      // 0: none; otherwise a seed for injected delays
    pub fault_at: u64,   // panic at this event number (1-based), 0: never
    pub fault_kind: u64,
    pub keep: bool,
}
thread_local! { static BUF: RefCell<Option<(u64, Vec<Ev>)>> = RefCell::new(None); static LAST_RAY: RefCell<(f32, f32)> = RefCell::new((0., 0.)); }
static NEXT_THREAD: AtomicU64 = AtomicU64::new(1);
thread_local! { static TID: u64 = NEXT_THREAD.fetch_add(1, SeqCst); }
pub fn tid() -> u64 { TID.with(|t| *t) }

pub const INJECTED: &str = "injected fault";

impl Log {
    pub fn new(delay: u64) -> Arc<Log> { Arc::new(Log { events: Mutex::new(vec![]), n: AtomicU64::new(0), delay, fault_at: 0, fault_kind: 0, keep: true }) }
    pub fn with_fault(delay: u64, at: u64) -> Arc<Log> { Arc::new(Log { events: Mutex::new(vec![]), n: AtomicU64::new(0), delay, fault_at: at, fault_kind: 0, keep: false }) }
    pub fn ev(&self, e: Ev) {
        let t = tid();
        let k = self.n.fetch_add(1, SeqCst) + 1;
        if self.keep { self.events.lock().unwrap().push((t, e)); }
        if self.delay != 0 {
            let h = hash(&[self.delay, k, t]);
            match h % 97 { 0..=9 => std::thread::yield_now(), 10 => std::thread::sleep(std::time::Duration::from_micros(h / 97 % 400)), 11..=13 => { for _ in 0..(h / 97 % 3000) { std::hint::spin_loop(); } } _ => {} }
            // one worker in a few is slow throughout
            if hash(&[self.delay, t, 5]) % 4 == 0 && h % 8 == 0 { std::thread::sleep(std::time::Duration::from_micros(100)); }
        }
        if self.fault_at != 0 && k == self.fault_at { panic!("{}", INJECTED); }
    }
}

/// What the camera "sees" at a film position.
pub type Radiance = Arc<dyn Fn(f32, f32) -> [f32; 3] + Sync + Send>;

#[derive(Clone)]
pub struct SCam { pub log: Arc<Log> }
impl Camera for SCam {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        self.log.ev(Ev::Ray(s.p_film.x.to_bits(), s.p_film.y.to_bits()));
        Ray { origin: Point3f::new(s.p_film.x, s.p_film.y, 0.), direction: Vector3f::new(0., 0., 1.), ..Default::default() }
    }
}

pub struct SShape { pub log: Arc<Log>, pub f: Radiance }
impl Shape for SShape {
    fn bbox(&self) -> BBox3f { BBox3f::new(Point3f::new(-1e4, -1e4, 1.), Point3f::new(1e4, 1e4, 1.)) }
    fn area(&self) -> f32 { 4e8 }
    fn intersect_p(&self, _: &Ray) -> bool { true }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> {
        if r.direction.z <= 0. || r.origin.z >= 1. || r.t_max < 1. { return None; }
        Some((Interaction {
            p: Point3f::new(r.origin.x, r.origin.y, 1.), n: Normal3f::new(0., 0., -1.), sn: Normal3f::new(0., 0., -1.),
            dpdu: Vector3f::new(1., 0., 0.), dpdv: Vector3f::new(0., 1., 0.), wo: -r.direction, ..Default::default() }, 1.))
    }
    fn material(&self) -> Arc<dyn Material> { Arc::new(SMat {}) }
    fn sample(&self, _: Point2f) -> Interaction { unimplemented!() }
    fn l(&self, i: &Interaction, _: Vector3f) -> Spectrum {
        self.log.ev(Ev::Emit);
        let c = (self.f)(i.p.x, i.p.y);
        Spectrum::new(c[0], c[1], c[2])
    }
}
pub struct SMat {}
impl Material for SMat { fn compute_scattering(&self, i: &Interaction) -> BSDF { BSDF::new(i) } }

/// Container over a single synthetic shape.
pub struct SCont { pub shape: Arc<dyn Shape>, pub log: Arc<Log> }
impl Container for SCont {
    fn bbox(&self) -> BBox3f { self.shape.bbox() }
    fn intersect_p(&self, r: &Ray) -> bool { self.shape.intersect_p(r) }
    fn intersect(&self, r: &Ray) -> Option<Interaction> {
        self.log.ev(Ev::Isect);
        pt::verif::shape::intersect(&self.shape, &mut r.clone())
    }
}

/// Sampler with a fixed number of samples and configurable offsets.
#[derive(Clone)]
pub struct SSampler { pub log: Arc<Log>, pub spp: u32, pub k: u32, pub p: (i32, i32), pub dim: u32, pub jitter: u64 }
impl SSampler { pub fn new(log: Arc<Log>, spp: u32, jitter: u64) -> SSampler { SSampler { log, spp, k: 0, p: (0, 0), dim: 0, jitter } } }
impl SSampler {
    fn val(&mut self) -> f32 {
        self.dim += 1;
        if self.jitter == 0 { 0.5 } else { ((hash(&[self.jitter, self.p.0 as u64, self.p.1 as u64, self.k as u64, self.dim as u64]) >> 52) as f32 + 0.5) / 4096. }
    }
}
impl Sampler for SSampler {
    fn start_pixel(&mut self, p: Point2i) { self.log.ev(Ev::Start(p.x, p.y)); self.p = (p.x, p.y); self.k = 0; self.dim = 0; }
    fn start_next_sample(&mut self) -> bool { self.k += 1; self.dim = 0; let r = self.k < self.spp; self.log.ev(Ev::Next(r)); r }
    fn get_1d(&mut self) -> f32 { self.val() }
    fn get_2d(&mut self) -> Point2f { let x = self.val(); let y = self.val(); Point2f::new(x, y) }
}
/// the offsets SSampler hands to the camera for sample k of pixel p
pub fn jitter_of(j: u64, p: (i32, i32), k: u32) -> (f32, f32) {
    if j == 0 { return (0.5, 0.5); }
    let v = |d: u64| ((hash(&[j, p.0 as u64, p.1 as u64, k as u64, d]) >> 52) as f32 + 0.5) / 4096.;
    (v(1), v(2))
}
