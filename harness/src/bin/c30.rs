//! C30: workload for ThreadSanitizer, AddressSanitizer and Miri: real renders without any synchronisation of the
//! harness's own between the workers (delays come from thread-local state only).
use pt::verif::camera::{Camera, CameraSample, PerspectiveCamera};
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::film::Film;
use pt::verif::integrator::Integrator;
use pt::verif::light::DistantLight;
use pt::verif::ray::Ray;
use pt::verif::sampler::Sampler;
use pt::verif::sampler_halton::HaltonSampler;
use pt::verif::sampler_random::RandomSampler;
use pt::verif::scene::{Builder, Scene};
use pt::verif::shape_sphere::Sphere;
use pt::verif::vector::*;
use ptmon::fw::{hash, Rng};
use ptmon::gen::*;
use ptmon::geo::v;
use ptmon::mats::spec;
use ptmon::wild::*;
use std::cell::Cell;

thread_local! { static STEP: Cell<u64> = Cell::new(0); }

/// Delays without shared state: every worker clone carries its own generator.
struct Slow<S: Sampler> { inner: S, seed: u64, n: u64 }
impl<S: Sampler> Clone for Slow<S> { fn clone(&self) -> Self { let t = &self.n as *const u64 as u64; Slow { inner: self.inner.clone(), seed: self.seed, n: hash(&[self.n, t]) } } }
impl<S: Sampler> Slow<S> {
    fn step(&mut self) {
        self.n = self.n.wrapping_add(1);
        STEP.with(|s| s.set(s.get() + 1));
        if self.seed == 0 { return; }
        let h = hash(&[self.seed, self.n]);
        match h % 211 { 0..=5 => std::thread::yield_now(), 6 => if !cfg!(miri) { std::thread::sleep(std::time::Duration::from_micros(h / 211 % 200)) }, 7..=12 => { for _ in 0..h / 211 % 500 { std::hint::spin_loop(); } } _ => {} }
    }
}
impl<S: Sampler> Sampler for Slow<S> {
    fn start_pixel(&mut self, p: Point2i) { self.step(); self.inner.start_pixel(p) }
    fn start_next_sample(&mut self) -> bool { self.step(); self.inner.start_next_sample() }
    fn get_1d(&mut self) -> f32 { self.inner.get_1d() }
    fn get_2d(&mut self) -> Point2f { self.inner.get_2d() }
}

#[derive(Clone)]
struct C(Cam);
impl Camera for C { fn generate_ray(&self, s: &CameraSample) -> Ray { match &self.0 { Cam::Persp(c) => PerspectiveCamera::generate_ray(c, s), Cam::Ray(c) => c.generate_ray(s), Cam::List(l, w) => { let k = (s.p_film.x.floor() as i64 + s.p_film.y.floor() as i64 * *w as i64).rem_euclid(l.len() as i64) as usize; let mut r = Ray::default(); r.origin = l[k].0.p(); r.direction = l[k].1.v(); r } } } }

fn builder(w: &Wild) -> Builder {
    let mut b = Builder::new();
    for o in &w.objs {
        let m = o.mat.material(None);
        match (&o.geo, o.le) {
            (Geo::Tri { .. }, Some(l)) => b.add_area_light(pt::verif::light::AreaLight::new(spec(l), o.geo.triangle(m))),
            (Geo::Tri { .. }, None) => b.add_shape(o.geo.triangle(m)),
            (Geo::Sph { c, r }, _) => b.add_shape(Sphere::new(c.p(), *r as f32, m)),
        }
    }
    for (l, d) in &w.distants { b.add_light(DistantLight::new(spec(*l), d.v())); }
    b
}

fn go<Co: Container + 'static, S: Sampler + 'static>(sc: Scene<Co>, s: S, cam: Cam, film: Film, threads: u8, times: u32, delay: u64) -> bool {
    let i = Integrator::new(sc, Slow { inner: s, seed: delay, n: delay }, C(cam), film);
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| for _ in 0..times { i.render(threads) })).is_ok();
    let _ = i.verif_film().verif_pixels();
    ok
}

/// One render; returns whether it finished, the threads and the pixels rendered.
fn one(seed: u64, small: bool) -> (bool, u64, u64) {
    let mut rng = Rng::new(seed);
    let mut w = if small { Wild::default() } else { wild(&mut rng, [8, 9, 7, 6, 2, 4][(seed % 6) as usize], 0.05) };
    if small {
        for g in quad(2, -1., (-4., -4.), (4., 4.)) { let m = tmat(&mut rng, 0.1, 0.5); w.objs.push(WObj { geo: g, mat: m, le: None }); }
        for _ in 0..3 { let m = tmat(&mut rng, 0.1, 0.5); let g = if rng.chance(0.5) { Geo::sph(pt(&mut rng, 1.5), 0.7) } else { let c = pt(&mut rng, 1.); rand_tri(&mut rng, c, 1.5) }; w.objs.push(WObj { geo: g, mat: m, le: None }); }
        let m = tmat(&mut rng, 0.1, 0.); let g = rand_tri(&mut rng, v(0., 0., 3.), 1.); w.objs.push(WObj { geo: g, mat: m, le: Some([1.; 3]) });
        w.distants.push(([1.; 3], v(0.2, 0.3, 1.)));
        for _ in 0..64 { let o = pt(&mut rng, 3.); let k = rng.below(w.objs.len()); let t = w.objs[k].geo.point(&mut rng); w.rays.push((o.q(), (t - o).norm().q())); }
    }
    let (res, flt, threads, times) = if small { ((18, 2), Flt::Flat(0.5), *rng.pick(&[2u8, 3]), 1) } else { ((rng.int(20, 70) as u32, rng.int(17, 40) as u32), *rng.pick(&[Flt::Flat(0.5), Flt::Gauss(2., 2.), Flt::Flat(3.)]), *rng.pick(&[2u8, 3, 4, 8, 16]), if rng.chance(0.2) { 2 } else { 1 }) };
    let film = flt.film(res);
    let px = film.sample_bbox().area() as u64;
    let cam = if rng.chance(0.5) && !small { Cam::Persp(persp(&mut rng, &w, res)) } else { Cam::List(std::sync::Arc::new(w.rays.clone()), res.0) };
    let delay = if rng.chance(0.6) { rng.u64() | 1 } else { 0 };
    let b = builder(&w);
    let spp = if small { 1 } else { *rng.pick(&[1u32, 1, 2, 3]) };
    let halton = HaltonSampler::new(spp, film.sample_bbox());
    let ok = match rng.below(4) {
        0 => go(b.construct(|s| Simple::new(s)), halton, cam, film, threads, times, delay),
        1 => go(b.construct(|s| KdTree::new(s, None)), RandomSampler::new(spp), cam, film, threads, times, delay),
        _ => go(b.construct(|s| KdTree::new(s, None)), halton, cam, film, threads, times, delay),
    };
    (ok, threads as u64, px * times as u64 * spp as u64)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, seed, n) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    std::panic::set_hook(Box::new(|i| eprintln!("{}", i)));
    let (mut ok, mut failed, mut threads, mut pixels, mut together) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let small = mode == "miri";
    let mut add = |r: (bool, u64, u64)| { if r.0 { ok += 1 } else { failed += 1 } threads += r.1; pixels += r.2; };
    let mut i = 0;
    while i < n {
        let s = hash(&[seed, i, 30]);
        if i % 4 == 3 && n > 1 {
            // two renders at once
            together += 1;
            let h = std::thread::spawn(move || one(s ^ 1, small));
            add(one(s, small));
            match h.join() { Ok(r) => add(r), Err(_) => add((false, 0, 0)) }
            i += 2;
        } else { add(one(s, small)); i += 1; }
    }
    println!("C30-OBSERVED {{\"mode\": \"{}\", \"renders\": {}, \"failed\": {}, \"worker_threads\": {}, \"pixel_samples\": {}, \"pairs_of_simultaneous_renders\": {}}}", mode, ok, failed, threads, pixels, together);
}
