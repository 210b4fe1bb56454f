//! Whole renders of arbitrary scenes with every component wrapped: event counts per camera ray, recorded camera
//! samples, injected delays and faults, hostile random numbers.
use crate::fw::{hash, Rng};
use crate::gen::*;
use crate::geo::*;
use crate::mats::*;
use crate::scenes::*;
use pt::api::{Checkerboard3DTexture, CheckerboardTexture, ConstantTexture, GaussianFilter, GlassMaterial, HaltonSampler, IdentityMapping3D, LambertianReflectionMaterial, MetalMaterial, MirrorMaterial, PerspectiveCamera, PlasticMaterial, RandomSampler, UVMapping2D};
use pt::verif::bbox::{BBox2f, BBox3f};
use pt::verif::camera::{Camera, CameraSample};
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::film::Film;
use pt::verif::filter::Filter;
use pt::verif::integrator::Integrator;
use pt::verif::interaction::Interaction;
use pt::verif::light::{DistantLight, Light, VisibilityTester};
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::reflection::BSDF;
use pt::verif::sampler::Sampler;
use pt::verif::scene::Scene;
use pt::verif::shape::Shape;
use pt::verif::shape_triangle::Triangle;
use pt::verif::spectrum::Spectrum;
use pt::verif::texture::{Texture, TextureFloat, TextureSpectrum};
use pt::verif::transform::Transform;
use pt::verif::vector::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind { Start, Cam, Next, Dim, Isect, IsectP, ShapeI, ShapeP, Mat, Tex, LightS, Emit, Clone }
pub const KINDS: [Kind; 13] = [Kind::Start, Kind::Cam, Kind::Next, Kind::Dim, Kind::Isect, Kind::IsectP, Kind::ShapeI, Kind::ShapeP, Kind::Mat, Kind::Tex, Kind::LightS, Kind::Emit, Kind::Clone];

/// A path follows at most 66 camera and scattered rays, and one further scattered ray per vertex for direct light.
pub const MAX_ISECT: u64 = 66 + 66;
pub const MAX_ISECT_P: u64 = 66;
pub const PATH_LIMIT: &str = "path longer than the limit";

#[derive(Default)]
pub struct Probe {
    pub n: AtomicU64,                    // events
    pub per: [AtomicU64; 13],
    pub delay: u64,
    /// panic at the event number `fault.1` (1-based) of kind `fault.0` (None: of any kind)
    pub fault: Option<(Option<Kind>, u64)>,
    /// 0: that event only, 1: that one and every later event, 2: that one and every later one of the kind
    pub persist: u8,
    /// what is thrown: 0 str, 1 String, 2 a number
    pub payload: u8,
    pub faults: AtomicU64,
    pub armed: AtomicBool,
    pub keep: bool,                      // record camera samples
    pub films: Mutex<Vec<(f32, f32, u64)>>, // film position and intersections of every path (exact from LONG on)
    pub max_isect: AtomicU64,
    pub max_p: AtomicU64,
    pub limit: AtomicU64,                // camera rays whose path went beyond the limit
    pub workers: Mutex<Vec<(u64, u64)>>, // (thread, camera rays)
    pub overlap: AtomicU64,              // most threads inside a component at once
    pub inside: AtomicU64,
}
pub const LONG: u64 = 60;
thread_local! { static NI: Cell<(u64, u64)> = Cell::new((0, 0)); static CUR: Cell<usize> = Cell::new(0); }

impl Probe {
    pub fn new() -> Probe { Probe::default() }
    pub fn ev(&self, k: Kind) {
        let n = self.n.fetch_add(1, SeqCst) + 1;
        let m = self.per[k as usize].fetch_add(1, SeqCst) + 1;
        if self.delay != 0 {
            let t = crate::synth::tid();
            let h = hash(&[self.delay, n, t]);
            match h % 997 { 0..=29 => std::thread::yield_now(), 30..=33 => std::thread::sleep(std::time::Duration::from_micros(h / 997 % 300)), 34..=50 => { for _ in 0..(h / 997 % 2000) { std::hint::spin_loop(); } } _ => {} }
            // one worker in a few is slow throughout
            if hash(&[self.delay, t, 5]) % 4 == 0 && h % 64 == 0 { std::thread::sleep(std::time::Duration::from_micros(60)); }
        }
        if let Some((kind, at)) = self.fault {
            let hit = match kind { None => n == at || self.persist == 1 && n > at, Some(x) => (x == k && (m == at || self.persist == 2 && m > at)) || self.persist == 1 && self.armed.load(SeqCst) };
            if hit {
                self.armed.store(true, SeqCst);
                self.faults.fetch_add(1, SeqCst);
                match self.payload { 0 => panic!("injected fault"), 1 => panic!("injected fault {:?} {}", k, n), _ => std::panic::panic_any(42u64) }
            }
        }
    }
    fn ray(&self) {
        let _ = NI.with(|c| c.replace((0, 0)));
        let t = crate::synth::tid();
        let mut w = self.workers.lock().unwrap();
        match w.iter_mut().find(|x| x.0 == t) { Some(x) => x.1 += 1, None => w.push((t, 1)) }
    }
    fn isect(&self, p: bool) {
        let (a, b) = NI.with(|c| { let mut v = c.get(); if p { v.1 += 1 } else { v.0 += 1 } c.set(v); v });
        self.max_isect.fetch_max(a, SeqCst);
        self.max_p.fetch_max(b, SeqCst);
        if self.keep && !p && a >= LONG { let k = CUR.with(|c| c.get()); let mut f = self.films.lock().unwrap(); if let Some(x) = f.get_mut(k) { x.2 = a; } }
        if a > MAX_ISECT || b > MAX_ISECT_P { self.limit.fetch_add(1, SeqCst); panic!("{}", PATH_LIMIT); }
    }
    pub fn count(&self, k: Kind) -> u64 { self.per[k as usize].load(SeqCst) }
}
impl Probe { pub fn kind_of(n: usize) -> Kind { KINDS[n % KINDS.len()] } }

// ---------- wrappers
pub struct WCont { pub inner: Box<dyn Container>, pub p: Arc<Probe> }
impl Container for WCont {
    fn bbox(&self) -> BBox3f { self.inner.bbox() }
    fn intersect_p(&self, r: &Ray) -> bool { self.p.ev(Kind::IsectP); self.p.isect(true); self.inner.intersect_p(r) }
    fn intersect(&self, r: &Ray) -> Option<Interaction> { self.p.ev(Kind::Isect); self.p.isect(false); self.inner.intersect(r) }
}

#[derive(Clone)]
pub enum Cam { Ray(RayCam), Persp(PerspectiveCamera), List(Arc<Vec<(V, V)>>, u32) }
pub struct WCam { pub inner: Cam, pub p: Arc<Probe> }
impl Clone for WCam { fn clone(&self) -> WCam { WCam { inner: self.inner.clone(), p: self.p.clone() } } }
impl Camera for WCam {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        self.p.ev(Kind::Cam);
        self.p.ray();
        if self.p.keep { let mut f = self.p.films.lock().unwrap(); CUR.with(|c| c.set(f.len())); f.push((s.p_film.x, s.p_film.y, 0)); }
        match &self.inner {
            Cam::Ray(c) => c.generate_ray(s),
            Cam::Persp(c) => c.generate_ray(s),
            Cam::List(l, w) => { let k = (s.p_film.x.floor() as i64 + s.p_film.y.floor() as i64 * *w as i64).rem_euclid(l.len() as i64) as usize; let mut r = Ray::default(); r.origin = l[k].0.p(); r.direction = l[k].1.v(); r }
        }
    }
}

/// Random numbers: real samplers, reproducible ones, and the corners of the unit interval.
#[derive(Clone)]
pub enum Smp { H(HSampler), Halton(HaltonSampler), Random(RandomSampler), Zero(u32, u32), Edge(HSampler) }
const ONE: f32 = 1. - f32::EPSILON / 2.;
pub struct WSmp { pub inner: Smp, pub p: Arc<Probe> }
impl Clone for WSmp { fn clone(&self) -> WSmp { self.p.ev(Kind::Clone); WSmp { inner: self.inner.clone(), p: self.p.clone() } } }
fn edge(x: f32) -> f32 { let k = (x * 4096.) as u32 % 6; match k { 0 => 0., 1 => ONE, 2 => 0.5, _ => (x * 4096.).fract() } }
impl Sampler for WSmp {
    fn start_pixel(&mut self, p: Point2i) { self.p.ev(Kind::Start); match &mut self.inner { Smp::H(s) => s.start_pixel(p), Smp::Halton(s) => s.start_pixel(p), Smp::Random(s) => s.start_pixel(p), Smp::Zero(_, k) => *k = 0, Smp::Edge(s) => s.start_pixel(p) } }
    fn start_next_sample(&mut self) -> bool { self.p.ev(Kind::Next); match &mut self.inner { Smp::H(s) => s.start_next_sample(), Smp::Halton(s) => s.start_next_sample(), Smp::Random(s) => s.start_next_sample(), Smp::Zero(n, k) => { *k += 1; *k < *n } Smp::Edge(s) => s.start_next_sample() } }
    fn get_1d(&mut self) -> f32 { self.p.ev(Kind::Dim); match &mut self.inner { Smp::H(s) => s.get_1d(), Smp::Halton(s) => s.get_1d(), Smp::Random(s) => s.get_1d(), Smp::Zero(..) => 0., Smp::Edge(s) => edge(s.get_1d()) } }
    fn get_2d(&mut self) -> Point2f { self.p.ev(Kind::Dim); match &mut self.inner { Smp::H(s) => s.get_2d(), Smp::Halton(s) => s.get_2d(), Smp::Random(s) => s.get_2d(), Smp::Zero(..) => Point2f::new(0., 0.), Smp::Edge(s) => { let x = edge(s.get_1d()); Point2f::new(x, edge(s.get_1d())) } } }
}

pub struct WTex<T: 'static> { pub inner: Arc<dyn Texture<Output = T>>, pub p: Arc<Probe> }
impl<T> Texture for WTex<T> { type Output = T; fn evaluate(&self, i: &Interaction) -> T { self.p.ev(Kind::Tex); self.inner.evaluate(i) } }
pub struct WMat { pub inner: Arc<dyn Material>, pub p: Arc<Probe> }
impl Material for WMat { fn compute_scattering(&self, i: &Interaction) -> BSDF { self.p.ev(Kind::Mat); self.inner.compute_scattering(i) } }
pub struct WShape { pub inner: Arc<dyn Shape>, pub p: Arc<Probe> }
impl Shape for WShape {
    fn bbox(&self) -> BBox3f { self.inner.bbox() }
    fn area(&self) -> f32 { self.inner.area() }
    fn intersect_p(&self, r: &Ray) -> bool { self.p.ev(Kind::ShapeP); self.inner.intersect_p(r) }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> { self.p.ev(Kind::ShapeI); self.inner.intersect(r) }
    fn material(&self) -> Arc<dyn Material> { self.inner.material() }
    fn sample(&self, u: Point2f) -> Interaction { self.inner.sample(u) }
    fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum { self.p.ev(Kind::Emit); self.inner.l(i, w) }
}
pub struct WLight { pub inner: DistantLight, pub p: Arc<Probe> }
impl Light for WLight {
    fn is_delta(&self) -> bool { self.inner.is_delta() }
    fn pre_process(&mut self, b: BBox3f) { self.inner.pre_process(b) }
    fn sample_li(&self, i: &Interaction, u: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) { self.p.ev(Kind::LightS); self.inner.sample_li(i, u) }
    fn pdf_li(&self, i: &Interaction, w: Vector3f) -> f32 { self.p.ev(Kind::LightS); self.inner.pdf_li(i, w) }
}

// ---------- textured materials
#[derive(Clone, Copy, Debug)]
pub enum Map { Const, Uv(f32, f32, f32, f32), Id([f32; 5]) }
#[derive(Clone, Copy, Debug)]
pub struct Tx<T> { pub map: Map, pub a: T, pub b: T }
impl<T: 'static + Copy + Sync + Send> Tx<T> {
    pub fn build(&self, p: Option<&Arc<Probe>>) -> Arc<dyn Texture<Output = T>> {
        let t: Arc<dyn Texture<Output = T>> = match self.map {
            Map::Const => Arc::new(ConstantTexture::new(self.a)),
            Map::Uv(a, b, c, d) => Arc::new(CheckerboardTexture::new(UVMapping2D::new(a, b, c, d), self.a, self.b)),
            Map::Id(m) => Arc::new(Checkerboard3DTexture::new(IdentityMapping3D::new(Transform::scale(m[0], m[0], m[0]) * Transform::rotate_y(m[1]) * Transform::translate(m[2], m[3], m[4])), self.a, self.b)),
        };
        match p { Some(p) => Arc::new(WTex { inner: t, p: p.clone() }), None => t }
    }
}
pub fn tx<T: Copy>(rng: &mut Rng, a: T, b: T, textured: f64) -> Tx<T> {
    if !rng.chance(textured) { return Tx { map: Map::Const, a, b: a }; }
    let map = if rng.chance(0.5) { Map::Uv(rng.rf(-8., 8.), rng.rf(-8., 8.), rng.rf(-2., 2.), rng.rf(-2., 2.)) } else { Map::Id([rng.logu(0.2, 8.) as f32, rng.rf(-180., 180.), rng.rf(-2., 2.), rng.rf(-2., 2.), rng.rf(-2., 2.)]) };
    Tx { map, a, b }
}
#[derive(Clone, Debug)]
pub enum TMat { Lambert(Tx<S3>), Mirror(Tx<S3>), Plastic(Tx<S3>, Tx<S3>, Tx<f32>), Metal(Tx<S3>, Tx<S3>, Tx<S3>, Tx<f32>, Tx<f32>), Glass(Tx<S3>, Tx<S3>, Tx<f32>, Tx<f32>, Tx<f32>) }
impl TMat {
    pub fn material(&self, p: Option<&Arc<Probe>>) -> Arc<dyn Material> {
        let s = |t: &Tx<S3>| -> Arc<TextureSpectrum> { Tx { map: t.map, a: spec(t.a), b: spec(t.b) }.build(p) };
        let f = |t: &Tx<f32>| -> Arc<TextureFloat> { t.build(p) };
        let m: Arc<dyn Material> = match self {
            TMat::Lambert(a) => Arc::new(LambertianReflectionMaterial::new(s(a))),
            TMat::Mirror(a) => Arc::new(MirrorMaterial::new(s(a))),
            TMat::Plastic(a, b, r) => Arc::new(PlasticMaterial::new(s(a), s(b), f(r))),
            TMat::Metal(a, b, c, u, v) => Arc::new(MetalMaterial::new(s(a), s(b), s(c), f(u), f(v))),
            TMat::Glass(a, b, e, u, v) => Arc::new(GlassMaterial::new(s(a), s(b), f(e), f(u), f(v))),
        };
        match p { Some(p) => Arc::new(WMat { inner: m, p: p.clone() }), None => m }
    }
}
/// any material, its parameters textured with probability `t`
pub fn tmat(rng: &mut Rng, lo: f64, t: f64) -> TMat {
    let dark = |rng: &mut Rng| -> S3 { if rng.chance(0.06) { let k = rng.logu(1e-30, 1e-3); q3([k; 3]) } else if rng.chance(0.1) { [0.; 3] } else { color(rng) } };
    let mut c = |rng: &mut Rng| { let (a, b) = (dark(rng), dark(rng)); tx(rng, a, b, t) };
    // both roughnesses vanish together
    fn r2(rng: &mut Rng, lo: f64, t: f64) -> (Tx<f32>, Tx<f32>) {
        let iso = rng.chance(0.5);
        let mut g = |rng: &mut Rng| -> (f32, f32) { if rng.chance(0.35) { (0., 0.) } else { let a = roughness(rng, lo) as f32; (a, if iso { a } else { roughness(rng, lo) as f32 }) } };
        let (a, b) = (g(rng), g(rng));
        let m = tx(rng, 0u8, 1u8, t).map;
        (Tx { map: m, a: a.0, b: b.0 }, Tx { map: m, a: a.1, b: b.1 })
    }
    match rng.below(7) {
        0 | 1 => TMat::Lambert(c(rng)),
        2 => TMat::Mirror(c(rng)),
        3 => { // never more than is received
            let (mut a, mut b) = (c(rng), c(rng));
            for k in 0..3 { let t = a.a[k].max(a.b[k]) + b.a[k].max(b.b[k]); if t > 1. { for x in [&mut a.a, &mut a.b, &mut b.a, &mut b.b] { x[k] = (x[k] / t) as f32 as f64; } } }
            TMat::Plastic(a, b, r2(rng, lo, t).0) }
        4 => { let (e1, k1) = metal(rng); let (e2, k2) = metal(rng); let r = r2(rng, lo, t); let m = tx(rng, 0u8, 1u8, t).map; TMat::Metal(c(rng), Tx { map: m, a: e1, b: e2 }, Tx { map: m, a: k1, b: k2 }, r.0, r.1) }
        _ => { let r = r2(rng, lo, t); let (a, b) = (c(rng), c(rng)); let smooth = r.0.a == 0. && r.0.b == 0.; let (x, y) = (if smooth && rng.chance(0.05) { 1. } else { index(rng) as f32 }, index(rng) as f32); TMat::Glass(a, b, tx(rng, x, y, t), r.0, r.1) }
    }
}

// ---------- scenes
#[derive(Clone, Debug)]
pub struct WObj { pub geo: Geo, pub mat: TMat, pub le: Option<S3> }
#[derive(Clone, Debug, Default)]
pub struct Wild { pub objs: Vec<WObj>, pub distants: Vec<(S3, V)>, pub rays: Vec<(V, V)> }

impl Wild {
    pub fn scene(&self, p: &Arc<Probe>, simple: bool, wrap_shapes: bool) -> Scene<WCont> {
        let mut b = pt::verif::scene::Builder::new();
        for o in &self.objs {
            let m = o.mat.material(Some(p));
            match (&o.geo, o.le) {
                (Geo::Tri { .. }, Some(l)) => b.add_area_light(pt::verif::light::AreaLight::new(spec(l), o.geo.triangle(m))),
                (g, _) => {
                    let s = g.shape_with(m);
                    if wrap_shapes { b.add_shape(WShape { inner: s, p: p.clone() }) } else { match g { Geo::Tri { .. } => b.add_shape(g.triangle(o.mat.material(Some(p)))), Geo::Sph { c, r } => b.add_shape(pt::verif::shape_sphere::Sphere::new(c.p(), *r as f32, o.mat.material(Some(p)))) } }
                }
            }
        }
        for (l, w) in &self.distants { b.add_light(WLight { inner: DistantLight::new(spec(*l), w.v()), p: p.clone() }); }
        let q = p.clone();
        b.construct(move |s| WCont { inner: if simple { Box::new(Simple::new(s)) } else { Box::new(KdTree::new(s, None)) }, p: q.clone() })
    }
}

/// a vertex-normal triple close to the geometric normal, or flipped, or strongly bent
fn vns(rng: &mut Rng, p: &[V; 3]) -> [V; 3] {
    let n = (p[1] - p[0]).cross(p[2] - p[0]).norm();
    let k = match rng.below(3) { 0 => 0.1, 1 => 0.5, _ => 0.9 };
    let s = if rng.chance(0.2) { -1. } else { 1. };
    let mut f = || ((n + dir(rng) * k) * s).norm().q();
    [f(), f(), f()]
}

pub const WILD_STYLES: u64 = 10;
pub fn wild(rng: &mut Rng, style: u64, lo: f64) -> Wild {
    let mut w = Wild::default();
    let t = *rng.pick(&[0., 0.3, 0.8]);
    let mut corners: Vec<V> = vec![];
    match style % WILD_STYLES {
        0 => { // closed mirror room, axis aligned
            let kr = *rng.pick(&[1., 1., 0.99, 0.5]);
            for o in room(v(-1., -1., -1.), v(1., 1., 1.), |_| (Mat::Mirror { kr: [kr; 3] }, None)) { w.objs.push(WObj { geo: o.geo, mat: TMat::Mirror(Tx { map: Map::Const, a: [kr; 3], b: [kr; 3] }), le: None }); }
            if rng.chance(0.5) { let m = tmat(rng, lo, t); w.objs.push(WObj { geo: Geo::sph(pt(rng, 0.5), 0.3), mat: m, le: None }); }
        }
        1 => { // dark mirrors and dark anything
            let mut k = [rng.logu(1e-38, 1e-2), 0., 0.]; if rng.chance(0.7) { k = [k[0]; 3]; }
            let m = if rng.chance(0.7) { TMat::Mirror(Tx { map: Map::Const, a: k, b: k }) } else { TMat::Lambert(Tx { map: Map::Const, a: k, b: k }) };
            for o in room(v(-1., -1., -1.), v(1., 1., 1.), |_| (Mat::Mirror { kr: k }, None)) { w.objs.push(WObj { geo: o.geo, mat: m.clone(), le: None }); }
        }
        2 => { // nested and overlapping spheres of glass
            let c = lat(rng, 1);
            for _ in 0..rng.int(1, 5) { let m = TMat::Glass(tx(rng, [1.; 3], [0.9; 3], t), tx(rng, [1.; 3], [0.9; 3], t), tx(rng, index(&mut rng.clone()) as f32, 1.5, t), Tx { map: Map::Const, a: 0., b: 0. }, Tx { map: Map::Const, a: 0., b: 0. }); let d = if rng.chance(0.5) { v(0., 0., 0.) } else { pt(rng, 0.7) }; w.objs.push(WObj { geo: Geo::sph(c + d, rng.range(0.2, 2.)), mat: m, le: None }); }
        }
        3 => { // coincident and duplicated shapes
            let g = scene(rng, 4, 30);
            for x in g { let m = tmat(rng, lo, t); w.objs.push(WObj { geo: x, mat: m, le: None }); }
        }
        4 | 5 => { // any generated geometry with any material
            let st = rng.below(STYLES);
            for x in scene(rng, st, 40) { let m = tmat(rng, lo, t); w.objs.push(WObj { geo: x, mat: m, le: None }); }
        }
        6 => { // bent triangles
            for _ in 0..rng.int(2, 20) { let c = pt(rng, 3.); let mut g = rand_tri(rng, c, 3.); if let Geo::Tri { p, vn, rev } = &mut g { *vn = Some(vns(rng, p)); *rev = rng.chance(0.3); } let m = tmat(rng, lo, t); w.objs.push(WObj { geo: g, mat: m, le: None }); }
        }
        7 => { // unit spheres at lattice points, seen along axes and through poles
            for _ in 0..rng.int(1, 6) { let m = tmat(rng, lo, t); w.objs.push(WObj { geo: Geo::sph(lat(rng, 3), *rng.pick(&[0.5, 1., 2.])), mat: m, le: None }); }
            for g in quad(2, -3., (-6., -6.), (6., 6.)) { let m = tmat(rng, lo, t); w.objs.push(WObj { geo: g, mat: m, le: None }); }
        }
        8 => { // furnished room
            let (f, o, d) = furnished(rng, lo, false);
            for x in f.objs { let m = tmat(rng, lo, t); w.objs.push(WObj { geo: x.geo, mat: m, le: x.le }); }
            w.distants = f.distants; w.rays.push((o, d));
        }
        _ => { // closed room of anything
            let s = rng.logu(0.3, 30.); let ms: Vec<TMat> = (0..6).map(|_| tmat(rng, lo, t)).collect();
            for (i, g) in cube(v(-s, -s, -s), v(s, s, s)).into_iter().enumerate() { w.objs.push(WObj { geo: g, mat: ms[i / 2].clone(), le: None }); }
            for _ in 0..rng.int(0, 3) { let m = tmat(rng, lo, t); w.objs.push(WObj { geo: Geo::sph(pt(rng, 0.6 * s), s * rng.range(0.05, 0.5)), mat: m, le: None }); }
        }
    }
    let geos: Vec<Geo> = w.objs.iter().map(|o| o.geo.clone()).collect();
    let (b0, b1) = bounds(&geos);
    let ext = (b1 - b0).maxabs().max(1e-3);
    let mid = (b0 + b1) * 0.5;
    // lights
    for o in &mut w.objs { if let Geo::Tri { .. } = o.geo { if rng.chance(0.1) { o.le = Some(q3([rng.logu(1e-3, 30.), rng.f64(), 0.])); } } }
    for _ in 0..rng.below(3) { let c = mid + pt(rng, 0.6 * ext); let g = rand_tri(rng, c, 0.5 * ext); let m = tmat(rng, lo, t); w.objs.push(WObj { geo: g, mat: m, le: Some(q3([rng.logu(1e-3, 30.); 3])) }); }
    for _ in 0..rng.below(3) { let d = match rng.below(3) { 0 => { let mut d = v(0., 0., 0.); d[rng.below(3)] = if rng.chance(0.5) { 1. } else { -1. }; d } _ => dir(rng) * rng.logu(0.1, 10.) }; w.distants.push((q3([rng.logu(1e-3, 30.); 3]), d.q())); }
    // rays at awkward places
    for o in &w.objs { match &o.geo { Geo::Tri { p, .. } => { corners.extend(p.iter().cloned()); corners.push((p[0] + p[1]) * 0.5); } Geo::Sph { c, r } => { corners.push(*c); for k in 0..3 { for s in [-1., 1.] { let mut q = *c; q[k] += s * r; corners.push(q); } } } } }
    for _ in 0..24 {
        let c = corners[rng.below(corners.len())];
        let c2 = corners[rng.below(corners.len())];
        let q = w.objs[rng.below(w.objs.len())].geo.point(rng);
        let mut ax = v(0., 0., 0.); ax[rng.below(3)] = if rng.chance(0.5) { 1. } else { -1. };
        let (o, d) = match rng.below(8) {
            0 => (c, dir(rng)),                              // starting at a vertex, pole or centre
            1 => (c - ax * ext, ax),                         // along an axis through one
            2 => (c, ax),
            3 => (mid + pt(rng, ext), c - mid),              // anywhere
            4 => { let o = mid + pt(rng, ext); (o, c - o) }  // aimed at a vertex
            5 => (c, c2 - c),                                // along edges and diagonals
            6 => (q, dir(rng)),                              // from a surface
            _ => { let o = mid + pt(rng, 2. * ext); (o, q - o) }
        };
        let d = if d.len() > 1e-6 { d.norm() } else { ax };
        w.rays.push((o.q(), d.q()));
    }
    w
}

/// A perspective camera somewhere around, inside or on the scene.
pub fn persp(rng: &mut Rng, w: &Wild, res: (u32, u32)) -> PerspectiveCamera {
    loop {
        let (o, d) = w.rays[rng.below(w.rays.len())];
        let look = (o + d * rng.logu(0.5, 10.)).q();
        let up = if rng.chance(0.5) { v(0., 0., 1.) } else { dir(rng).q() };
        if up.cross(look - o).len() < 0.02 * (look - o).len() { continue; }
        let asp = res.0 as f32 / res.1 as f32;
        let fov = *rng.pick(&[1f32, 20., 60., 90., 120., 170.]);
        return PerspectiveCamera::new(Transform::look_at(o.p(), look.p(), up.v()), Transform::perspective(fov, 0.01, 1000.), BBox2f::new(Point2f::new(-asp, -1.), Point2f::new(asp, 1.)), Point2u::new(res.0, res.1));
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Flt { Flat(f32), Gauss(f32, f32) }
struct Dyn(Box<dyn Filter>);
impl Filter for Dyn { fn radius(&self) -> f32 { self.0.radius() } fn evaluate(&self, p: Point2f) -> f32 { self.0.evaluate(p) } }
impl Flt {
    pub fn film(&self, res: (u32, u32)) -> Film {
        let f: Box<dyn Filter> = match *self { Flt::Flat(r) => Box::new(Flat(r)), Flt::Gauss(r, a) => Box::new(GaussianFilter::new(r, a)) };
        Film::new(Point2u::new(res.0, res.1), Dyn(f))
    }
}

pub type Pixels = Vec<(Spectrum, f32)>;

/// One render; `err` tells that render() panicked.
pub fn shoot(sc: Scene<WCont>, cam: Cam, smp: Smp, film: Film, threads: u8, p: &Arc<Probe>) -> (Arc<Film>, bool) {
    shoot2(sc, cam, smp, film, &[threads], p)
}
/// Several renders of one integrator.
pub fn shoot2(sc: Scene<WCont>, cam: Cam, smp: Smp, film: Film, threads: &[u8], p: &Arc<Probe>) -> (Arc<Film>, bool) {
    let i = Integrator::new(sc, WSmp { inner: smp, p: p.clone() }, WCam { inner: cam, p: p.clone() }, film);
    let f = i.verif_film();
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| for t in threads { i.render(*t) })).is_ok();
    (f, !ok)
}
#[allow(unused)] fn unused(_: Triangle) {}
