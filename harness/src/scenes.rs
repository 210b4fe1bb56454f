//! Whole scenes described once and built twice: as pt.rs scenes and for an independent f64 path tracer.
use crate::fw::{hash, Rng};
use crate::gen::*;
use crate::geo::*;
use crate::mats::*;
use pt::verif::camera::{Camera, CameraSample};
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::film::Film;
use pt::verif::filter::Filter;
use pt::verif::integrator::Integrator;
use pt::verif::light::{AreaLight, DistantLight};
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::sampler::Sampler;
use pt::verif::scene::{Builder, Scene};
use pt::verif::shape_sphere::Sphere;
use pt::verif::vector::*;
use std::f64::consts::PI;
use std::sync::Arc;

/// Box filter.
pub struct Flat(pub f32);
impl Filter for Flat { fn radius(&self) -> f32 { self.0 } fn evaluate(&self, _: Point2f) -> f32 { 1. } }

/// Camera that always sends the same ray.
#[derive(Clone)]
pub struct RayCam { pub o: V, pub d: V }
impl Camera for RayCam {
    fn generate_ray(&self, _: &CameraSample) -> Ray { let mut r = Ray::default(); r.origin = self.o.p(); r.direction = self.d.v(); r }
}

/// Deterministic pseudo-random sampler: a value depends on (seed, pixel, sample, dimension) only.
#[derive(Clone)]
pub struct HSampler { pub seed: u64, pub spp: u32, k: u32, base: u64, dim: u64 }
impl HSampler { pub fn new(seed: u64, spp: u32) -> HSampler { HSampler { seed, spp, k: 0, base: 0, dim: 0 } } }
impl Sampler for HSampler {
    fn start_pixel(&mut self, p: Point2i) { self.base = hash(&[self.seed, p.x as u64, p.y as u64]); self.k = 0; self.dim = 0; }
    fn start_next_sample(&mut self) -> bool { self.k += 1; self.dim = 0; self.k < self.spp }
    fn get_1d(&mut self) -> f32 { self.dim += 1; (hash(&[self.base, self.k as u64, self.dim]) >> 40) as f32 / (1u64 << 24) as f32 }
    fn get_2d(&mut self) -> Point2f { let x = self.get_1d(); let y = self.get_1d(); Point2f::new(x, y) }
}

#[derive(Clone)]
pub struct Obj { pub geo: Geo, pub mat: Mat, pub le: Option<S3>, pub over: Option<Arc<dyn Material>> }
impl Obj {
    pub fn new(geo: Geo, mat: Mat) -> Obj { Obj { geo, mat, le: None, over: None } }
    pub fn light(geo: Geo, mat: Mat, le: S3) -> Obj { Obj { geo, mat, le: Some(q3(le)), over: None } }
}
impl std::fmt::Debug for Obj { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?} {:?} le {:?}", self.geo, self.mat, self.le) } }

#[derive(Clone, Default, Debug)]
pub struct World { pub objs: Vec<Obj>, pub distants: Vec<(S3, V)> }

impl World {
    pub fn builder(&self) -> Builder {
        let mut b = Builder::new();
        for o in &self.objs {
            let m = o.over.clone().unwrap_or_else(|| o.mat.material());
            match (&o.geo, o.le) {
                (Geo::Tri { .. }, Some(l)) => b.add_area_light(AreaLight::new(spec(l), o.geo.triangle(m))),
                (Geo::Tri { .. }, None) => b.add_shape(o.geo.triangle(m)),
                (Geo::Sph { c, r }, _) => b.add_shape(Sphere::new(c.p(), *r as f32, m)),
            }
        }
        for (l, w) in &self.distants { b.add_light(DistantLight::new(spec(*l), w.v())); }
        b
    }
    pub fn kd(&self) -> Scene<KdTree> { self.builder().construct(|s| KdTree::new(s, None)) }
    pub fn simple(&self) -> Scene<Simple> { self.builder().construct(|s| Simple::new(s)) }

    /// independent estimates of the radiance along a ray, one per pixel of a film
    pub fn radiance(&self, o: V, d: V, side: u32, spp: u32, seed: u64, threads: u8, simple: bool) -> Est {
        let film = Film::new(Point2u::new(side, side), Flat(0.5));
        let s = HSampler::new(seed, spp);
        let cam = RayCam { o, d };
        fn go<C: Container + 'static>(sc: Scene<C>, s: HSampler, cam: RayCam, film: Film, threads: u8) -> Est {
            let i = Integrator::new(sc, s, cam, film);
            i.render(threads);
            let px = i.verif_film().verif_pixels();
            let mut e = Est::default();
            for (c, w) in px { e.weight += w as f64; e.push([c.r as f64 / w as f64, c.g as f64 / w as f64, c.b as f64 / w as f64]); }
            e
        }
        if simple { go(self.simple(), s, cam, film, threads) } else { go(self.kd(), s, cam, film, threads) }
    }

    // ---------- f64 reference
    pub fn hit(&self, o: V, d: V, tmax: f64, skip: Option<usize>) -> Option<(usize, f64)> {
        let mut best: Option<(usize, f64)> = None;
        for (k, x) in self.objs.iter().enumerate() {
            if skip == Some(k) && matches!(x.geo, Geo::Tri { .. }) { continue; }
            let t = match &x.geo { Geo::Tri { p, .. } => fast_tri(p, o, d), Geo::Sph { c, r } => fast_sph(*c, *r, o, d, skip == Some(k)) };
            if let Some(t) = t { if t > 0. && t < tmax && best.map_or(true, |b| t < b.1) { best = Some((k, t)); } }
        }
        best
    }
    pub fn normal(&self, k: usize, p: V) -> V {
        match &self.objs[k].geo {
            Geo::Tri { p, rev, .. } => { let n = (p[1] - p[0]).cross(p[2] - p[0]).norm(); if *rev { -n } else { n } }
            Geo::Sph { c, .. } => (p - *c).norm(),
        }
    }
    /// like `blocked`, not counting a target triangle
    pub fn blocked2(&self, p: V, d: V, tmax: f64, skip: usize, target: usize) -> bool {
        self.objs.iter().enumerate().any(|(k, x)| {
            if k == target { return false; }
            let t = match &x.geo { Geo::Tri { p: q, .. } => if k == skip { None } else { fast_tri(q, p, d) }, Geo::Sph { c, r } => fast_sph(*c, *r, p, d, skip == k) };
            t.map_or(false, |t| t > 0. && t < tmax)
        })
    }
    pub fn blocked(&self, p: V, d: V, tmax: f64, skip: usize) -> bool { self.hit(p, d, tmax, Some(skip)).is_some() }

    /// One random path of the reference tracer: emission found by scattering only, distant lights by shadow rays.
    pub fn ref_path(&self, rng: &mut Rng, mut o: V, mut d: V) -> S3 {
        let mut l = [0.; 3];
        let mut beta = [1.; 3];
        let mut skip = None;
        for bounce in 0..66 {
            let (k, t) = match self.hit(o, d, f64::INFINITY, skip) { Some(h) => h, None => break };
            let p = o + d * t;
            let n = self.normal(k, p);
            let wo = -d;
            if let Some(le) = self.objs[k].le { if wo.dot(n) > 0. { l = add3(l, mul3(beta, le)); } }
            if bounce == 65 { break; }
            let lobes = self.objs[k].mat.lobes();
            if lobes.is_empty() { break; }
            let (s, tt) = onb(n);
            let loc = |w: V| v(w.dot(s), w.dot(tt), w.dot(n));
            let wl = loc(wo);
            for (ll, w) in &self.distants {
                let w = w.norm();
                let i = loc(w);
                let mut f = [0.; 3];
                for lb in &lobes { if !lb.specular() { f = add3(f, lb.f(wl, i)); } }
                if max3(f) > 0. && !self.blocked(p, w, f64::INFINITY, k) { l = add3(l, sc3(mul3(mul3(beta, f), *ll), i.z.abs())); }
            }
            let lb = &lobes[rng.below(lobes.len())];
            let nl = lobes.len() as f64;
            let (wi, w) = match *lb {
                Lobe::SpecR(r, fr) => (v(-wl.x, -wl.y, wl.z), mul3(r, fr.eval(wl.z.abs(), wl.z > 0.))),
                Lobe::SpecT(tr, eta) => {
                    let (no, ni) = if wl.z > 0. { (1., eta) } else { (eta, 1.) };
                    let e = no / ni;
                    let k = 1. - e * e * (1. - wl.z * wl.z);
                    if k <= 0. { break; }
                    let wi = v(-wl.x * e, -wl.y * e, -k.sqrt() * wl.z.signum());
                    (wi, sc3(tr, (1. - fr_diel(wl.z.abs(), no, ni)) * e * e))
                }
                _ => {
                    let wi = match lobe_dir(lb, wl, [rng.f64(), rng.f64()]) { Some(w) => w, None => break };
                    let q = lobe_density(lb, wl, wi);
                    if !(q > 0.) || wi.z == 0. { break; }
                    (wi, sc3(lb.f(wl, wi), wi.z.abs() / q))
                }
            };
            if max3(w) == 0. { break; }
            beta = sc3(mul3(beta, w), nl);
            d = s * wi.x + tt * wi.y + n * wi.z;
            d = d.norm();
            o = p; skip = Some(k);
            if bounce >= 6 { let q = max3(beta).min(0.95); if rng.f64() >= q { break; } beta = sc3(beta, 1. / q); }
        }
        l
    }
    pub fn reference(&self, o: V, d: V, n: usize, seed: u64) -> Est {
        let mut e = Est::default();
        for b in 0..64u64 {
            let mut rng = Rng::new(hash(&[seed, b]));
            let m = (n / 64).max(1);
            let mut s = [0.; 3];
            for _ in 0..m { s = add3(s, self.ref_path(&mut rng, o, d)); }
            e.push(sc3(s, 1. / m as f64));
        }
        e
    }
}

fn fast_tri(p: &[V; 3], o: V, d: V) -> Option<f64> {
    let (e1, e2) = (p[1] - p[0], p[2] - p[0]);
    let h = d.cross(e2);
    let a = e1.dot(h);
    if a == 0. { return None; }
    let s = o - p[0];
    let u = s.dot(h) / a;
    if u < 0. || u > 1. { return None; }
    let q = s.cross(e1);
    let w = d.dot(q) / a;
    if w < 0. || u + w > 1. { return None; }
    Some(e2.dot(q) / a)
}
fn fast_sph(c: V, r: f64, o: V, d: V, on: bool) -> Option<f64> {
    let oc = o - c;
    let b = oc.dot(d) / d.dot(d);
    let h = b * b - (oc.dot(oc) - r * r) / d.dot(d);
    if h <= 0. { return None; }
    let s = h.sqrt();
    let eps = if on { 1e-9 * r } else { 0. };
    if -b - s > eps { return Some(-b - s); }
    // leaving from the surface: the other crossing, if ahead
    if -b + s > if on { 1e-7 * r } else { 0. } { return Some(-b + s); }
    None
}

/// Mean of independent estimates with its standard error.
#[derive(Clone, Debug, Default)]
pub struct Est { pub n: f64, s: S3, s2: S3, pub weight: f64 }
impl Est {
    pub fn push(&mut self, x: S3) { self.n += 1.; self.s = add3(self.s, x); self.s2 = add3(self.s2, mul3(x, x)); }
    pub fn mean(&self) -> S3 { sc3(self.s, 1. / self.n) }
    pub fn se(&self) -> S3 { let m = self.mean(); let mut r = [0.; 3]; for k in 0..3 { r[k] = ((self.s2[k] / self.n - m[k] * m[k]).max(0.) / (self.n - 1.)).sqrt(); } r }
}

// ---------- random worlds

pub fn tri_facing(p: [V; 3], to: V, mut le: Obj) -> Obj {
    let n = (p[1] - p[0]).cross(p[2] - p[0]);
    let flip = n.dot(to - p[0]) < 0.;
    if let Geo::Tri { rev, .. } = &mut le.geo { *rev = flip; }
    le
}

/// closed box (12 triangles) with normals towards the inside
pub fn room(lo: V, hi: V, mut f: impl FnMut(usize) -> (Mat, Option<S3>)) -> Vec<Obj> {
    let c = (lo + hi) * 0.5;
    cube(lo, hi).into_iter().enumerate().map(|(i, g)| {
        let (mat, le) = f(i);
        let p = match &g { Geo::Tri { p, .. } => *p, _ => unreachable!() };
        tri_facing(p, c, Obj { geo: g, mat, le: le.map(q3), over: None })
    }).collect()
}

/// A small furnished scene with a bit of everything; `lo` is the smallest roughness.
pub fn furnished(rng: &mut Rng, lo: f64, iso: bool) -> (World, V, V) {
    let mut w = World::default();
    let closed = rng.chance(0.5);
    let s = 4.;
    let mut m = |rng: &mut Rng| -> Mat {
        let k = *rng.pick(&[0usize, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7]);
        let mut m = mat_kind(rng, k, lo);
        if iso { match &mut m { Mat::Metal { ru, rv, .. } | Mat::Glass { ru, rv, .. } => *rv = *ru, _ => () } }
        // physically plausible: never more than is received
        if let Mat::Plastic { kd, ks, .. } = &mut m { for c in 0..3 { let t = kd[c] + ks[c]; if t > 0.9 { kd[c] = (kd[c] * 0.9 / t) as f32 as f64; ks[c] = (ks[c] * 0.9 / t) as f32 as f64; } } }
        m
    };
    if closed {
        let wall = Mat::Lambert { kd: q3([rng.range(0., 0.7), rng.range(0., 0.7), rng.range(0., 0.7)]) };
        w.objs.extend(room(v(-s, -s, -s), v(s, s, s), |_| (wall.clone(), None)));
    } else {
        let fl = m(rng);
        for g in quad(2, -2., (-s, -s), (s, s)) { w.objs.push(Obj::new(g, fl.clone())); }
    }
    for _ in 0..rng.int(1, 6) {
        let mat = m(rng);
        let c = pt(rng, 2.2);
        match rng.below(4) {
            0 | 1 => w.objs.push(Obj::new(Geo::sph(c, rng.range(0.3, 1.2)), mat)),
            2 => w.objs.push(Obj::new(rand_tri(rng, c, 1.5), mat)),
            _ => { let h = v(rng.range(0.2, 0.8), rng.range(0.2, 0.8), rng.range(0.2, 0.8)); for g in cube(c - h, c + h) {
                // normals towards the outside
                let p = match &g { Geo::Tri { p, .. } => *p, _ => unreachable!() };
                let mut o = tri_facing(p, c, Obj::new(g, mat.clone())); if let Geo::Tri { rev, .. } = &mut o.geo { *rev = !*rev; } w.objs.push(o); } }
        }
    }
    let nl = rng.int(1, 3);
    for _ in 0..nl {
        let le = q3([rng.range(0.2, 4.), rng.range(0.2, 4.), rng.range(0.2, 4.)]);
        let c = v(rng.range(-2., 2.), rng.range(-2., 2.), rng.range(1.5, 3.));
        let mat = if rng.chance(0.5) { Mat::Lambert { kd: [0.; 3] } } else { Mat::Lambert { kd: q3([0.5; 3]) } };
        let g = rand_tri(rng, c, 2.5);
        let p = match &g { Geo::Tri { p, .. } => *p, _ => unreachable!() };
        w.objs.push(tri_facing(p, v(0., 0., -1.), Obj { geo: g, mat, le: Some(le), over: None }));
    }
    if rng.chance(0.4) { w.distants.push((q3([rng.range(0.2, 2.); 3]), (dir(rng) + v(0., 0., 1.2)).q())); }
    // view ray
    let o = if closed { v(rng.range(-3.5, 3.5), rng.range(-3.5, 3.5), rng.range(-3.5, 3.5)) } else { dir(rng) * 9. + v(0., 0., 3.) };
    let t = if rng.chance(0.3) { pt(rng, 3.) } else { let k = rng.below(w.objs.len()); w.objs[k].geo.point(rng) };
    let d = (t - o).norm();
    (w, o.q(), d.q())
}

/// Compare an estimate of the renderer with a reference value; returns (z, relative difference) of the worst channel.
/// `tail` is an upper bound of the variance contributed by radiance of up to 1e-3 that arrives in rare large samples
/// (roulette lets a path of throughput q through with probability q), which the standard error of few samples misses.
pub fn compare_tail(e: &Est, mean: S3, se: S3, tail: f64) -> (f64, f64) {
    let (m, s) = (e.mean(), e.se());
    let mut r = (0f64, 0f64);
    for k in 0..3 {
        let d = (m[k] - mean[k]).abs();
        let sd = (s[k] * s[k] + se[k] * se[k] + tail * mean[k].max(m[k]).min(1e-3)).sqrt() + 1e-5 * mean[k].max(m[k]) + 1e-12;
        let z = d / sd;
        if z.is_nan() || z > r.0 { r = (if z.is_nan() { f64::INFINITY } else { z }, d / mean[k].max(1e-9)); }
    }
    r
}
pub fn compare(e: &Est, mean: S3, se: S3) -> (f64, f64) { compare_tail(e, mean, se, 0.) }
#[allow(unused)] const _: f64 = PI;

/// f64 description of a perspective camera
#[derive(Clone, Debug)]
pub struct View { pub pos: V, pub ax: [V; 3], pub win: [f64; 4], pub tan: f64, pub res: (u32, u32) }

impl View {
    /// camera coordinates (right, up, ahead)
    pub fn cam(&self, p: V) -> V { let d = p - self.pos; v(d.dot(self.ax[0]), d.dot(self.ax[1]), d.dot(self.ax[2])) }
    pub fn raster(&self, q: V) -> (f64, f64) {
        let (sx, sy) = (q.x / q.z / self.tan, q.y / q.z / self.tan);
        let [x0, x1, y0, y1] = self.win;
        ((sx - x0) / (x1 - x0) * self.res.0 as f64, (y1 - sy) / (y1 - y0) * self.res.1 as f64)
    }
    /// direction through a film position, one unit ahead
    pub fn ahead(&self, x: f64, y: f64) -> V {
        let [x0, x1, y0, y1] = self.win;
        v((x0 + x / self.res.0 as f64 * (x1 - x0)) * self.tan, (y1 - y / self.res.1 as f64 * (y1 - y0)) * self.tan, 1.)
    }
}
