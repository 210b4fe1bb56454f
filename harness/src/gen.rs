//! Generators of shapes, scenes and rays with their f64 description.
use crate::fw::Rng;
use crate::geo::*;
use crate::synth::SMat;
use pt::verif::ray::Ray;
use pt::verif::shape::Shape;
use pt::verif::shape_sphere::Sphere;
use pt::verif::shape_triangle::Triangle;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Geo { Tri { p: [V; 3], vn: Option<[V; 3]>, rev: bool }, Sph { c: V, r: f64 } }

impl Geo {
    pub fn tri(p: [V; 3]) -> Geo { Geo::Tri { p: [p[0].q(), p[1].q(), p[2].q()], vn: None, rev: false } }
    pub fn sph(c: V, r: f64) -> Geo { Geo::Sph { c: c.q(), r: r as f32 as f64 } }
    pub fn shape(&self) -> Arc<dyn Shape> { self.shape_with(Arc::new(SMat {})) }
    pub fn shape_with(&self, m: Arc<dyn pt::verif::material::Material>) -> Arc<dyn Shape> {
        match self {
            Geo::Tri { .. } => Arc::new(self.triangle(m)),
            Geo::Sph { c, r } => Arc::new(Sphere::new(c.p(), *r as f32, m)),
        }
    }
    pub fn triangle(&self, m: Arc<dyn pt::verif::material::Material>) -> Triangle {
        match self {
            Geo::Tri { p, vn, rev } => Triangle::new([p[0].p(), p[1].p(), p[2].p()], vn.map(|n| [n[0].n(), n[1].n(), n[2].n()]), *rev, m),
            _ => panic!("not a triangle"),
        }
    }
    pub fn isect(&self, o: V, d: V, tmax: f64) -> Ref {
        match self { Geo::Tri { p, .. } => ref_tri(*p, o, d, tmax), Geo::Sph { c, r } => ref_sphere(*c, *r, o, d, tmax) }
    }
    pub fn point(&self, rng: &mut Rng) -> V {
        match self {
            Geo::Tri { p, .. } => { let a = rng.f64().sqrt(); let b = rng.f64(); p[0] * (1. - a) + p[1] * (a * (1. - b)) + p[2] * (a * b) }
            Geo::Sph { c, r } => *c + dir(rng) * *r,
        }
    }
    pub fn lo(&self) -> V { match self { Geo::Tri { p, .. } => vmin(vmin(p[0], p[1]), p[2]), Geo::Sph { c, r } => *c - v(*r, *r, *r) } }
    pub fn hi(&self) -> V { match self { Geo::Tri { p, .. } => vmax(vmax(p[0], p[1]), p[2]), Geo::Sph { c, r } => *c + v(*r, *r, *r) } }
    /// smallest altitude over largest coordinate extent: how well conditioned the triangle is
    pub fn quality(&self) -> f64 {
        match self {
            Geo::Tri { p, .. } => {
                let a = (p[1] - p[0]).cross(p[2] - p[0]).len();
                let e = (0..3).map(|i| (p[i] - p[(i + 1) % 3]).len()).fold(0., f64::max);
                let m = (0..3).map(|i| p[i].maxabs()).fold(e, f64::max);
                if e == 0. { 0. } else { a / e / m }
            }
            Geo::Sph { c, r } => r / (c.maxabs() + r),
        }
    }
}

pub fn vmin(a: V, b: V) -> V { v(a.x.min(b.x), a.y.min(b.y), a.z.min(b.z)) }
pub fn vmax(a: V, b: V) -> V { v(a.x.max(b.x), a.y.max(b.y), a.z.max(b.z)) }

pub fn dir(rng: &mut Rng) -> V {
    loop { let d = v(rng.range(-1., 1.), rng.range(-1., 1.), rng.range(-1., 1.)); let l = d.len(); if l > 0.01 && l <= 1. { return d / l; } }
}
pub fn pt(rng: &mut Rng, s: f64) -> V { v(rng.range(-s, s), rng.range(-s, s), rng.range(-s, s)) }
/// lattice point
pub fn lat(rng: &mut Rng, n: i64) -> V { v(rng.int(-n, n) as f64, rng.int(-n, n) as f64, rng.int(-n, n) as f64) }

pub fn rand_tri(rng: &mut Rng, center: V, size: f64) -> Geo {
    let mut n = 0;
    let mut size = size;
    loop {
        let g = Geo::tri([center + pt(rng, size), center + pt(rng, size), center + pt(rng, size)]);
        if g.quality() > 1e-4 { return g; }
        n += 1;
        if n > 100 { size *= 2.; n = 0; }
    }
}

/// axis-aligned quad as two triangles: axis k fixed at c
pub fn quad(k: usize, c: f64, lo: (f64, f64), hi: (f64, f64)) -> Vec<Geo> {
    let m = |a: f64, b: f64| { let mut r = v(0., 0., 0.); r[k] = c; r[(k + 1) % 3] = a; r[(k + 2) % 3] = b; r };
    let (a, b, d, e) = (m(lo.0, lo.1), m(hi.0, lo.1), m(hi.0, hi.1), m(lo.0, hi.1));
    vec![Geo::tri([a, b, d]), Geo::tri([a, d, e])]
}
pub fn cube(lo: V, hi: V) -> Vec<Geo> {
    let mut r = vec![];
    for k in 0..3 { for c in [lo[k], hi[k]] { r.extend(quad(k, c, (lo[(k + 1) % 3], lo[(k + 2) % 3]), (hi[(k + 1) % 3], hi[(k + 2) % 3]))); } }
    r
}

pub const STYLES: usize = 12;

/// A set of shapes; all triangles well conditioned.
pub fn scene(rng: &mut Rng, style: usize, max: usize) -> Vec<Geo> {
    let n = match rng.below(6) { 0 => 1 + rng.below(3), 1 => 4 + rng.below(12), _ => 10 + rng.below(max.max(11) - 10) };
    let mut g: Vec<Geo> = vec![];
    match style % STYLES {
        0 => for _ in 0..n { let c = pt(rng, 10.); let s = rng.logu(0.05, 1.); g.push(rand_tri(rng, c, s)); },
        1 => for _ in 0..n { let c = pt(rng, 5.); g.push(rand_tri(rng, c, 8.)); },
        2 => for _ in 0..n { let c = pt(rng, 10.); if rng.chance(0.5) { let r = rng.logu(0.05, 4.); g.push(Geo::sph(c, r)); } else { g.push(rand_tri(rng, c, 2.)); } },
        3 => while g.len() < n { let k = rng.below(3); let c = rng.int(-4, 4) as f64; let (a, b) = (rng.int(-5, 4) as f64, rng.int(-5, 4) as f64); let (w, h) = (rng.int(1, 3) as f64, rng.int(1, 3) as f64); g.extend(quad(k, c, (a, b), (a + w, b + h))); },
        4 => { let m = 1 + n / 6; for _ in 0..m { let c = pt(rng, 5.); if rng.chance(0.3) { g.push(Geo::sph(c, 1.)); } else { g.push(rand_tri(rng, c, 2.)); } } while g.len() < n { let x = g[rng.below(m)].clone(); g.push(x); } }
        5 => { let c = lat(rng, 3); let mut s = 8.; while g.len() < n && s > 0.05 { if rng.chance(0.5) { g.push(Geo::sph(c, s)); } else { let w = v(s, s, s); g.extend(cube(c - w, c + w)); } s *= rng.range(0.6, 1.); } }
        6 => { let k = rng.below(3); let c = rng.int(-3, 3) as f64; while g.len() < n { let (a, b) = (rng.range(-5., 5.), rng.range(-5., 5.)); g.extend(quad(k, c, (a, b), (a + rng.range(0.1, 3.), b + rng.range(0.1, 3.)))); } }
        7 => { let c = pt(rng, 40.); g.extend(cube(v(-50., -50., -50.), v(50., 50., 50.))); for _ in 0..n { let d = pt(rng, 0.5); g.push(rand_tri(rng, c + d, 0.3)); } }
        8 => { let m = ((n as f64 / 2.).sqrt() as i64).max(1); let mut h = vec![]; for _ in 0..(m + 1) * (m + 1) { h.push(rng.range(-1., 1.)); }
            let f = |i: i64, j: i64| v(i as f64 - m as f64 / 2., j as f64 - m as f64 / 2., h[(i * (m + 1) + j) as usize]);
            for i in 0..m { for j in 0..m { g.push(Geo::tri([f(i, j), f(i + 1, j), f(i + 1, j + 1)])); g.push(Geo::tri([f(i, j), f(i + 1, j + 1), f(i, j + 1)])); } } }
        9 => while g.len() < n { let t = Geo::tri([lat(rng, 4), lat(rng, 4), lat(rng, 4)]); if t.quality() > 1e-3 { g.push(t); } if rng.chance(0.2) { g.push(Geo::sph(lat(rng, 4), rng.int(1, 3) as f64)); } },
        10 => { g.push(Geo::sph(pt(rng, 2.), 1.)); for _ in 0..n { let c = v(rng.range(-10., 10.), 0., 0.); g.push(rand_tri(rng, c, 0.4)); } }
        _ => for _ in 0..n { // long slabs crossing many cells
            let c = pt(rng, 5.); let d = dir(rng); let (s, t) = onb(d); let l = rng.range(2., 12.); let w = rng.logu(0.05, 1.);
            g.push(Geo::tri([c - d * l, c + d * l + s * w, c + d * l + t * w])); }
    }
    // placement
    if rng.chance(0.4) {
        let s = 2f64.powi(rng.int(-6, 8) as i32);
        let o = if rng.chance(0.5) { v(0., 0., 0.) } else { pt(rng, 20. * s) };
        g = g.into_iter().map(|x| match x {
            Geo::Tri { p, vn, rev } => { let mut t = Geo::tri([p[0] * s + o, p[1] * s + o, p[2] * s + o]); if let Geo::Tri { vn: ref mut a, rev: ref mut b, .. } = t { *a = vn; *b = rev; } t }
            Geo::Sph { c, r } => Geo::sph(c * s + o, r * s),
        }).collect();
    }
    g.retain(|x| x.quality() > 1e-5);
    if g.is_empty() { g.push(Geo::sph(v(0., 0., 0.), 1.)); }
    g
}

/// Large sets: many nodes, full leaves, long rows. `k` selects the kind, `n` the size.
pub fn huge(rng: &mut Rng, k: usize, n: usize) -> Vec<Geo> {
    let mut g = vec![];
    match k % 5 {
        0 => for _ in 0..n { let c = pt(rng, 100.); if rng.chance(0.5) { g.push(Geo::sph(c, rng.range(0.1, 1.))); } else { g.push(rand_tri(rng, c, 1.)); } },
        1 => { let ax = rng.below(3); for i in 0..n { // a stack of equal triangles
            let z = i as f64; let f = |a: f64, b: f64| { let mut r = v(0., 0., 0.); r[ax] = z; r[(ax + 1) % 3] = a; r[(ax + 2) % 3] = b; r };
            g.push(Geo::tri(if rng.chance(0.3) { [f(-1., -1.), f(1., -1.), f(0., 1.)] } else { let (x, y) = (rng.int(-3, 3) as f64, rng.int(-3, 3) as f64); [f(x, y), f(x + 1., y), f(x, y + 1.)] })); } }
        2 => for _ in 0..n { let c = lat(rng, 1); g.push(if rng.chance(0.2) { Geo::sph(c, 1.) } else { rand_tri(rng, c, 4.) }); }, // everything overlaps
        3 => { let ax = rng.below(3); for _ in 0..n { let (a, b) = (rng.range(-50., 50.), rng.range(-50., 50.)); g.extend(quad(ax, 2., (a, b), (a + rng.range(0.1, 3.), b + rng.range(0.1, 3.)))); } } // one plane
        _ => for _ in 0..n { let c = pt(rng, 50.); let d = pt(rng, 1.); let l = rng.logu(0.1, 60.); g.push(Geo::tri([c, c + d * l, c + d * (0.5 * l) + pt(rng, 0.05 * l)])); }
    }
    g.retain(|x| x.quality() > 1e-4);
    g
}

pub fn bounds(g: &[Geo]) -> (V, V) {
    (g.iter().map(|x| x.lo()).reduce(vmin).unwrap(), g.iter().map(|x| x.hi()).reduce(vmax).unwrap())
}

pub struct R { pub o: V, pub d: V, pub tmax: f64, pub kind: usize }
impl R {
    pub fn ray(&self) -> Ray { let mut r = Ray::default(); r.origin = self.o.p(); r.direction = self.d.v(); r.t_max = self.tmax as f32; r }
}
pub const RAY_KINDS: usize = 7;
pub fn ray(rng: &mut Rng, g: &[Geo]) -> R { ray_in(rng, g, bounds(g)) }
pub fn ray_in(rng: &mut Rng, g: &[Geo], (lo, hi): (V, V)) -> R {
    let e = hi - lo;
    let m = e.maxabs().max(1e-12);
    let any = |rng: &mut Rng, k: f64| { let c = (lo + hi) * 0.5; let mut r = v(0., 0., 0.); for i in 0..3 { let h = e[i].max(0.2 * m) * 0.5 * k; r[i] = c[i] + rng.range(-h, h); } r };
    let corner = |rng: &mut Rng| -> V { let x = &g[rng.below(g.len())]; match x { Geo::Tri { p, .. } => p[rng.below(3)], Geo::Sph { c, r } => { let mut q = *c; let k = rng.below(3); q[k] += if rng.chance(0.5) { *r } else { -*r }; q } } };
    let kind = rng.below(RAY_KINDS);
    let (mut o, mut d);
    match kind {
        0 => { o = any(rng, 1.); d = dir(rng); }
        1 => { o = any(rng, 3.); let t = g[rng.below(g.len())].point(rng); d = t - o; }
        2 => { // axis-parallel, aimed at a shape
            let t = g[rng.below(g.len())].point(rng); let k = rng.below(3); let s = if rng.chance(0.5) { 1. } else { -1. };
            d = v(0., 0., 0.); for i in 0..3 { if rng.chance(0.5) { d[i] = -0.0; } } d[k] = s; o = t; o[k] = if rng.chance(0.5) { any(rng, 2.)[k] } else { t[k] - s * 1.5 * m }; }
        3 => { // one zero component
            let t = g[rng.below(g.len())].point(rng); o = any(rng, 2.); let k = rng.below(3); d = t - o; d[k] = if rng.chance(0.5) { 0. } else { -0. }; o[k] = t[k]; }
        4 => { // coordinates shared with vertices (split planes)
            o = any(rng, 2.); let c = corner(rng); for i in 0..3 { if rng.chance(0.5) { o[i] = c[i]; } } let t = g[rng.below(g.len())].point(rng); d = t - o; for i in 0..3 { if rng.chance(0.2) { d[i] = 0.; } } }
        5 => { // starting on a surface
            o = g[rng.below(g.len())].point(rng); d = if rng.chance(0.5) { dir(rng) } else { g[rng.below(g.len())].point(rng) - o }; }
        _ => { o = any(rng, 1.); let t = corner(rng); d = t + (pt(rng, 1.) * (0.05 * m)) - o; }
    }
    if d.len() < 1e-6 * m { d = dir(rng); }
    if rng.chance(0.7) { d = d.norm(); }
    if rng.chance(0.1) { d = d * rng.logu(1e-2, 1e2); }
    o = o.q(); d = d.q();
    let tmax = if rng.chance(0.75) { f64::INFINITY } else { (rng.range(0., 3.) * m / d.len()).max(1e-6) as f32 as f64 };
    R { o, d, tmax, kind }
}
