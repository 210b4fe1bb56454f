//! f64 reference geometry.
use pt::verif::vector::{Normal3f, Point3f, Vector3f};
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V { pub x: f64, pub y: f64, pub z: f64 }
pub fn v(x: f64, y: f64, z: f64) -> V { V { x, y, z } }
impl Add for V { type Output = V; fn add(self, o: V) -> V { v(self.x + o.x, self.y + o.y, self.z + o.z) } }
impl Sub for V { type Output = V; fn sub(self, o: V) -> V { v(self.x - o.x, self.y - o.y, self.z - o.z) } }
impl Mul<f64> for V { type Output = V; fn mul(self, o: f64) -> V { v(self.x * o, self.y * o, self.z * o) } }
impl Div<f64> for V { type Output = V; fn div(self, o: f64) -> V { v(self.x / o, self.y / o, self.z / o) } }
impl Neg for V { type Output = V; fn neg(self) -> V { v(-self.x, -self.y, -self.z) } }
impl Index<usize> for V { type Output = f64; fn index(&self, i: usize) -> &f64 { match i { 0 => &self.x, 1 => &self.y, _ => &self.z } } }
impl IndexMut<usize> for V { fn index_mut(&mut self, i: usize) -> &mut f64 { match i { 0 => &mut self.x, 1 => &mut self.y, _ => &mut self.z } } }
impl V {
    pub fn dot(self, o: V) -> f64 { self.x * o.x + self.y * o.y + self.z * o.z }
    pub fn cross(self, o: V) -> V { v(self.y * o.z - self.z * o.y, self.z * o.x - self.x * o.z, self.x * o.y - self.y * o.x) }
    pub fn len(self) -> f64 { self.dot(self).sqrt() }
    pub fn norm(self) -> V { self / self.len() }
    pub fn maxabs(self) -> f64 { self.x.abs().max(self.y.abs()).max(self.z.abs()) }
    pub fn finite(self) -> bool { self.x.is_finite() && self.y.is_finite() && self.z.is_finite() }
    pub fn p(self) -> Point3f { Point3f::new(self.x as f32, self.y as f32, self.z as f32) }
    pub fn v(self) -> Vector3f { Vector3f::new(self.x as f32, self.y as f32, self.z as f32) }
    pub fn n(self) -> Normal3f { Normal3f::new(self.x as f32, self.y as f32, self.z as f32) }
    /// round to f32 precision
    pub fn q(self) -> V { v(self.x as f32 as f64, self.y as f32 as f64, self.z as f32 as f64) }
}
pub trait To { fn to(&self) -> V; }
impl To for Point3f { fn to(&self) -> V { v(self.x as f64, self.y as f64, self.z as f64) } }
impl To for Vector3f { fn to(&self) -> V { v(self.x as f64, self.y as f64, self.z as f64) } }
impl To for Normal3f { fn to(&self) -> V { v(self.x as f64, self.y as f64, self.z as f64) } }

/// any orthonormal pair perpendicular to n
pub fn onb(n: V) -> (V, V) {
    let a = if n.x.abs() > 0.6 { v(0., 1., 0.) } else { v(1., 0., 0.) };
    let s = n.cross(a).norm();
    (s, n.cross(s))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tri { Hit, Miss, Unsure }

/// Result of a reference intersection. `kind` is Unsure when rounding may legitimately decide either way.
#[derive(Clone, Copy, Debug)]
pub struct Ref { pub kind: Tri, pub t: f64, pub tol: f64, pub bary: [f64; 3] }

pub const EDGE_TOL: f64 = 2.5e-6;

/// Ray o + t d, t in (0, tmax), against triangle p.
pub fn ref_tri(p: [V; 3], o: V, d: V, tmax: f64) -> Ref {
    let miss = Ref { kind: Tri::Miss, t: f64::NAN, tol: 0., bary: [0.; 3] };
    let unsure = Ref { kind: Tri::Unsure, ..miss };
    let dl = d.len();
    let dn = d / dl;
    let s = (0..3).map(|i| (p[i] - o).len()).fold(0., f64::max).max(1e-300);
    let perp = (0..3).map(|i| { let q = p[i] - o; (q - dn * q.dot(dn)).len() }).fold(0., f64::max);
    let tol = EDGE_TOL * s;
    let mut vol = [0.; 3];
    let mut sure = [false; 3];
    for i in 0..3 {
        let a = p[(i + 1) % 3] - o;
        let b = p[(i + 2) % 3] - o;
        let e = b - a;
        let c = dn.cross(e);
        vol[i] = a.dot(c);
        let el = e.len();
        let cl = c.len();
        // perpendicular distance of the ray line to the edge line
        sure[i] = cl > 1e-5 * el && el > 0. && (vol[i] / cl).abs() > tol && el > 2. * tol;
    }
    let pos = (0..3).any(|i| sure[i] && vol[i] > 0.);
    let neg = (0..3).any(|i| sure[i] && vol[i] < 0.);
    if pos && neg { return miss; }
    if !sure.iter().all(|x| *x) {
        // far outside the bounding region of the projected triangle is still a clear miss
        return unsure;
    }
    let det = vol[0] + vol[1] + vol[2];
    let bary = [vol[0] / det, vol[1] / det, vol[2] / det];
    let t = (0..3).map(|i| (p[i] - o).dot(dn) * bary[i]).sum::<f64>() / dl;
    let amp = 1. + perp * s / det.abs();
    let ttol = 2. * EDGE_TOL * amp * s / dl;
    if amp > 1e4 { return unsure; }
    if t < -ttol { return miss; }
    if t <= ttol { return unsure; }
    if tmax.is_finite() {
        if t > tmax + ttol { return miss; }
        if t > tmax - ttol { return unsure; }
    }
    Ref { kind: Tri::Hit, t, tol: ttol, bary }
}

pub fn ref_sphere(c: V, r: f64, o: V, d: V, tmax: f64) -> Ref {
    let miss = Ref { kind: Tri::Miss, t: f64::NAN, tol: 0., bary: [0.; 3] };
    let unsure = Ref { kind: Tri::Unsure, ..miss };
    let dl = d.len();
    let dn = d / dl;
    let oc = o - c;
    let scale = oc.len() + r;
    let tm = -oc.dot(dn);
    let b = (oc + dn * tm).len();
    let eps = 3e-6 * scale;
    if b > r + eps { return miss; }
    if b > r - eps { return unsure; }
    let h = (r * r - b * b).sqrt();
    let cos = h / r;
    let tol = 1e-6 * scale / cos;
    let (t0, t1) = (tm - h, tm + h);
    for t in [t0, t1] {
        if t.abs() <= tol { return unsure; }
        if t < 0. { continue; }
        let tm = tmax * dl;
        if (t - tm).abs() <= tol { return unsure; }
        if t > tm { return miss; }
        return Ref { kind: Tri::Hit, t: t / dl, tol: tol / dl, bary: [0.; 3] };
    }
    miss
}
