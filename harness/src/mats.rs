//! Materials with an f64 description of their scattering, shading frames, and quadrature over directions.
use crate::fw::*;
use crate::gen::dir;
use crate::geo::*;
use pt::api::*;
use pt::verif::interaction::Interaction;
use pt::verif::reflection::{BSDF, REFLECTION, SPECULAR, TRANSMISSION};
use std::f64::consts::PI;
use std::sync::Arc;

pub type S3 = [f64; 3];
pub fn sp(s: Spectrum) -> S3 { [s.r as f64, s.g as f64, s.b as f64] }
pub fn spec(s: S3) -> Spectrum { Spectrum::new(s[0] as f32, s[1] as f32, s[2] as f32) }
pub fn q3(s: S3) -> S3 { s.map(|x| x as f32 as f64) }
pub fn add3(a: S3, b: S3) -> S3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn mul3(a: S3, b: S3) -> S3 { [a[0] * b[0], a[1] * b[1], a[2] * b[2]] }
pub fn sc3(a: S3, k: f64) -> S3 { [a[0] * k, a[1] * k, a[2] * k] }
pub fn max3(a: S3) -> f64 { a[0].max(a[1]).max(a[2]) }

#[derive(Clone, Debug)]
pub enum Mat {
    Lambert { kd: S3 },
    Mirror { kr: S3 },
    Plastic { kd: S3, ks: S3, rough: f64 },
    Metal { r: S3, eta: S3, k: S3, ru: f64, rv: f64 },
    Glass { kr: S3, kt: S3, eta: f64, ru: f64, rv: f64 },
}

#[derive(Clone, Copy, Debug)]
pub enum Fr { One, Diel(f64), Cond(S3, S3) }

#[derive(Clone, Copy, Debug)]
pub enum Lobe { Diff(S3), SpecR(S3, Fr), SpecT(S3, f64), MicR(S3, f64, f64, Fr), MicT(S3, f64, f64, f64) }

/// Unpolarised reflectance from index n1 into n2 at incidence cosine c > 0.
pub fn fr_diel(c: f64, n1: f64, n2: f64) -> f64 {
    let s2 = (1. - c * c).max(0.) * (n1 / n2) * (n1 / n2);
    if s2 >= 1. { return 1.; }
    let ct = (1. - s2).sqrt();
    let rs = (n1 * c - n2 * ct) / (n1 * c + n2 * ct);
    let rp = (n2 * c - n1 * ct) / (n2 * c + n1 * ct);
    0.5 * (rs * rs + rp * rp)
}
/// Unpolarised reflectance of an interface from vacuum to complex index n + ik, by complex arithmetic.
pub fn fr_cond(c: f64, n: f64, k: f64) -> f64 {
    let m = |a: (f64, f64), b: (f64, f64)| (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0);
    let abs2 = |a: (f64, f64)| a.0 * a.0 + a.1 * a.1;
    let n2 = m((n, k), (n, k));
    let w = (n2.0 - (1. - c * c), n2.1);
    let r = abs2(w).sqrt();
    let root = (((r + w.0) / 2.).max(0.).sqrt(), ((r - w.0) / 2.).max(0.).sqrt());
    let rs = abs2((c - root.0, -root.1)) / abs2((c + root.0, root.1));
    let a = (n2.0 * c, n2.1 * c);
    let rp = abs2((a.0 - root.0, a.1 - root.1)) / abs2((a.0 + root.0, a.1 + root.1));
    0.5 * (rs + rp)
}
impl Fr {
    /// `above`: the light arrives from the normal's side; c: cosine at the interface
    pub fn eval(&self, c: f64, above: bool) -> S3 {
        match *self {
            Fr::One => [1.; 3],
            Fr::Diel(eta) => [if above { fr_diel(c, 1., eta) } else { fr_diel(c, eta, 1.) }; 3],
            Fr::Cond(n, k) => [fr_cond(c, n[0], k[0]), fr_cond(c, n[1], k[1]), fr_cond(c, n[2], k[2])],
        }
    }
}

pub fn ggx_d(h: V, ax: f64, ay: f64) -> f64 { let e = (h.x / ax).powi(2) + (h.y / ay).powi(2) + h.z * h.z; 1. / (PI * ax * ay * e * e) }
pub fn ggx_lambda(w: V, ax: f64, ay: f64) -> f64 { if w.z == 0. { return f64::INFINITY; } ((1. + ((w.x * ax).powi(2) + (w.y * ay).powi(2)) / (w.z * w.z)).sqrt() - 1.) / 2. }
pub fn ggx_g(a: V, b: V, ax: f64, ay: f64) -> f64 { 1. / (1. + ggx_lambda(a, ax, ay) + ggx_lambda(b, ax, ay)) }

impl Lobe {
    /// f32 rounding of the conductor formula: cancellation in the real part of the refracted wave vector
    pub fn cond_tol(&self, c: f64) -> f64 {
        match *self { Lobe::SpecR(_, Fr::Cond(n, k)) | Lobe::MicR(_, _, _, Fr::Cond(n, k)) => (0..3).map(|j| {
            let t0 = n[j] * n[j] - k[j] * k[j] - (1. - c * c); let w = (t0 * t0 + 4. * n[j] * n[j] * k[j] * k[j]).sqrt(); let a = ((w + t0) / 2.).max(0.).sqrt();
            let s = n[j] * n[j] + k[j] * k[j] + 1.; 1e-6 * s / a.max((2e-7 * s).sqrt()) }).fold(0., f64::max), _ => 0. }
    }
    pub fn specular(&self) -> bool { matches!(self, Lobe::SpecR(..) | Lobe::SpecT(..)) }
    pub fn transmits(&self) -> bool { matches!(self, Lobe::SpecT(..) | Lobe::MicT(..)) }
    /// value for directions in the local frame (z = shading normal); both on the proper sides
    pub fn f(&self, o: V, i: V) -> S3 {
        match *self {
            Lobe::Diff(r) => if o.z * i.z > 0. { sc3(r, 1. / PI) } else { [0.; 3] },
            Lobe::SpecR(..) | Lobe::SpecT(..) => [0.; 3],
            Lobe::MicR(r, ax, ay, fr) => {
                if o.z * i.z <= 0. { return [0.; 3]; }
                let h = (o + i).norm();
                let k = ggx_d(h, ax, ay) * ggx_g(o, i, ax, ay) / (4. * (o.z * i.z).abs());
                sc3(mul3(r, fr.eval(o.dot(h).abs(), o.z > 0.)), k)
            }
            Lobe::MicT(t, ax, ay, eta) => {
                if o.z * i.z >= 0. { return [0.; 3]; }
                // indices on the sides of o and i
                let (no, ni) = if o.z > 0. { (1., eta) } else { (eta, 1.) };
                let mut h = (o * no + i * ni).norm();
                if h.dot(o) < 0. { h = -h; }
                // a real refraction: o and i on opposite sides of the facet, the facet turned towards o's side
                if h.dot(i) >= 0. || h.z * o.z <= 0. { return [0.; 3]; }
                let (co, ci) = (o.dot(h), i.dot(h));
                let f = fr_diel(co, no, ni);
                let den = no * co + ni * ci;
                // radiance: scaled by (no / ni)^2 against the flux form
                let k = ggx_d(h, ax, ay) * ggx_g(o, i, ax, ay) * (1. - f) * co.abs() * ci.abs() * no * no / (den * den * (o.z * i.z).abs());
                sc3(t, k)
            }
        }
    }
    pub fn alpha(&self) -> Option<f64> { match *self { Lobe::MicR(_, a, b, _) | Lobe::MicT(_, a, b, _) => Some(a.min(b)), _ => None } }
}

fn cst(s: S3) -> Arc<ConstantTexture<Spectrum>> { Arc::new(ConstantTexture::new(spec(s))) }
fn cf(x: f64) -> Arc<ConstantTexture<f32>> { Arc::new(ConstantTexture::new(x as f32)) }

impl Mat {
    pub fn material(&self) -> Arc<dyn Material> {
        match *self {
            Mat::Lambert { kd } => Arc::new(LambertianReflectionMaterial::new(cst(kd))),
            Mat::Mirror { kr } => Arc::new(MirrorMaterial::new(cst(kr))),
            Mat::Plastic { kd, ks, rough } => Arc::new(PlasticMaterial::new(cst(kd), cst(ks), cf(rough))),
            Mat::Metal { r, eta, k, ru, rv } => Arc::new(MetalMaterial::new(cst(r), cst(eta), cst(k), cf(ru), cf(rv))),
            Mat::Glass { kr, kt, eta, ru, rv } => Arc::new(GlassMaterial::new(cst(kr), cst(kt), cf(eta), cf(ru), cf(rv))),
        }
    }
    /// the lobes that scatter anything
    pub fn lobes(&self) -> Vec<Lobe> {
        let mut l = match *self {
            Mat::Lambert { kd } => vec![Lobe::Diff(kd)],
            Mat::Mirror { kr } => vec![Lobe::SpecR(kr, Fr::One)],
            Mat::Plastic { kd, ks, rough } => vec![Lobe::Diff(kd), if rough == 0. { Lobe::SpecR(ks, Fr::Diel(1.5)) } else { Lobe::MicR(ks, rough, rough, Fr::Diel(1.5)) }],
            Mat::Metal { r, eta, k, ru, rv } => vec![if ru == 0. && rv == 0. { Lobe::SpecR(r, Fr::Cond(eta, k)) } else { Lobe::MicR(r, ru, rv, Fr::Cond(eta, k)) }],
            Mat::Glass { kr, kt, eta, ru, rv } => if ru == 0. && rv == 0. { vec![Lobe::SpecR(kr, Fr::Diel(eta)), Lobe::SpecT(kt, eta)] } else { vec![Lobe::MicR(kr, ru, rv, Fr::Diel(eta)), Lobe::MicT(kt, ru, rv, eta)] },
        };
        l.retain(|l| match l { Lobe::Diff(s) | Lobe::SpecR(s, _) | Lobe::SpecT(s, _) | Lobe::MicR(s, ..) | Lobe::MicT(s, ..) => max3(*s) > 0. });
        l
    }
    pub fn eta(&self) -> f64 { match *self { Mat::Glass { eta, .. } => eta, _ => 1.5 } }
    pub fn name(&self) -> &'static str { match self { Mat::Lambert { .. } => "lambert", Mat::Mirror { .. } => "mirror", Mat::Plastic { .. } => "plastic", Mat::Metal { .. } => "metal", Mat::Glass { .. } => "glass" } }
    pub fn rough(&self) -> bool { self.lobes().iter().any(|l| l.alpha().is_some()) }
}

pub fn color(rng: &mut Rng) -> S3 {
    q3(match rng.below(6) { 0 => [1.; 3], 1 => [rng.f64(); 3], 2 => [1., 0., rng.f64()], _ => [rng.f64(), rng.f64(), rng.f64()] })
}
pub fn roughness(rng: &mut Rng, lo: f64) -> f64 { (if rng.chance(0.2) { *rng.pick(&[0.1, 0.25, 0.5, 1.]) } else { rng.logu(lo, 1.) }) as f32 as f64 }
pub fn index(rng: &mut Rng) -> f64 { (match rng.below(5) { 0 => 1.5, 1 => 1.33, 2 => rng.range(0.4, 0.9), _ => rng.range(1.1, 2.6) }) as f32 as f64 }
pub fn metal(rng: &mut Rng) -> (S3, S3) {
    match rng.below(4) {
        0 => (q3([0.2, 0.92, 1.1]), q3([3.9, 2.45, 2.14])), // copper
        1 => (q3([rng.range(0.05, 3.), rng.range(0.05, 3.), rng.range(0.05, 3.)]), q3([rng.range(0., 8.), rng.range(0., 8.), rng.range(0., 8.)])),
        2 => (q3([rng.range(1.1, 2.5); 3]), [0.; 3]),
        _ => (q3([rng.logu(0.05, 5.), rng.logu(0.05, 5.), rng.logu(0.05, 5.)]), q3([rng.logu(0.1, 10.), rng.logu(0.1, 10.), rng.logu(0.1, 10.)])),
    }
}
/// Any built-in material with roughness at least `lo` where not smooth.
pub fn any_mat(rng: &mut Rng, lo: f64) -> Mat { let k = rng.below(8); mat_kind(rng, k, lo) }
pub fn mat_kind(rng: &mut Rng, kind: usize, lo: f64) -> Mat {
    let aniso = rng.chance(0.5);
    let ru = roughness(rng, lo); let rv = if aniso { roughness(rng, lo) } else { ru };
    match kind {
        0 => Mat::Lambert { kd: color(rng) },
        1 => Mat::Mirror { kr: color(rng) },
        2 => { let kd = color(rng); let ks = color(rng); Mat::Plastic { kd: if rng.chance(0.15) { [0.; 3] } else { kd }, ks: if rng.chance(0.15) { [0.; 3] } else { ks }, rough: ru } }
        3 => Mat::Plastic { kd: color(rng), ks: color(rng), rough: 0. },
        4 => { let (eta, k) = metal(rng); Mat::Metal { r: color(rng), eta, k, ru, rv } }
        5 => { let (eta, k) = metal(rng); Mat::Metal { r: color(rng), eta, k, ru: 0., rv: 0. } }
        6 => { let (kr, kt) = (color(rng), color(rng)); Mat::Glass { kr: if rng.chance(0.15) { [0.; 3] } else { kr }, kt: if rng.chance(0.15) { [0.; 3] } else { kt }, eta: index(rng), ru, rv } }
        _ => Mat::Glass { kr: color(rng), kt: color(rng), eta: index(rng), ru: 0., rv: 0. },
    }
}

/// A shading frame in world space; gn may differ from sn.
#[derive(Clone, Debug)]
pub struct Frame { pub gn: V, pub sn: V, pub dpdu: V }
impl Frame {
    pub fn flat(rng: &mut Rng) -> Frame {
        let sn = match rng.below(4) { 0 => { let mut n = v(0., 0., 0.); n[rng.below(3)] = if rng.chance(0.5) { 1. } else { -1. }; n } _ => dir(rng).q() };
        let (s, t) = onb(sn.norm());
        let a = rng.range(0., 2. * PI);
        let a = if rng.chance(0.3) { 0. } else { a };
        Frame { gn: sn, sn, dpdu: ((s * a.cos() + t * a.sin()) * rng.logu(1e-2, 1e2)).q() }
    }
    pub fn bent(rng: &mut Rng) -> Frame {
        let mut f = Frame::flat(rng);
        let sn = f.sn.norm(); let (s, t) = onb(sn); let a = rng.range(0., 2. * PI); let th = rng.range(0., 1.2);
        f.gn = (sn * th.cos() + (s * a.cos() + t * a.sin()) * th.sin()).norm().q();
        f
    }
    pub fn interaction(&self) -> Interaction {
        let mut i = Interaction::default();
        i.n = self.gn.n(); i.sn = self.sn.n(); i.dpdu = self.dpdu.v(); i.dpdv = self.sn.cross(self.dpdu).v();
        i
    }
    pub fn bsdf(&self, m: &Arc<dyn Material>) -> BSDF { m.compute_scattering(&self.interaction()) }
    fn axes(&self) -> (V, V, V) { let s = self.dpdu.norm(); let t = self.sn.cross(s); (s, t, self.sn) }
    pub fn local(&self, w: V) -> V { let (s, t, n) = self.axes(); v(w.dot(s), w.dot(t), w.dot(n)) }
    pub fn world(&self, w: V) -> V { let (s, t, n) = self.axes(); s * w.x + t * w.y + n * w.z }
}

/// Direction with a given polar cosine about the frame's shading normal, rounded to f32.
pub fn wdir(f: &Frame, cos: f64, phi: f64) -> V { let s = (1. - cos * cos).max(0.).sqrt(); f.world(v(s * phi.cos(), s * phi.sin(), cos)).q() }
/// Outgoing direction on either side with various inclinations, at least `min` from the horizon.
pub fn wo_dir(rng: &mut Rng, f: &Frame, min: f64) -> V {
    let c = match rng.below(6) { 0 => 1., 1 => min + (0.15 - min).max(0.) * rng.f64(), _ => rng.range(min, 1.) };
    let c = if rng.chance(0.5) { c } else { -c };
    wdir(f, c, rng.range(0., 2. * PI))
}

/// Reference value in world space: sum of the lobes whose kind matches the geometric sides.
/// None when shading and geometric sides disagree.
pub fn ref_f(lobes: &[Lobe], fr: &Frame, wo: V, wi: V) -> Option<S3> {
    let (o, i) = (fr.local(wo), fr.local(wi));
    let geo = wo.dot(fr.gn) * wi.dot(fr.gn) > 0.;
    if geo != (o.z * i.z > 0.) { return None; }
    let mut r = [0.; 3];
    for l in lobes { if l.transmits() != geo { r = add3(r, l.f(o, i)); } }
    Some(r)
}
/// Relative rounding error to expect from an f32 evaluation of the lobes at this pair; None if meaningless.
pub fn rel_tol(lobes: &[Lobe], eta: f64, o: V, i: V) -> Option<f64> {
    let mc = o.z.abs().min(i.z.abs());
    let mut t = 2e-4 + 4e-6 / mc;
    let rough = lobes.iter().filter_map(|l| l.alpha()).fold(9., f64::min);
    if rough < 9. && o.z * i.z > 0. { let m = (o + i).len(); t += 4e-7 / (m * rough) + 1e-6 / m; }
    for l in lobes { if let Some(a) = l.alpha() {
        t += 2e-6 / (a * a);
        if let (Lobe::MicR(_, _, _, Fr::Diel(e)), true) = (l, o.z * i.z > 0.) {
            let c = o.dot((o + i).norm()); let r = if o.z > 0. { 1. / e } else { *e };
            t += 4e-6 * (1. + r * r) / (1. - (1. - c * c) * r * r).abs().sqrt().max(1e-3); // Fresnel near the critical angle
        }
        if l.transmits() && o.z * i.z < 0. {
            let (no, ni) = if o.z > 0. { (1., eta) } else { (eta, 1.) };
            let m = (o * no + i * ni).len();
            t += 2e-5 / (a * m) + 1e-5 / m;
            // the validity of the facet (facing, sides) may be decided by rounding
            let h = (o * no + i * ni) / m;
            t += 1e-6 / (m * h.z.abs());
            let hc = h.dot(o).abs().min(h.dot(i).abs());
            t += 2e-6 / (hc * hc) + 2e-6 / (m * hc); // the refracted cosine, cancellation near the critical angle
            if h.dot(o).abs() < 1e-5 / m || h.dot(i).abs() < 1e-5 / m || h.z.abs() < 1e-5 / m { return None; }
        }
    } }
    if t > 0.1 { None } else { Some(t) }
}

/// Adaptive integral of g over [a,b] x [c,d].
pub fn integrate<const N: usize>(g: &mut dyn FnMut(f64, f64) -> [f64; N], a: f64, b: f64, c: f64, d: f64, tol: f64, depth: u32) -> [f64; N] {
    fn gl<const N: usize>(g: &mut dyn FnMut(f64, f64) -> [f64; N], a: f64, b: f64, c: f64, d: f64) -> [f64; N] {
        const X: [f64; 4] = [-0.8611363115940526, -0.3399810435848563, 0.3399810435848563, 0.8611363115940526];
        const W: [f64; 4] = [0.3478548451374538, 0.6521451548625461, 0.6521451548625461, 0.3478548451374538];
        let mut r = [0.; N];
        for i in 0..4 { for j in 0..4 {
            let f = g((a + b) / 2. + (b - a) / 2. * X[i], (c + d) / 2. + (d - c) / 2. * X[j]);
            for k in 0..N { r[k] += W[i] * W[j] * f[k]; }
        } }
        r.map(|x| x * (b - a) * (d - c) / 4.)
    }
    fn rec<const N: usize>(g: &mut dyn FnMut(f64, f64) -> [f64; N], a: f64, b: f64, c: f64, d: f64, whole: [f64; N], tol: f64, depth: u32) -> [f64; N] {
        let (m, n) = ((a + b) / 2., (c + d) / 2.);
        let q = [gl(g, a, m, c, n), gl(g, m, b, c, n), gl(g, a, m, n, d), gl(g, m, b, n, d)];
        let mut s = [0.; N]; for x in &q { for k in 0..N { s[k] += x[k]; } }
        if depth == 0 || (0..N).all(|k| (s[k] - whole[k]).abs() <= tol) { return s; }
        let qs = [(a, m, c, n), (m, b, c, n), (a, m, n, d), (m, b, n, d)];
        let mut r = [0.; N];
        for (x, w) in qs.iter().zip(q.iter()) { let y = rec(g, x.0, x.1, x.2, x.3, *w, tol / 2., depth - 1); for k in 0..N { r[k] += y[k]; } }
        r
    }
    let w = gl(g, a, b, c, d);
    rec(g, a, b, c, d, w, tol, depth)
}

/// Microfacet normal (local frame, z > 0) at u of the unit square, distributed as D(h) cos(h).
pub fn ggx_h(u: [f64; 2], ax: f64, ay: f64) -> V {
    let r = (u[0] / (1. - u[0])).sqrt();
    let p = 2. * PI * u[1];
    v(ax * r * p.cos(), ay * r * p.sin(), 1.).norm()
}

/// Reference sampler of a lobe in f64: direction for u, by reflection or refraction about a GGX normal, or cosine-weighted.
pub fn lobe_dir(l: &Lobe, o: V, u: [f64; 2]) -> Option<V> {
    let s = if o.z < 0. { -1. } else { 1. };
    match *l {
        Lobe::Diff(_) => { let r = u[0].sqrt(); let p = 2. * PI * u[1]; Some(v(r * p.cos(), r * p.sin(), s * (1. - u[0]).max(0.).sqrt())) }
        Lobe::MicR(_, ax, ay, _) => { let h = ggx_h(u, ax, ay); Some(h * (2. * o.dot(h)) - o) }
        Lobe::MicT(_, ax, ay, eta) => {
            let h = ggx_h(u, ax, ay) * s;
            let c = o.dot(h);
            if c <= 0. { return None; }
            let e = if s > 0. { 1. / eta } else { eta }; // n_o / n_i
            let k = 1. - e * e * (1. - c * c);
            if k <= 0. { return None; }
            let w = h * (e * c - k.sqrt()) - o * e;
            Some(w)
        }
        _ => None,
    }
}

/// Density of lobe_dir per solid angle.
pub fn lobe_density(l: &Lobe, o: V, w: V) -> f64 {
    match *l {
        Lobe::Diff(_) => if o.z * w.z > 0. { w.z.abs() / PI } else { 0. },
        Lobe::MicR(_, ax, ay, _) => { let h = (o + w).norm(); let oh = o.dot(h).abs(); if !(oh > 0.) { return 0.; } ggx_d(h, ax, ay) * h.z.abs() / (4. * oh) }
        Lobe::MicT(_, ax, ay, eta) => {
            let (no, ni) = if o.z > 0. { (1., eta) } else { (eta, 1.) };
            let mut h = (o * no + w * ni).norm();
            if h.dot(o) < 0. { h = -h; }
            if h.dot(w) >= 0. || h.z * o.z <= 0. { return 0.; }
            let den = no * o.dot(h) + ni * w.dot(h);
            ggx_d(h, ax, ay) * h.z.abs() * ni * ni * w.dot(h).abs() / (den * den)
        }
        _ => 0.,
    }
}

pub fn is_spec(flag: u8) -> bool { flag & SPECULAR != 0 }
pub fn is_refl(flag: u8) -> bool { flag & REFLECTION != 0 }
pub fn is_trans(flag: u8) -> bool { flag & TRANSMISSION != 0 }
