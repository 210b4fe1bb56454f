//! C38: rendered shading, texture and shadow of surfaces under distant lights against an f64 renderer.
use pt::api::{HaltonSampler, RandomSampler};
use pt::verif::bbox::BBox2f;
use pt::verif::camera::{Camera, CameraSample, PerspectiveCamera};
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::film::Film;
use pt::verif::integrator::Integrator;
use pt::verif::light::DistantLight;
use pt::verif::ray::Ray;
use pt::verif::sampler::Sampler;
use pt::verif::scene::{Builder, Scene};
use pt::verif::shape_sphere::Sphere;
use pt::verif::transform::Transform;
use pt::verif::vector::{Point2f, Point2u};
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::ppm;
use ptmon::scenes::*;
use ptmon::wild::*;
use std::sync::{Arc, Mutex};

/// keeps every film position with the ray sent through it
#[derive(Clone)]
struct RecCam { inner: PerspectiveCamera, log: Arc<Mutex<Vec<((f32, f32), V, V)>>> }
impl Camera for RecCam {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        let r = self.inner.generate_ray(s);
        self.log.lock().unwrap().push(((s.p_film.x, s.p_film.y), r.origin.to(), r.direction.to()));
        r
    }
}

struct It { geo: Geo, mat: TMat, ok: f64 } // ok: smallest altitude or radius
struct World1 { recv: Vec<It>, mirrors: Vec<It>, block: Vec<Geo>, lights: Vec<(S3, V)>, solid: bool }

enum Out { Skip(&'static str), Val(Vec<S3>, f64, &'static str) }

fn parity(c: &[f64], tol: f64) -> Option<bool> {
    let mut k = 0i64;
    for x in c { if (x - x.round()).abs() < tol { return None; } k += x.floor() as i64; }
    Some(k % 2 == 0)
}
fn tval<T: Copy>(t: &Tx<T>, uv: (f64, f64), p: V, tuv: f64, tp: f64) -> Option<T> {
    Some(match t.map {
        Map::Const => t.a,
        Map::Uv(su, sv, du, dv) => if parity(&[uv.0 * su as f64 + du as f64, uv.1 * sv as f64 + dv as f64], 1e-5 + tuv * (su.abs().max(sv.abs()) as f64))? { t.a } else { t.b },
        Map::Id(m) => {
            let q = p + v(m[2] as f64, m[3] as f64, m[4] as f64);
            let (s, c) = (m[1] as f64).to_radians().sin_cos();
            let q = v(c * q.x + s * q.z, q.y, -s * q.x + c * q.z) * m[0] as f64;
            if parity(&[q.x, q.y, q.z], 1e-5 + (tp + 1e-6 * (p.maxabs() + 3.)) * m[0] as f64)? { t.a } else { t.b }
        }
    })
}
fn here(m: &TMat, uv: (f64, f64), p: V, tuv: f64, tp: f64) -> Option<Mat> {
    let s = |t: &Tx<S3>| tval(t, uv, p, tuv, tp);
    let f = |t: &Tx<f32>| tval(t, uv, p, tuv, tp).map(|x| x as f64);
    Some(match m {
        TMat::Lambert(a) => Mat::Lambert { kd: s(a)? },
        TMat::Mirror(a) => Mat::Mirror { kr: s(a)? },
        TMat::Plastic(a, b, r) => Mat::Plastic { kd: s(a)?, ks: s(b)?, rough: f(r)? },
        TMat::Metal(a, b, c, x, y) => Mat::Metal { r: s(a)?, eta: s(b)?, k: s(c)?, ru: f(x)?, rv: f(y)? },
        TMat::Glass(a, b, e, x, y) => Mat::Glass { kr: s(a)?, kt: s(b)?, eta: f(e)?, ru: f(x)?, rv: f(y)? },
    })
}

impl World1 {
    fn geo(&self, k: usize) -> &Geo { let (n, m) = (self.recv.len(), self.mirrors.len()); if k < n { &self.recv[k].geo } else if k < n + m { &self.mirrors[k - n].geo } else { &self.block[k - n - m] } }
    fn len(&self) -> usize { self.recv.len() + self.mirrors.len() + self.block.len() }
    /// the nearest object on a ray starting away from `from`
    fn nearest(&self, o: V, d: V, from: usize) -> Result<Option<(usize, Ref)>, &'static str> {
        let mut best: Option<(usize, Ref)> = None;
        let mut second = f64::MAX;
        for k in 0..self.len() {
            if k == from { continue; }
            let r = self.geo(k).isect(o, d, f64::INFINITY);
            match r.kind { Tri::Unsure => return Err("edge"), Tri::Miss => {} Tri::Hit => match best {
                Some((_, b)) if b.t < r.t => second = second.min(r.t),
                _ => { if let Some((_, b)) = best { second = second.min(b.t); } best = Some((k, r)); }
            } }
        }
        if let Some((_, r)) = best { if second < r.t * (1. + 1e-3) { return Err("depth"); } }
        Ok(best)
    }
    /// light reaching the camera along a ray, for each of the lights
    fn trace(&self, mut o: V, mut d: V) -> Out {
        let (n, m) = (self.recv.len(), self.mirrors.len());
        let none = vec![[0.; 3]; self.lights.len()];
        let mut beta = [1.; 3];
        let (mut way, mut lean, mut off) = (o.maxabs(), 0., 0.); // length so far, error of direction and of position
        let mut from = usize::MAX;
        let mut bounces = 0;
        let (k, r) = loop {
            let x = match self.nearest(o, d, from) { Err(e) => return Out::Skip(e), Ok(x) => x };
            if bounces > 0 {
                for e in [v(1., 0., 0.), v(0., 1., 0.), v(0., 0., 1.)] { for s in [-1., 1.] {
                    match self.nearest(o + e * (s * off), (d + e * (s * lean)).norm(), from) { Err(e) => return Out::Skip(e), Ok(y) => if y.map(|y| y.0) != x.map(|x| x.0) { return Out::Skip("edge in a mirror"); } }
                } }
            }
            let (k, r) = match x { None => return Out::Val(none, 0., if bounces > 0 { "sky in a mirror" } else { "sky" }), Some(x) => x };
            if k >= n + m { return Out::Val(none, 0., "blocker"); }
            if k < n { break (k, r); }
            if bounces == 3 { return Out::Skip("roulette"); }
            let it = &self.mirrors[k - n];
            let q = match &it.geo { Geo::Tri { p, .. } => p, _ => unreachable!() };
            let g = (q[1] - q[0]).cross(q[2] - q[0]).norm();
            let p = o + d * r.t;
            let co = d.norm().dot(g).abs();
            if co < 0.01 { return Out::Skip("grazing"); }
            way += (p - o).len();
            off = (off + 3e-6 * (way + p.maxabs()) + lean * (p - o).len()) / co;
            lean += 1e-6 + 2e-6 * q.iter().map(|x| x.maxabs()).fold(0., f64::max) / it.ok;
            let kr = match here(&it.mat, (r.bary[1] + r.bary[2], r.bary[2]), p, off / it.ok * 3., off) { Some(Mat::Mirror { kr }) => kr, _ => return Out::Skip("texture") };
            beta = mul3(beta, kr);
            if max3(beta) == 0. { return Out::Val(none, 0., "black mirror"); }
            d = d - g * (2. * d.dot(g)); o = p; from = k; bounces += 1;
        };
        let it = &self.recv[k];
        let p = o + d * r.t;
        let wo = (-d).norm();
        let size = way + (p - o).len() + p.maxabs() + if bounces > 0 { (off + lean * (p - o).len()) / 3e-6 } else { 0. };
        let (gn, sn, dpdu, uv, bend);
        match &it.geo {
            Geo::Tri { p: q, vn, rev } => {
                let mut g = (q[1] - q[0]).cross(q[2] - q[0]).norm();
                let mut s = g; let mut u = q[1] - q[0];
                bend = 1e-6 * q.iter().map(|x| x.maxabs()).fold(0., f64::max) / it.ok
                    + if let Some(vn) = vn {
                        let w = vn[0] * r.bary[0] + vn[1] * r.bary[1] + vn[2] * r.bary[2];
                        if w.len() < 0.05 { return Out::Skip("normal"); }
                        s = w.norm();
                        let along = u.norm();
                        if along.cross(s).len() < 0.05 { return Out::Skip("tangent"); }
                        u = along - s * along.dot(s);
                        4e-6 * size / it.ok / w.len() / wo.dot(g).abs()
                    } else { 0. };
                if *rev { s = -s; }
                if g.dot(s) < 0. { g = -g; }
                gn = g; sn = s; dpdu = u;
                uv = (r.bary[1] + r.bary[2], r.bary[2]);
            }
            Geo::Sph { c, .. } => {
                let l = (p - *c).norm();
                let st = l.x.hypot(l.y);
                if st < 0.02 { return Out::Skip("pole"); }
                let mut phi = l.y.atan2(l.x); if phi < 0. { phi += 2. * std::f64::consts::PI; }
                gn = l; sn = l; dpdu = v(-l.y, l.x, 0.); uv = (phi, l.z.acos());
                bend = 4e-6 * size / it.ok / wo.dot(l).abs() / st;
                if phi < 1e-3 || phi > 2. * std::f64::consts::PI - 1e-3 { return Out::Skip("seam"); }
            }
        }
        let co = wo.dot(gn).abs().min(wo.dot(sn).abs());
        if co < 0.01 || gn.dot(sn) < 0.02 || (wo.dot(gn) > 0.) != (wo.dot(sn) > 0.) { return Out::Skip("grazing"); }
        let tp = 3e-6 * size / co;
        let face = if wo.dot(gn) > 0. { gn } else { -gn };
        let m = match here(&it.mat, uv, p, tp / it.ok * 3., tp) { None => return Out::Skip("texture"), Some(m) => m };
        let lobes: Vec<Lobe> = m.lobes().into_iter().filter(|l| !l.specular()).collect();
        let fr = Frame { gn, sn, dpdu };
        let mut res = vec![];
        let mut tol: f64 = 0.;
        let mut what = "dark";
        for (l, w) in &self.lights {
            let wi = w.norm();
            if lobes.is_empty() { res.push([0.; 3]); continue; }
            let f = match ref_f(&lobes, &fr, wo, wi) { None => return Out::Skip("sides"), Some(f) => f };
            let ci = wi.dot(gn).abs().min(wi.dot(sn).abs());
            if ci < 0.01 { return Out::Skip("grazing light"); }
            if max3(f) == 0. { res.push([0.; 3]); continue; }
            // shadow: every point near the one seen must agree
            let mut shade: Option<bool> = None;
            let d = 4e-6 * size / co;
            for e in [v(0., 0., 0.), v(d, 0., 0.), v(-d, 0., 0.), v(0., d, 0.), v(0., -d, 0.), v(0., 0., d), v(0., 0., -d)] {
                let mut hit = false;
                for b in n..self.len() {
                    let r = self.geo(b).isect(p + e, wi, f64::INFINITY);
                    match r.kind { Tri::Unsure => return Out::Skip("shadow edge"), Tri::Hit => { if r.t < 1e-3 * size { return Out::Skip("touching"); } hit = true; } Tri::Miss => {} }
                }
                if *shade.get_or_insert(hit) != hit { return Out::Skip("shadow edge"); }
            }
            if shade == Some(true) { res.push([0.; 3]); if what == "dark" { what = "shadow"; } continue; }
            if self.solid && wi.dot(face) < 0. { return Out::Skip("inside"); }
            let (a, b) = (fr.local(wo), fr.local(wi));
            let mut t = match rel_tol(&lobes, m.eta(), a, b) { None => return Out::Skip("ill-conditioned"), Some(t) => t };
            let rough = lobes.iter().filter_map(|l| l.alpha()).fold(9., f64::min);
            let bend = bend + lean;
            t += bend * (4. / co + 4. / ci);
            if rough < 9. {
                t += bend * 8. / rough;
                for x in &lobes { if let Lobe::MicR(..) | Lobe::MicT(..) = x {
                    // the half vector moves by the error of either direction
                    let h = if a.z * b.z > 0. { (a + b).len() } else { let (no, ni) = if a.z > 0. { (1., m.eta()) } else { (m.eta(), 1.) }; (a * no + b * ni).len() };
                    t += (bend + 1e-6) * 8. / (h * rough) + (bend + 1e-6) * 20. / (h * h);
                    if x.transmits() && a.z * b.z < 0. { t += (bend + 1e-6) * 50. / (h * h * rough); }
                } }
            }
            if t > 0.05 { return Out::Skip("ill-conditioned"); }
            tol = tol.max(t);
            res.push(mul3(beta, sc3(mul3(f, *l), wi.dot(sn).abs())));
            what = if bounces > 0 { ["", "lit in a mirror", "lit in two mirrors", "lit in three mirrors"][bounces] } else { match (m.name(), it.geo_kind()) { ("lambert", 0) => "lit lambert on a triangle", ("lambert", 1) => "lit lambert on a bent triangle", ("lambert", _) => "lit lambert on a sphere", ("plastic", _) => "lit plastic", ("metal", _) => "lit metal", _ => if a.z * b.z > 0. { "lit glass" } else { "lit through glass" } } };
        }
        Out::Val(res, tol, what)
    }
}
impl It { fn geo_kind(&self) -> u8 { match self.geo { Geo::Tri { vn: None, .. } => 0, Geo::Tri { .. } => 1, _ => 2 } } }

fn altitude(p: &[V; 3]) -> f64 { let a = (p[1] - p[0]).cross(p[2] - p[0]).len(); a / (0..3).map(|i| (p[i] - p[(i + 1) % 3]).len()).fold(0., f64::max) }
/// an opaque or any material; smooth lobes excluded on request
fn mat(rng: &mut Rng, glass: bool, smooth: bool) -> TMat {
    loop {
        let t = if rng.chance(0.2) { 0. } else { 0.6 };
        let m = tmat(rng, 0.05, t);
        match &m {
            TMat::Glass(..) if !glass => continue,
            TMat::Mirror(..) if !smooth || rng.chance(0.7) => continue,
            TMat::Metal(_, _, _, r, _) | TMat::Plastic(_, _, r) if !smooth && (r.a == 0. || r.b == 0.) => continue,
            TMat::Metal(_, _, _, r, _) | TMat::Glass(_, _, _, r, _) if r.a == 0. && r.b == 0. && rng.chance(0.8) => continue,
            _ => return m,
        }
    }
}

fn convex(f: &[[V; 3]]) -> bool {
    f.iter().all(|t| { let n = (t[1] - t[0]).cross(t[2] - t[0]).norm(); let n = if n.dot(t[0]) < 0. { -n } else { n }; f.iter().all(|u| u.iter().all(|p| n.dot(*p - t[0]) < 1e-9)) })
}
/// the surface to be lit, whether it is solid, and the normal of a plane it lies in
fn receiver(rng: &mut Rng, s: f64) -> (Vec<It>, bool, Option<V>) {
    let ctr = pt(rng, *rng.clone().pick(&[0., 1., 10.]) * s);
    let mut out = vec![];
    let mut put = |rng: &mut Rng, p: [V; 3], vn: Option<[V; 3]>, rev: bool, m: TMat| {
        let k = rng.below(3);
        let r = |a: [V; 3]| { let mut a = a; a.rotate_left(k); a };
        let p = r(p).map(|x| x.q());
        let ok = altitude(&p);
        if ok > 1e-3 * s { out.push(It { geo: Geo::Tri { p, vn: vn.map(|n| r(n).map(|x| x.q())), rev }, mat: m, ok }); }
    };
    match rng.below(5) {
        0 => { let r = (s * rng.logu(0.3, 2.)) as f32 as f64; return (vec![It { geo: Geo::sph(ctr, r), mat: mat(rng, false, true), ok: r }], true, None); }
        1 => { // one triangle
            let p = [ctr + pt(rng, s), ctr + pt(rng, s), ctr + pt(rng, s)];
            let n = (p[1] - p[0]).cross(p[2] - p[0]).norm();
            let vn = if rng.chance(0.5) { let k = rng.logu(0.02, 1.); let l = rng.logu(0.1, 10.); Some([0, 1, 2].map(|_| (n + pt(rng, k)) * l)) } else { None };
            let m = mat(rng, true, true);
            let rev = rng.chance(0.5);
            put(rng, p, vn, rev, m);
            (out, false, Some(n))
        }
        2 | 3 => { // a floor of tiles
            let n = dir(rng); let (a, b) = onb(n); let t = rng.range(0., 6.3); let (a, b) = (a * t.cos() + b * t.sin(), b * t.cos() - a * t.sin());
            let m = rng.int(1, 5);
            let bent = rng.chance(0.4);
            let k = rng.logu(0.02, 0.6);
            let nn: Vec<V> = (0..(m + 1) * (m + 1)).map(|_| n + pt(rng, k)).collect();
            let at = |i: i64, j: i64| ctr + (a * (i as f64 / m as f64 - 0.5) + b * (j as f64 / m as f64 - 0.5)) * (2. * s);
            let pal: Vec<TMat> = (0..rng.int(1, 4)).map(|_| mat(rng, true, true)).collect();
            for i in 0..m { for j in 0..m {
                let rev = rng.chance(0.3);
                for q in [[(i, j), (i + 1, j), (i + 1, j + 1)], [(i, j), (i + 1, j + 1), (i, j + 1)]] {
                    let flip = rng.chance(0.3);
                    let q = if flip { [q[0], q[2], q[1]] } else { q };
                    let mt = pal[rng.below(pal.len())].clone();
                    put(rng, q.map(|(i, j)| at(i, j)), if bent { Some(q.map(|(i, j)| nn[(i * (m + 1) + j) as usize])) } else { None }, rev, mt);
                }
            } }
            (out, false, Some(n))
        }
        _ => { // a convex body, with or without vertex normals
            let mut f: Vec<[V; 3]> = match rng.below(3) {
                0 => { let c = [v(1., 1., 1.), v(1., -1., -1.), v(-1., 1., -1.), v(-1., -1., 1.)]; vec![[c[0], c[1], c[2]], [c[0], c[3], c[1]], [c[0], c[2], c[3]], [c[1], c[3], c[2]]] }
                1 => cube(v(-1., -1., -1.), v(1., 1., 1.)).iter().map(|g| match g { Geo::Tri { p, .. } => *p, _ => unreachable!() }).collect(),
                _ => { let mut f = vec![]; for x in [-1., 1.] { for y in [-1., 1.] { for z in [-1., 1.] { f.push([v(x, 0., 0.), v(0., y, 0.), v(0., 0., z)]); } } } f }
            };
            for _ in 0..rng.int(0, 3) { let g: Vec<[V; 3]> = f.iter().flat_map(|t| { let m = [0, 1, 2].map(|k| (t[k].norm() + t[(k + 1) % 3].norm()).norm()); let c = t.map(|x| x.norm()); [[c[0], m[0], m[2]], [m[0], c[1], m[1]], [m[2], m[1], c[2]], m] }).collect(); if convex(&g) { f = g; } }
            if rng.chance(0.3) { let (x, y, z) = (rng.range(0.3, 1.), rng.range(0.3, 1.), rng.range(0.3, 1.)); for t in &mut f { for p in t.iter_mut() { *p = v(p.x * x, p.y * y, p.z * z); } } }
            let bent = rng.chance(0.6);
            let round = rng.chance(0.7);
            let inv = rng.chance(0.3);
            let ax = dir(rng); let (a, b) = onb(ax);
            let pal: Vec<TMat> = (0..rng.int(1, 4)).map(|_| mat(rng, false, !bent)).collect();
            let l = rng.logu(0.1, 10.);
            for t in f {
                let t = t.map(|p| a * p.x + b * p.y + ax * p.z);
                let g = { let g = (t[1] - t[0]).cross(t[2] - t[0]).norm(); if g.dot(t[0]) < 0. { -g } else { g } };
                let vn = t.map(|p| (if round { p.norm() } else { (p.norm() + g * 2.).norm() }) * l * if inv { -1. } else { 1. });
                let t = if rng.chance(0.5) { [t[0], t[2], t[1]] } else { t };
                let vn2 = if (t[1] - t[0]).len() > 0. { t.map(|p| (if round { p.norm() } else { (p.norm() + g * 2.).norm() }) * l * if inv { -1. } else { 1. }) } else { vn };
                let mt = pal[rng.below(pal.len())].clone();
                let rev = rng.chance(0.3);
                put(rng, t.map(|p| ctr + p * s), if bent { Some(vn2) } else { None }, rev, mt);
            }
            (out, true, None)
        }
    }
}

fn go<C: Container + 'static, S: Sampler + 'static>(sc: Scene<C>, smp: S, cam: RecCam, film: Film, threads: u8, file: bool) -> (Vec<(S3, f64)>, Vec<u8>) {
    if file { let _ = std::fs::remove_file("output.ppm"); }
    let i = Integrator::new(sc, smp, cam, film);
    i.render(threads);
    let px = i.verif_film().verif_pixels().iter().map(|(c, w)| (sp(*c), *w as f64)).collect();
    let o = if file { std::fs::read("output.ppm").expect("output.ppm after a render") } else { let mut o = vec![]; i.verif_film().write_image_ppm(&mut o); o };
    (px, o)
}

fn case(c: &mut Ctx, rng: &mut Rng, i: u64, file: bool) {
    let s = rng.logu(0.01, 300.);
    let (recv, solid, plane) = receiver(rng, s);
    if recv.is_empty() { c.count("empty"); return; }
    let (lo, hi) = bounds(&recv.iter().map(|x| x.geo.clone()).collect::<Vec<_>>());
    let mid = (lo + hi) * 0.5;
    let rad = ((hi - lo).len() * 0.5).max(1e-9);
    // lights: one, several alike (all of them add up whichever is chosen), or different ones
    let spp = rng.int(1, 4) as u32;
    let nl = *rng.pick(&[1, 1, 2, 3, 5]);
    let alike = spp > 1 || rng.chance(0.5);
    let mut lights: Vec<(S3, V)> = vec![];
    for k in 0..nl {
        let a = rng.logu(0.1, 10.);
        let l = [0, 1, 2].map(|_| if rng.chance(0.1) { 0. } else { rng.logu(0.05, 5.) });
        if k > 0 && alike { let l = lights[0]; lights.push(l); } else {
            // mostly from where the receiver can be seen
            let w = match &recv[rng.below(recv.len())].geo { Geo::Tri { p, .. } => { let n = (p[1] - p[0]).cross(p[2] - p[0]).norm(); n * if rng.chance(0.5) { 1. } else { -1. } + dir(rng) * rng.range(0., 1.2) } _ => dir(rng) };
            if w.len() < 0.05 { lights.push((q3(l), v(0., 0., a).q())); } else { lights.push((q3(l), (w * a).q())); }
        }
    }
    // mirrors that cannot send light scattered by the surface back to it: upright ones on one side, or one that leans away
    let mut mirrors: Vec<It> = vec![];
    if let (Some(n), true) = (plane, rng.chance(0.5)) {
        let n = if rng.chance(0.5) { n } else { -n };
        let (a, b) = onb(n);
        for _ in 0..rng.int(1, 4) {
            let t = rng.range(0., 6.3);
            let mut h = a * t.cos() + b * t.sin();
            let lean = mirrors.is_empty() && rng.chance(0.2);
            if lean { h = (h + n * rng.range(0.05, 1.5)).norm(); }
            let w = n.cross(h).norm(); let u = w.cross(h);
            let u = if u.dot(n) < 0. { -u } else { u };
            let at = mid - h * (rad * rng.range(if lean { 1.05 } else { 0.2 }, 2.)) + n * (rad * 0.05);
            let (x, y) = (rad * rng.logu(0.3, 3.), rad * rng.logu(0.3, 3.));
            let c = rng.range(-0.5, 0.5);
            let q = [at + w * (x * (c - 1.)), at + w * (x * (c + 1.)), at + w * (x * (c + 1.)) + u * y, at + w * (x * (c - 1.)) + u * y].map(|p| p.q());
            let p = loop { if let TMat::Mirror(m) = tmat(rng, 0.1, 0.5) { if max3(m.a) > 0. || rng.chance(0.1) { break TMat::Mirror(m); } } };
            for k in [[0, 1, 2], [0, 2, 3]] {
                let mut t = k.map(|k| q[k]); t.rotate_left(rng.below(3)); if rng.chance(0.5) { t.swap(0, 1); }
                // above the plane throughout
                if t.iter().any(|p| recv.iter().any(|x| match &x.geo { Geo::Tri { p: r, .. } => r.iter().any(|r| n.dot(*p - *r) < 0.01 * rad || lean && h.dot(*r - *p) < 0.01 * rad), _ => true })) { continue; }
                let ok = altitude(&t);
                if ok > 0.05 * rad { mirrors.push(It { geo: Geo::Tri { p: t, vn: None, rev: rng.chance(0.5) }, mat: p.clone(), ok }); }
            }
            if lean { break; }
        }
    }
    // black things that hide and shade
    let mut block = vec![];
    for _ in 0..rng.int(0, 5) {
        let w = if rng.chance(0.7) { lights[rng.below(lights.len())].1.norm() } else { dir(rng) };
        let target = recv[rng.below(recv.len())].geo.point(rng);
        let at = target + w * (rad * rng.logu(0.1, 20.));
        let size = rad * rng.logu(0.05, 1.5);
        if rng.chance(0.3) { let r = size * 0.4; block.push(Geo::sph(at, r)); continue; }
        let g = Geo::tri([at + pt(rng, size), at + pt(rng, size), at + pt(rng, size)]);
        if g.quality() > 0.02 { block.push(g); }
    }
    // not inside or across the receiver
    block.retain(|g| { let (l, h) = bounds(std::slice::from_ref(g)); let (l, h) = (l - (hi - lo) * 0.01, h + (hi - lo) * 0.01); !(0..3).all(|k| l[k] <= hi[k] && h[k] >= lo[k]) || match g { Geo::Sph { c, r } => (*c - mid).len() > rad * 1.05 + r, Geo::Tri { p, .. } => { let n = (p[1] - p[0]).cross(p[2] - p[0]).norm(); n.dot(p[0] - mid).abs() > rad * 1.05 } } });
    let w = World1 { recv, mirrors, block, lights, solid };
    // camera
    let res = (rng.int(1, 24) as u32, rng.int(1, 24) as u32);
    let asp = res.0 as f64 / res.1 as f64;
    let win = match rng.below(3) { 0 => if asp > 1. { [-asp, asp, -1., 1.] } else { [-1., 1., -1. / asp, 1. / asp] }, 1 => [-1., 1., -1., 1.], _ => { let (a, b) = (rng.range(-1., -0.2), rng.range(-1., -0.2)); [a, a + rng.range(0.6, 2.), b, b + rng.range(0.6, 2.)] } }.map(|x| x as f32 as f64);
    let (pos, look, up) = loop {
        let tgt = if !w.mirrors.is_empty() && rng.chance(0.6) { w.mirrors[rng.below(w.mirrors.len())].geo.point(rng) } else { w.recv[rng.below(w.recv.len())].geo.point(rng) };
        let mut tgt = tgt;
        let p = mid + dir(rng) * (rad * rng.logu(1.1, 8.));
        // a point of the surface as a mirror shows it
        if !w.mirrors.is_empty() && rng.chance(0.8) {
            let (rp, mi) = (w.recv[rng.below(w.recv.len())].geo.point(rng), rng.below(w.mirrors.len()));
            if let Geo::Tri { p: q, .. } = &w.mirrors[mi].geo {
                let n = (q[1] - q[0]).cross(q[2] - q[0]).norm();
                let p2 = { let k = w.mirrors[mi].geo.point(rng); let d = k - rp; let r = d - n * (2. * d.dot(n)); k + r.norm() * (rad * rng.logu(0.3, 4.)) };
                let pr = rp - n * (2. * (rp - q[0]).dot(n));
                let (p, l, u) = (p2.q(), pr.q(), dir(rng).q());
                let d = l - p; if d.len() > 0.05 * rad && u.cross(d).len() > 0.1 * d.len() { break (p, l, u); }
                tgt = rp;
            }
        } let (p, l, u) = (p.q(), (mid + (tgt - mid) * rng.f64()).q(), dir(rng).q());
        let d = l - p; if d.len() > 0.05 * rad && u.cross(d).len() > 0.1 * d.len() { break (p, l, u); } };
    let fov = ((rad / (look - pos).len()).atan().to_degrees() * 2. * rng.logu(0.4, 1.5)).clamp(2., 120.) as f32;
    let d = (look - pos).norm(); let x = up.cross(d).norm();
    let view = View { pos, ax: [x, d.cross(x), d], win, tan: (fov as f64 / 2.).to_radians().tan(), res };
    let cam = PerspectiveCamera::new(Transform::look_at(pos.p(), look.p(), up.v()), Transform::perspective(fov, 0.1, 100.), BBox2f { min: Point2f::new(win[0] as f32, win[2] as f32), max: Point2f::new(win[1] as f32, win[3] as f32) }, Point2u::new(res.0, res.1));
    let log = Arc::new(Mutex::new(vec![]));
    let rec = RecCam { inner: cam, log: log.clone() };
    let mut b = Builder::new();
    let black = Mat::Lambert { kd: [0.; 3] }.material();
    let mut order: Vec<usize> = (0..w.len()).collect();
    for k in (1..order.len()).rev() { let j = rng.below(k + 1); order.swap(k, j); }
    for k in order {
        let (n, m) = (w.recv.len(), w.mirrors.len()); let (g, m) = (w.geo(k), if k < n { w.recv[k].mat.material(None) } else if k < n + m { w.mirrors[k - n].mat.material(None) } else { black.clone() });
        match g { Geo::Tri { .. } => b.add_shape(g.triangle(m)), Geo::Sph { c, r } => b.add_shape(Sphere::new(c.p(), *r as f32, m)) }
    }
    for (l, d) in &w.lights { b.add_light(DistantLight::new(spec(*l), d.v())); }
    let film = Flt::Flat(0.5).film(res);
    let threads = rng.int(1, 4) as u8;
    let kind = rng.below(6);
    let seed = rng.u64();
    let (px, ppm) = match kind {
        0 => { let s = HaltonSampler::new(spp, film.sample_bbox()); go(b.construct(|s| KdTree::new(s, None)), s, rec, film, threads, file) }
        1 => { let s = HaltonSampler::new(spp, film.sample_bbox()); go(b.construct(|s| Simple::new(s)), s, rec, film, threads, file) }
        2 => go(b.construct(|s| KdTree::new(s, None)), RandomSampler::new(spp), rec, film, threads, file),
        3 => go(b.construct(|s| Simple::new(s)), RandomSampler::new(spp), rec, film, threads, file),
        4 => go(b.construct(|s| KdTree::new(s, None)), HSampler::new(seed, spp), rec, film, threads, file),
        _ => go(b.construct(|s| Simple::new(s)), HSampler::new(seed, spp), rec, film, threads, file),
    };
    c.eval(Some(hash(&[i, file as u64])));
    c.count(if file { "files" } else { "films" });
    let desc = || { let mut t = format!("film {:?} window {:?} fov {} from {:?} to {:?} up {:?}, spp {} threads {} sampler/container {}, lights {:?}, blockers {:?}, receiver", res, win, fov, pos, look, up, spp, threads, kind, w.lights, w.block); for x in w.mirrors.iter() { t += &format!(" mirror [{:?} {:?}]", x.geo, x.mat); } for x in &w.recv { t += &format!(" [{:?} {:?}]", x.geo, x.mat); } t.truncate(6000); t };
    // what each pixel should have gathered
    let n = (res.0 * res.1) as usize;
    struct Px { n: u32, sum: Vec<S3>, tol: f64, skip: bool, lit: bool }
    let mut want: Vec<Px> = (0..n).map(|_| Px { n: 0, sum: vec![[0.; 3]; w.lights.len()], tol: 0., skip: false, lit: false }).collect();
    for ((fx, fy), o, d) in log.lock().unwrap().iter() {
        let (x, y) = (*fx as f64, *fy as f64);
        let a = view.ahead(x, y); let a = (view.ax[0] * a.x + view.ax[1] * a.y + view.ax[2]).norm();
        c.check((*o - pos).len() <= 1e-5 * (pos.maxabs() + rad), "aim", || format!("ray from {:?}: {}", o, desc()));
        c.check(a.cross(d.norm()).len() < 2e-4 && a.dot(*d) > 0., "aim", || format!("ray {:?} at ({}, {}), expected {:?}: {}", d, x, y, a, desc()));
        c.check((d.len() - 1.).abs() < 1e-4, "aim", || format!("ray {:?} is not of unit length: {}", d, desc()));
        let (ix, iy) = (x.floor() as i64, y.floor() as i64);
        let inside = |x: i64, y: i64| x >= 0 && y >= 0 && x < res.0 as i64 && y < res.1 as i64;
        if (x - x.round()).abs() < 1e-4 || (y - y.round()).abs() < 1e-4 {
            for dx in -1..=1 { for dy in -1..=1 { if inside(ix + dx, iy + dy) { want[((iy + dy) * res.0 as i64 + ix + dx) as usize].skip = true; } } }
            continue;
        }
        if !inside(ix, iy) { continue; }
        let p = &mut want[(iy * res.0 as i64 + ix) as usize];
        p.n += 1;
        if p.skip { continue; }
        match w.trace(*o, *d) {
            Out::Skip(why) => { p.skip = true; c.count(&format!("skipped: {}", why)); }
            Out::Val(l, t, what) => { for k in 0..l.len() { p.sum[k] = add3(p.sum[k], l[k]); } p.tol = p.tol.max(t); c.count(what); if what.starts_with("lit") { p.lit = true; } }
        }
    }
    let img = match ppm::parse(&ppm) { Ok(i) => i, Err(e) => { c.violate("format", format!("{}: {}", e, desc())); return; } };
    if !c.check((img.w, img.h) == (res.0 as usize, res.1 as usize) && px.len() == n, "size", || format!("{}x{}: {}", img.w, img.h, desc())) { return; }
    let nl = w.lights.len() as f64;
    for k in 0..n {
        let p = &want[k];
        if p.skip { c.count("pixels_skipped"); continue; }
        if p.n == 0 { continue; }
        c.count(if p.lit { "pixels_lit" } else { "pixels_dark" });
        let at = || (k as u32 % res.0, k as u32 / res.0);
        if !c.check((px[k].1 - p.n as f64).abs() < 1e-3, "count", || format!("pixel {:?} holds {} samples, {} were taken: {}", at(), px[k].1, p.n, desc())) { continue; }
        let got = sc3(px[k].0, 1. / px[k].1);
        // one of the lights is chosen for each sample and counts for all
        let cand: Vec<S3> = if alike { vec![sc3(p.sum[0], nl / p.n as f64)] } else { p.sum.iter().map(|s| sc3(*s, nl / p.n as f64)).collect() };
        if !alike && cand.windows(2).any(|w| w[0] != w[1]) { c.count("pixels_choice"); }
        let tol = p.tol + 1e-4;
        let fits = cand.iter().any(|m| (0..3).all(|j| (got[j] - m[j]).abs() <= tol * m[j] + 1e-30));
        c.check(fits, if p.lit { "shading" } else { "dark" }, || format!("pixel {:?} is {:?}, expected {:?} within {:e}: {}", at(), got, cand, tol, desc()));
        let b = img.px[k];
        let ok = cand.iter().any(|m| (0..3).all(|j| (b[j] as u32) >= ppm::expect(m[j] * (1. - tol)).0 && b[j] as u32 <= ppm::expect(m[j] * (1. + tol)).1));
        c.check(ok, "colour", || format!("pixel {:?} is written as {:?}, expected {:?}: {}", at(), b, cand, desc()));
        if p.lit { c.maximum("relative_error", cand.iter().map(|m| (0..3).map(|j| (got[j] - m[j]).abs() / (tol * m[j] + 1e-30)).fold(0., f64::max)).fold(f64::MAX, f64::min)); }
    }
    if i < 3 { c.sample(desc); }
}

fn main() {
    run("C38", "one evaluation: one image of a textured surface (sphere, triangle, floor of tiles or convex body) shaded by distant lights through black blockers, rendered by the whole program; every camera sample is retraced in f64 (visibility, texture, scattering function, shadow) and each pixel must be the mean of its samples",
        &["samples whose visibility, texture cell, shadow or conditioning rounding may decide are skipped together with their pixel", "the receiver cannot light itself, so one shadow ray per sample decides its radiance"], |ctx| {
        let n = ctx.n(50000, 1000000);
        par(ctx, 1, n, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("case {}", i), |c| case(c, &mut rng, i, false)); });
        for i in 0..ctx.n(2500, 25000) {
            if ctx.stop() { break; }
            let mut rng = Rng::new(hash(&[ctx.seed, 78, i]));
            ctx.guard(|| format!("file case {}", i), |c| case(c, &mut rng, i, true));
        }
        for (k, m) in [("films", 25000), ("files", 1200), ("pixels_lit", 500_000), ("lit in a mirror", 50_000), ("lit in two mirrors", 2_000), ("pixels_dark", 200_000), ("shadow", 20_000), ("pixels_choice", 10_000)] { ctx.require(k, m); }
    });
}
