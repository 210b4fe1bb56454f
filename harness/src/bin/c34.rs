//! C34: closed surfaces have no cracks: nothing gets through the edges and vertices that triangles share.
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::integrator::Integrator;
use pt::verif::interaction::Interaction;
use pt::verif::light::{AreaLight, DistantLight};
use pt::verif::ray::Ray;
use pt::verif::scene::Builder;
use pt::verif::shape::Shape;
use pt::verif::shape_sphere::Sphere;
use pt::verif::shape_triangle::Triangle;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::scenes::*;
use ptmon::wild::*;
use std::collections::HashMap;
use std::sync::Arc;

/// closed surface; `centre` and every point nearer to it than `safe` of the way to the surface lie inside
#[derive(Clone)]
struct Mesh { v: Vec<V>, f: Vec<[usize; 3]>, centre: V, safe: f64, name: String }

/// joins equal vertices
fn weld(tris: Vec<[V; 3]>, centre: V, safe: f64, name: String) -> Mesh {
    let mut ids: HashMap<[u64; 3], usize> = HashMap::new();
    let mut vs = vec![];
    let f = tris.iter().map(|t| t.map(|p| { let p = v(p.x + 0., p.y + 0., p.z + 0.); *ids.entry([p.x.to_bits(), p.y.to_bits(), p.z.to_bits()]).or_insert_with(|| { vs.push(p); vs.len() - 1 }) })).collect();
    Mesh { v: vs, f, centre, safe, name }
}

/// cube of side two whose faces are cut into n x n cells with random diagonals
fn grid_cube(rng: &mut Rng, n: usize) -> Vec<[V; 3]> {
    let mut out = vec![];
    for k in 0..3 { for s in [-1., 1.] {
        let at = |i: usize, j: usize| { let mut p = [0.; 3]; p[k] = s; p[(k + 1) % 3] = -1. + 2. * i as f64 / n as f64; p[(k + 2) % 3] = -1. + 2. * j as f64 / n as f64; v(p[0], p[1], p[2]) };
        for i in 0..n { for j in 0..n {
            let (a, b, c, d) = (at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1));
            if rng.chance(0.5) { out.push([a, b, c]); out.push([a, c, d]); } else { out.push([a, b, d]); out.push([b, c, d]); }
        } }
    } }
    out
}

fn octahedron() -> Vec<[V; 3]> {
    let mut out = vec![];
    for x in [-1., 1.] { for y in [-1., 1.] { for z in [-1., 1.] { out.push([v(x, 0., 0.), v(0., y, 0.), v(0., 0., z)]); } } }
    out
}

fn subdivide(t: Vec<[V; 3]>) -> Vec<[V; 3]> {
    t.into_iter().flat_map(|[a, b, c]| { let m = |p: V, q: V| { let (p, q) = if (p.x, p.y, p.z) < (q.x, q.y, q.z) { (p, q) } else { (q, p) }; ((p + q) * 0.5).norm() }; let (d, e, f) = (m(a, b), m(b, c), m(c, a)); vec![[a, d, f], [d, b, e], [f, e, c], [d, e, f]] }).collect()
}

fn mesh(rng: &mut Rng, fine: bool) -> Mesh {
    let kind = rng.below(6);
    let n = if fine { 1 + rng.below(12) } else { 1 + rng.below(3) };
    let (mut t, mut safe, name) = match kind {
        0 => (grid_cube(rng, n), 0.95, format!("cube {}", n)),
        1 => { let t = grid_cube(rng, n); (t, 0.8, format!("rotated cube {}", n)) }
        2 => { let mut t = octahedron(); let k = if fine { rng.below(5) } else { rng.below(2) }; for _ in 0..k { t = subdivide(t); } (t, 0.6, format!("octahedron {}", k)) }
        3 => (vec![[v(1., 1., 1.), v(1., -1., -1.), v(-1., 1., -1.)], [v(1., 1., 1.), v(-1., -1., 1.), v(1., -1., -1.)], [v(1., 1., 1.), v(-1., 1., -1.), v(-1., -1., 1.)], [v(1., -1., -1.), v(-1., -1., 1.), v(-1., 1., -1.)]], 0.6, "tetrahedron".to_string()),
        4 => { let mut t = octahedron(); for _ in 0..if fine { 2 + rng.below(3) } else { 2 } { t = subdivide(t); } (t, 0.3, "rough ball".to_string()) }
        _ => (grid_cube(rng, n), 0.3, format!("lattice box {}", n)),
    };
    // placement
    let (sc, off) = (rng.logu(1e-4, 1e4), if rng.chance(0.5) { v(0., 0., 0.) } else { pt(rng, 5.) });
    let (sc, off) = if rng.chance(0.4) { (2f64.powi(sc.log2() as i32), v(off.x.round(), off.y.round(), off.z.round())) } else { (sc, off) };
    let stretch = if rng.chance(0.5) || kind == 5 { v(1., 1., 1.) } else { v(rng.logu(0.4, 2.5), rng.logu(0.4, 2.5), rng.logu(0.4, 2.5)) };
    let rot = if kind == 1 || (kind > 1 && kind < 5 && rng.chance(0.5)) { let n = dir(rng); let (s, t) = onb(n); Some((s, t, n)) } else { None };
    let rough = kind == 4;
    let mut noise: HashMap<[u64; 3], f64> = HashMap::new();
    for tri in t.iter_mut() { for p in tri.iter_mut() {
        let mut q = *p;
        if rough { let k = *noise.entry([(q.x + 0.).to_bits(), (q.y + 0.).to_bits(), (q.z + 0.).to_bits()]).or_insert_with(|| rng.range(0.9, 1.1)); q = q * k; }
        q = v(q.x * stretch.x, q.y * stretch.y, q.z * stretch.z);
        if let Some((s, t, n)) = rot { q = s * q.x + t * q.y + n * q.z; }
        *p = ((q + off) * sc).q();
    } }
    if off.len() > 3. { safe *= 0.9; }
    weld(t, (off * sc).q(), safe, format!("{} scale {:e} offset {:?} stretch {:?}", name, sc, off, stretch))
}

impl Mesh {
    fn triangles(&self, m: Arc<dyn pt::verif::material::Material>) -> Vec<Triangle> {
        Triangle::new_triangle_mesh(self.v.iter().map(|p| p.p()).collect::<Vec<_>>().into_boxed_slice(), self.f.clone().into_boxed_slice(), None, None, m)
    }
    /// on the surface: a vertex, a point of an edge, of a face
    fn target(&self, rng: &mut Rng, c: &mut Ctx) -> V {
        let f = rng.pick(&self.f);
        let p = f.map(|k| self.v[k]);
        match rng.below(8) {
            0 | 1 => { c.count("to_vertex"); p[rng.below(3)] }
            2 => { c.count("near_vertex"); let k = rng.below(3); let s = rng.logu(1e-8, 1e-3); p[k] + (p[(k + 1) % 3] - p[k]) * s + (p[(k + 2) % 3] - p[k]) * (s * rng.f64()) }
            3 | 4 => { c.count("to_edge"); let k = rng.below(3); p[k] + (p[(k + 1) % 3] - p[k]) * if rng.chance(0.3) { 0.5 } else { rng.f64() } }
            5 => { c.count("near_edge"); let k = rng.below(3); let s = rng.f64(); p[k] + (p[(k + 1) % 3] - p[k]) * s + (p[(k + 2) % 3] - p[k]) * ((1. - s) * rng.logu(1e-9, 1e-4)) }
            _ => { c.count("to_face"); let (a, b) = (rng.f64().sqrt(), rng.f64()); p[0] * (1. - a) + p[1] * (a * (1. - b)) + p[2] * (a * b) }
        }
    }
    fn inside(&self, rng: &mut Rng) -> V {
        if rng.chance(0.25) { return self.centre; }
        let f = rng.pick(&self.f); let p = f.map(|k| self.v[k]);
        let q = (p[0] + p[1] + p[2]) / 3.;
        (self.centre + (q - self.centre) * (rng.f64() * self.safe)).q()
    }
}

fn axis_dir(rng: &mut Rng) -> V {
    loop { let d = v(rng.int(-1, 1) as f64, rng.int(-1, 1) as f64, rng.int(-1, 1) as f64); if d.len() > 0. { return d; } }
}

fn queries(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let m = mesh(rng, true);
    let mat = any_mat(rng, 0.1).material();
    let sphere = if rng.chance(0.1) { let r = m.v.iter().map(|p| (*p - m.centre).len()).fold(0., f64::max); Some(r as f32 as f64) } else { None };
    let shapes = || -> Box<[Arc<dyn Shape>]> {
        if let Some(r) = sphere { return vec![Arc::new(Sphere::new(m.centre.p(), r as f32, mat.clone())) as Arc<dyn Shape>].into_boxed_slice(); }
        m.triangles(mat.clone()).into_iter().map(|t| Arc::new(t) as Arc<dyn Shape>).collect()
    };
    let depth = rng.below(20) as u32;
    let conts: Vec<(&str, Box<dyn Container>)> = vec![("list", Box::new(Simple::new(shapes()))), ("kd-tree", Box::new(KdTree::new(shapes(), None))), ("kd-tree of limited depth", Box::new(KdTree::new(shapes(), Some(depth))))];
    c.eval(Some(hash(&[i])));
    c.count(if sphere.is_some() { "balls" } else { "meshes" });
    c.add("triangles", m.f.len() as u64);
    let desc = |o: V, d: V, t: f64| format!("{} ({} triangles, sphere {:?}, depth {}): from {:?} in direction {:?} extent {}", m.name, m.f.len(), sphere, depth, o, d, t);
    for _ in 0..150 {
        let o = if let Some(r) = sphere { (m.centre + dir(rng) * (r * 0.9 * rng.f64())).q() } else { m.inside(rng) };
        let target = m.target(rng, c);
        let what = rng.below(10);
        // from inside out, or from outside in
        let (o, d, tmax) = match what {
            0 => (o, dir(rng).q(), f64::INFINITY),
            1 => (o, axis_dir(rng), f64::INFINITY),
            2..=5 => (o, if rng.chance(0.5) { (target - o).q() } else { (target - o).norm().q() }, f64::INFINITY),
            6 => (o, ((target - o) * rng.logu(1.5, 20.)).q(), 1.),
            _ => { let far = if sphere.is_some() { 3. } else { 1.5 }; let p = (o + (target - o) * rng.logu(far, 20.)).q(); if sphere.is_some() && (p - m.centre).len() < 1.05 * sphere.unwrap() { continue; } (p, (o - p).q(), 1.) }
        };
        if what == 6 && sphere.is_some() && (o + d - m.centre).len() < 1.05 * sphere.unwrap() { continue; }
        if d.len() == 0. { continue; }
        let r = { let mut r = Ray::default(); r.origin = o.p(); r.direction = d.v(); r.t_max = tmax as f32; r };
        let within = sphere.is_none() && what >= 6;
        if within { c.count("crossing_segments"); } else { c.count("rays_from_inside"); }
        for (name, k) in &conts {
            let h = k.intersect(&r);
            c.check(h.is_some(), "crack", || format!("{}: nothing is hit: {}", name, desc(o, d, tmax)));
            c.check(k.intersect_p(&r), "crack-shadow", || format!("{}: not obstructed: {}", name, desc(o, d, tmax)));
            if let Some(h) = h {
                // what is hit lies ahead and on the surface
                let p = h.p.to();
                let size = (m.v[0] - m.centre).len() + m.centre.len();
                let t = (p - o).dot(d) / d.dot(d);
                c.check(t > 0. && t <= tmax * (1. + 1e-3) && (o + d * t - p).len() < 1e-4 * (size + o.len()), "place", || format!("{}: {:?} is hit: {}", name, p, desc(o, d, tmax)));
            }
        }
        // the segment as the renderer builds it
        if tmax == 1. {
            let (mut a, mut b) = (Interaction::default(), Interaction::default());
            a.p = o.p(); b.p = (o + d).p();
            a.n = dir(rng).n(); b.n = dir(rng).n();
            let s = a.spawn_ray_to(&b);
            for (name, k) in &conts { c.check(k.intersect_p(&s), "crack-segment", || format!("{}: the segment is not obstructed: {}", name, desc(o, d, tmax))); }
        }
    }
    if i < 3 { c.sample(|| m.name.clone()); }
}

/// no light enters a closed room
fn dark(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let m = mesh(rng, false);
    let mat = loop { let m = any_mat(rng, 0.1); if !matches!(m, Mat::Glass { .. }) { break m; } };
    let mut b = Builder::new();
    for t in m.triangles(mat.material()) { b.add_shape(t); }
    let size = m.v.iter().map(|p| (*p - m.centre).len()).fold(0., f64::max);
    for _ in 0..rng.int(1, 2) { b.add_light(DistantLight::new(spec([1., 1., 1.]), dir(rng).v())); }
    for _ in 0..rng.below(3) {
        let n = dir(rng); let (s, t) = onb(n);
        let o = m.centre + n * (size * rng.range(1.1, 3.));
        b.add_area_light(AreaLight::new(spec([5., 5., 5.]), Geo::Tri { p: [(o - s * size).q(), (o + s * size - t * size).q(), (o + t * size).q()], vn: None, rev: rng.chance(0.5) }.triangle(mat.material())));
    }
    let res = (48, 48);
    let rays: Vec<(V, V)> = (0..res.0 * res.1).map(|_| { let o = m.inside(rng); (o, dir(rng).q()) }).collect();
    let film = Flt::Flat(0.5).film(res);
    let p = Arc::new(Probe::new());
    let (smp, cam) = (WSmp { inner: Smp::H(HSampler::new(rng.u64(), 1)), p: p.clone() }, WCam { inner: Cam::List(Arc::new(rays.clone()), res.0), p });
    let px = if rng.chance(0.5) { let i = Integrator::new(b.construct(|s| Simple::new(s)), smp, cam, film); i.render(1); i.verif_film().verif_pixels() }
        else { let i = Integrator::new(b.construct(|s| KdTree::new(s, None)), smp, cam, film); i.render(1); i.verif_film().verif_pixels() };
    c.eval(Some(hash(&[i, 2])));
    c.count("closed_rooms");
    c.add("paths_in_the_dark", px.len() as u64);
    let lit = px.iter().filter(|p| p.0.r > 0. || p.0.g > 0. || p.0.b > 0.).count();
    c.add("leaks", lit as u64);
    c.maximum("leaks_in_a_room", lit as f64);
    c.check(lit <= 6, "light-leak", || format!("{} of {} paths in a closed room see light: {} {:?}", lit, px.len(), m.name, mat));
}

fn main() {
    run("C34", "one evaluation: one closed surface (mesh with shared vertices, or sphere) and 150 rays from inside or segments between inside and outside, aimed at its vertices, edges and faces, each of which must hit in every container; or one closed room with lights outside, rendered from inside; distinct = different surfaces",
        &["rays start away from the surface", "bounced paths: a path that starts within rounding of an edge may get through (at most 6 of 2304 paths in a room, one in 20 000 overall)"], |ctx| {
        let n = ctx.n(12000, 150000);
        par(ctx, 1, n, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("case {}", i), |c| queries(c, &mut rng, i)); });
        let n = ctx.n(3000, 30000);
        par(ctx, 2, n, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("room {}", i), |c| dark(c, &mut rng, i)); });
        let (l, p) = (ctx.get("leaks"), ctx.get("paths_in_the_dark"));
        ctx.check(l <= 10 + p / 20_000, "light-leaks", || format!("{} of {} paths in closed rooms see light", l, p));
        for (k, m) in [("meshes", 3000), ("balls", 300), ("rays_from_inside", 500_000), ("crossing_segments", 300_000), ("to_vertex", 200_000), ("to_edge", 200_000), ("closed_rooms", 1000)] { ctx.require(k, m); }
    });
}
