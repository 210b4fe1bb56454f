//! C31: scene construction and mesh expansion with recording shapes, lights and container.
use pt::verif::bbox::BBox3f;
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::interaction::Interaction;
use pt::verif::light::{AreaLight, DistantLight, Light, VisibilityTester};
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::scene::Builder;
use pt::verif::shape::Shape;
use pt::verif::shape_triangle::Triangle;
use pt::verif::spectrum::Spectrum;
use pt::verif::vector::*;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::synth::SMat;
use std::sync::{Arc, Mutex};

/// Shape with an identity (its area) and a box.
struct Rec { id: u32, lo: V, hi: V, emit: bool }
impl Shape for Rec {
    fn bbox(&self) -> BBox3f { BBox3f::new(self.lo.p(), self.hi.p()) }
    fn area(&self) -> f32 { self.id as f32 }
    fn intersect_p(&self, _: &Ray) -> bool { false }
    fn intersect(&self, _: &Ray) -> Option<(Interaction, f32)> { None }
    fn material(&self) -> Arc<dyn Material> { Arc::new(SMat {}) }
    fn sample(&self, _: Point2f) -> Interaction { let mut i = Interaction::default(); i.p = ((self.lo + self.hi) * 0.5).p(); i.n = Normal3f::new(0., 0., 1.); i }
    fn l(&self, _: &Interaction, _: Vector3f) -> Spectrum { if self.emit { Spectrum::new(9., 9., 9.) } else { Spectrum::default() } }
}
/// Light with an identity (its radiance) that records what it is told.
type Told = Arc<Mutex<Vec<(u32, V, V)>>>;
struct RecLight { id: u32, told: Told, inner: DistantLight }
impl Light for RecLight {
    fn is_delta(&self) -> bool { true }
    fn pre_process(&mut self, b: BBox3f) { self.told.lock().unwrap().push((self.id, b.min.to(), b.max.to())); }
    fn sample_li(&self, i: &Interaction, u: Point2f) -> (Vector3f, Spectrum, f32, VisibilityTester) { let (w, _, _, v) = self.inner.sample_li(i, u); (w, Spectrum::new(self.id as f32, 0., 0.), 1., v) }
    fn pdf_li(&self, _: &Interaction, _: Vector3f) -> f32 { 0. }
}
/// Container that keeps what it is given and records the rays it is asked about.
struct RecCont { shapes: Box<[Arc<dyn Shape>]>, rays: Arc<Mutex<Vec<(bool, [u32; 7])>>>, answer: bool }
fn bits(r: &Ray) -> [u32; 7] { [r.origin.x, r.origin.y, r.origin.z, r.direction.x, r.direction.y, r.direction.z, r.t_max].map(|x| x.to_bits()) }
impl Container for RecCont {
    fn bbox(&self) -> BBox3f { self.shapes.first().map_or(BBox3f { min: Point3f::new(0., 0., 0.), max: Point3f::new(0., 0., 0.) }, |s| s.bbox()) }
    fn intersect_p(&self, r: &Ray) -> bool { self.rays.lock().unwrap().push((true, bits(r))); self.answer }
    fn intersect(&self, r: &Ray) -> Option<Interaction> { self.rays.lock().unwrap().push((false, bits(r))); if self.answer { let mut i = Interaction::default(); i.p = r.origin; i.shape = self.shapes.first().cloned(); Some(i) } else { None } }
}

fn building(c: &mut Ctx, rng: &mut Rng, idx: u64) {
    let many = idx % 300 == 0;
    let n = if idx == 2100 || idx == 5100 { 70_003 } else if many { rng.logu(100., 5000.) as u32 } else { (match rng.below(5) { 0 => rng.int(1, 3), 1 => rng.int(1, 80), _ => rng.int(1, 15) }) as u32 };
    if many { c.count("large_scenes"); }
    let mix = rng.below(5);
    let off = if rng.chance(0.5) { pt(rng, 50.) } else { v(0., 0., 0.) };
    let told: Told = Arc::new(Mutex::new(vec![]));
    let rays = Arc::new(Mutex::new(vec![]));
    let answer = rng.chance(0.5);
    let mut b = Builder::new();
    let (mut shapes, mut lights, mut areas): (Vec<u32>, Vec<u32>, Vec<u32>) = (vec![], vec![], vec![]);
    let (mut lo, mut hi) = (v(1e30, 1e30, 1e30), v(-1e30, -1e30, -1e30));
    let mut order = String::new();
    for id in 1..=n {
        let k = match mix { 0 => 0, 1 => rng.below(2), 2 => 2, 3 => *rng.pick(&[1usize, 2]), _ => rng.below(3) };
        let mut bx = || { let p = (pt(rng, 10.) + off).q(); let q = (p + v(rng.f64(), rng.f64(), rng.f64()) * rng.logu(0.01, 20.)).q(); (p, q) };
        match k {
            0 => { let (p, q) = bx(); lo = vmin(lo, p); hi = vmax(hi, q); b.add_shape(Rec { id, lo: p, hi: q, emit: false }); shapes.push(id); order.push('s'); }
            1 => { b.add_light(RecLight { id, told: told.clone(), inner: DistantLight::new(Spectrum::new(1., 1., 1.), Vector3f::new(0., 0., 1.)) }); lights.push(id); order.push('l'); }
            _ => { let (p, q) = bx(); lo = vmin(lo, p); hi = vmax(hi, q); b.add_area_light(AreaLight::new(Spectrum::new(id as f32, 0., 0.), Rec { id, lo: p, hi: q, emit: false })); areas.push(id); order.push('a'); }
        }
    }
    let desc = format!("sequence {}", order);
    let mut is_area = vec![false; n as usize + 1];
    for a in &areas { is_area[*a as usize] = true; }
    if areas.len() > 256 { c.count("more_than_256_area_lights"); }
    if lights.len() > 256 { c.count("more_than_256_lights"); }
    if shapes.len() > 256 { c.count("more_than_256_shapes"); }
    if shapes.is_empty() && areas.is_empty() { return; }
    c.eval(Some(hash(&[idx, 1]))); c.count("constructions");
    c.count(match (shapes.is_empty(), lights.is_empty(), areas.is_empty()) { (true, _, _) => "without_plain_shapes", (_, true, true) => "without_lights", (_, false, false) => "with_everything", _ => "with_some" });
    c.sample(|| desc.clone());
    c.guard(|| desc.clone(), |c| {
        let got: Arc<Mutex<Vec<Arc<dyn Shape>>>> = Arc::new(Mutex::new(vec![]));
        let (g2, r2, t2) = (got.clone(), rays.clone(), told.clone());
        let mut told_before = 0;
        let tb = &mut told_before;
        let sc = b.construct(move |s| { *tb = t2.lock().unwrap().len(); *g2.lock().unwrap() = s.iter().cloned().collect(); RecCont { shapes: s, rays: r2, answer } });
        // every shape exactly once
        let mut ids: Vec<u32> = got.lock().unwrap().iter().map(|s| s.area() as u32).collect();
        ids.sort();
        let mut want: Vec<u32> = shapes.iter().chain(areas.iter()).cloned().collect();
        want.sort();
        c.check(ids == want, "shapes", || format!("{}: shapes {:?} reach the container instead of {:?}", desc, ids, want));
        c.add("shapes_seen", ids.len() as u64);
        // emission of area lights as surfaces, boxes kept
        for s in got.lock().unwrap().iter() {
            let id = s.area() as u32;
            let mut i = Interaction::default(); i.n = Normal3f::new(0., 0., 1.);
            let e = s.l(&i, Vector3f::new(0., 0., 1.));
            let w = if is_area[id as usize] { id as f32 } else { 0. };
            c.check(e.r == w, "surface-emission", || format!("{}: shape {} emits {} instead of {}", desc, id, e.r, w));
        }
        // every light exactly once
        let i = Interaction::default();
        let mut ls: Vec<u32> = vec![];
        for l in sc.lights() {
            // an area light is asked from a point it faces
            let mut r = i.clone(); r.p = Point3f::new(0., 0., 1e6);
            ls.push(l.sample_li(&r, Point2f::new(0.3, 0.3)).1.r as u32);
        }
        ls.sort();
        let mut want: Vec<u32> = lights.iter().chain(areas.iter()).cloned().collect();
        want.sort();
        c.check(ls == want, "lights", || format!("{}: the scene's lights are {:?} instead of {:?}", desc, ls, want));
        c.add("lights_seen", ls.len() as u64);
        // extents: complete when there are plain shapes; otherwise the origin may be included
        let t = told.lock().unwrap();
        let last: std::collections::HashMap<u32, &(u32, V, V)> = if many { t.iter().map(|x| (x.0, x)).collect() } else { Default::default() };
        for id in &lights {
            match if many { last.get(id).cloned() } else { t.iter().filter(|x| x.0 == *id).last() } {
                None => c.violate("extent-not-told", format!("{}: light {} was never told the extent", desc, id)),
                Some((_, a, b)) => {
                    let (mut l2, mut h2) = (lo, hi);
                    if shapes.is_empty() { l2 = vmin(l2, v(0., 0., 0.)); h2 = vmax(h2, v(0., 0., 0.)); }
                    let ok = (0..3).all(|k| a[k] <= lo[k] && b[k] >= hi[k] && a[k] >= l2[k] && b[k] <= h2[k]);
                    c.check(ok, "extent", || format!("{}: light {} is told {:?} to {:?}, the scene extends from {:?} to {:?}", desc, id, a, b, lo, hi));
                    c.count("extents_told");
                }
            }
        }
        drop(t);
        // queries go to the container unchanged
        for _ in 0..4 {
            let mut r = Ray::default(); r.origin = pt(rng, 5.).p(); r.direction = dir(rng).v(); if rng.chance(0.7) { r.t_max = rng.logu(0.01, 100.) as f32; }
            let (p, h) = (sc.intersect_p(&r), sc.intersect(&r));
            let log: Vec<_> = rays.lock().unwrap().drain(..).collect();
            let ok = log.iter().all(|x| x.1 == bits(&r)) && p == answer && h.is_some() == answer && h.map_or(true, |h| h.p.to() == r.origin.to());
            c.check(ok, "query", || format!("{}: the scene answers {} for {:?}/{:?}, the container answers {} (asked {:?})", desc, p, r.origin, r.direction, answer, log));
            c.count("queries");
        }
    });
}

/// real shapes: every one of them is found, area lights are visible and emit
fn visible(c: &mut Ctx, rng: &mut Rng, idx: u64) {
    // small spheres and triangles on a coarse lattice: each seen alone from close by
    let n = rng.int(1, 12);
    let mut b = Builder::new();
    let mut items: Vec<(Geo, Option<S3>)> = vec![];
    let mut cells: Vec<(i64, i64, i64)> = vec![];
    let nd = rng.below(3);
    for _ in 0..nd { b.add_light(DistantLight::new(Spectrum::new(1., 1., 1.), dir(rng).v())); }
    for k in 0..n {
        let cell = loop { let q = (rng.int(-3, 3), rng.int(-3, 3), rng.int(-3, 3)); if !cells.contains(&q) { break q; } };
        cells.push(cell);
        let o = v(cell.0 as f64, cell.1 as f64, cell.2 as f64) * 4.;
        let le = if rng.chance(0.4) { Some(q3([1. + k as f64, rng.f64(), rng.f64()])) } else { None };
        let g = match (le, rng.chance(0.5)) { (None, true) => Geo::sph(o, rng.range(0.3, 1.)), _ => { let nn = dir(rng); let (s, t) = onb(nn); Geo::tri([o + s, o - s * 0.5 + t * 0.87, o - s * 0.5 - t * 0.87]) } };
        match (&g, le) { (Geo::Tri { .. }, Some(l)) => b.add_area_light(AreaLight::new(spec(l), g.triangle(Arc::new(SMat {})))), (Geo::Tri { .. }, None) => b.add_shape(g.triangle(Arc::new(SMat {}))), (Geo::Sph { c, r }, _) => b.add_shape(pt::verif::shape_sphere::Sphere::new(c.p(), *r as f32, Arc::new(SMat {}))) }
        items.push((g, le));
    }
    let desc = format!("{:?}", items);
    c.eval(Some(hash(&[idx, 3])));
    c.guard(|| desc.clone(), |c| {
        let mut look = |c: &mut Ctx, f: &dyn Fn(&Ray) -> Option<Interaction>| {
            for (g, le) in &items {
                let (t, nn) = match g { Geo::Sph { c, .. } => (*c, dir(rng)), Geo::Tri { p, .. } => ((p[0] + p[1] + p[2]) * (1. / 3.), (p[1] - p[0]).cross(p[2] - p[0]).norm() * if rng.chance(0.5) { 1. } else { -1. }) };
                let o = t + nn * 1.6;
                let mut r = Ray::default(); r.origin = o.p(); r.direction = (-nn).v(); r.t_max = f32::INFINITY;
                match f(&r) {
                    None => c.violate("invisible", format!("{:?} not found in {}", g, desc)),
                    Some(i) => {
                        c.count("shapes_found");
                        let want = match g { Geo::Sph { c, r } => *c + nn * *r, _ => t };
                        c.check((i.p.to() - want).len() < 1e-3, "hit-point", || format!("{:?} hit at {:?} instead of {:?} in {}", g, i.p, want, desc));
                        let e = sp(i.le(nn.v()));
                        let front = match g { Geo::Tri { p, .. } => (p[1] - p[0]).cross(p[2] - p[0]).dot(nn) > 0., _ => false };
                        let w = match le { Some(l) if front => *l, _ => [0.; 3] };
                        c.check(e == w, "emission-at-hit", || format!("{:?} emits {:?} towards {:?} instead of {:?} in {}", g, e, nn, w, desc));
                        if max3(w) > 0. { c.count("lights_seen_shining"); }
                    }
                }
            }
        };
        // the builder is consumed by one scene, so take one container at random
        if idx % 2 == 0 { let s = b.construct(|s| KdTree::new(s, None)); look(c, &|r| s.intersect(r)); c.check(s.lights().len() == nd + items.iter().filter(|x| x.1.is_some()).count(), "light-count", || format!("{} lights in {}", s.lights().len(), desc)); }
        else { let s = b.construct(|s| Simple::new(s)); look(c, &|r| s.intersect(r)); c.check(s.lights().len() == nd + items.iter().filter(|x| x.1.is_some()).count(), "light-count", || format!("{} lights in {}", s.lights().len(), desc)); }
    });
}

fn meshes(c: &mut Ctx, rng: &mut Rng, idx: u64) {
    let big = idx % 500 == 1;
    let nv = if big { rng.logu(100., 90000.) as usize } else { rng.int(3, 30) as usize };
    let verts: Vec<V> = (0..nv).map(|_| pt(rng, 5.).q()).collect();
    let nt = (if big { if rng.chance(0.01) { rng.int(65_000, 70_000) } else { rng.int(100, 3000) } } else { match rng.below(4) { 0 => 0, 1 => 1, _ => rng.int(1, 40) } }) as usize;
    if big { c.count("large_meshes"); }
    let mut tri: Vec<[usize; 3]> = vec![];
    for _ in 0..nt { let t = [rng.below(nv), rng.below(nv), rng.below(nv)]; if t[0] != t[1] && t[1] != t[2] && t[0] != t[2] && (Geo::tri([verts[t[0]], verts[t[1]], verts[t[2]]])).quality() > 0.02 { tri.push(t); } if rng.chance(0.06) { let a = rng.below(nv); let b = rng.below(nv); tri.push(*rng.pick(&[[a, a, b], [a, b, b], [a, b, a], [a, a, a]])); } if rng.chance(0.1) && !tri.is_empty() { let l = tri[tri.len() - 1]; tri.push(l); } }
    let normals = rng.below(4); // 0,1: none; 2: for every triangle; 3: more than enough
    let nn = rng.int(1, 12) as usize;
    let norms: Vec<V> = (0..nn).map(|_| dir(rng).q()).collect();
    let extra = if normals == 3 { rng.below(3) } else { 0 };
    let ni: Vec<[usize; 3]> = (0..tri.len() + extra).map(|_| [rng.below(nn), rng.below(nn), rng.below(nn)]).collect();
    let desc = format!("mesh vertices {:?} triples {:?} normals {:?}", verts, tri, if normals >= 2 { Some((&norms, &ni)) } else { None });
    c.eval(Some(hash(&[idx, 2]))); c.count("meshes");
    c.guard(|| desc.clone(), |c| {
        let mesh = Triangle::new_triangle_mesh(verts.iter().map(|v| v.p()).collect(), tri.clone().into_boxed_slice(),
            if normals >= 2 { Some(norms.iter().map(|n| n.n()).collect()) } else { None }, if normals >= 2 { Some(ni.clone().into_boxed_slice()) } else { None }, Arc::new(SMat {}));
        if !c.check(mesh.len() == tri.len(), "mesh-size", || format!("{} triangles from {} triples: {}", mesh.len(), tri.len(), desc)) { return; }
        for (k, t) in mesh.iter().enumerate() {
            let p = [verts[tri[k][0]], verts[tri[k][1]], verts[tri[k][2]]];
            let vn = if normals >= 2 { Some([norms[ni[k][0]], norms[ni[k][1]], norms[ni[k][2]]]) } else { None };
            // exactly the vertices: box, area and the behaviour of the triangle built directly
            let twin = Triangle::new([p[0].p(), p[1].p(), p[2].p()], vn.map(|n| [n[0].n(), n[1].n(), n[2].n()]), false, Arc::new(SMat {}));
            let (lo, hi) = (vmin(vmin(p[0], p[1]), p[2]), vmax(vmax(p[0], p[1]), p[2]));
            let bb = t.bbox();
            let slack = 1e-5;
            c.check((bb.min.to() - lo).maxabs() <= slack && (bb.max.to() - hi).maxabs() <= slack, "mesh-box", || format!("triangle {} has box {:?} {:?}, its vertices {:?}: {}", k, bb.min, bb.max, p, desc));
            c.check(t.area().to_bits() == twin.area().to_bits(), "mesh-area", || format!("triangle {} area {}: {}", k, t.area(), desc));
            for _ in 0..4 {
                let g = Geo::Tri { p, vn: None, rev: false };
                let target = g.point(rng);
                let o = target + dir(rng) * rng.range(0.5, 8.);
                let mut r = Ray::default(); r.origin = o.p(); r.direction = (target - o).v(); r.t_max = f32::INFINITY;
                let (a, b) = (t.intersect(&r), twin.intersect(&r));
                match (a, b) {
                    (Some((a, ta)), Some((b, tb))) => {
                        let same = ta == tb && a.p.to() == b.p.to() && a.n.to() == b.n.to() && a.sn.to() == b.sn.to() && a.uv.x == b.uv.x && a.uv.y == b.uv.y && a.dpdu.to() == b.dpdu.to();
                        c.check(same, "mesh-hit", || format!("triangle {}: hit {:?} {:?} {:?} uv {:?}, directly built {:?} {:?} {:?} uv {:?}: {}", k, a.p, a.n, a.sn, a.uv, b.p, b.n, b.sn, b.uv, desc));
                        c.count("mesh_hits");
                        // against the vertices themselves
                        let rf = g.isect(r.origin.to(), r.direction.to(), f64::INFINITY);
                        if rf.kind == Tri::Hit {
                            c.check((ta as f64 - rf.t).abs() <= rf.tol.max(1e-4), "mesh-distance", || format!("triangle {}: hit at {} instead of {}: {}", k, ta, rf.t, desc));
                            let wuv = (rf.bary[1] + rf.bary[2], rf.bary[2]);
                            c.check((a.uv.x as f64 - wuv.0).abs() < 2e-3 && (a.uv.y as f64 - wuv.1).abs() < 2e-3, "mesh-corner-order", || format!("triangle {}: uv {:?} instead of {:?}: {}", k, a.uv, wuv, desc));
                            if let Some(vn) = vn {
                                let w = vn[0] * rf.bary[0] + vn[1] * rf.bary[1] + vn[2] * rf.bary[2];
                                if w.len() > 0.2 { c.check((a.sn.to() - w.norm()).len() < 2e-2, "mesh-normal", || format!("triangle {}: shading normal {:?} instead of {:?}: {}", k, a.sn, w.norm(), desc)); c.count("mesh_normals"); }
                            } else {
                                let w = (p[1] - p[0]).cross(p[2] - p[0]).norm();
                                c.check((a.n.to() - w).len() < 1e-3, "mesh-winding", || format!("triangle {}: normal {:?} instead of {:?}: {}", k, a.n, w, desc)); c.count("mesh_windings");
                            }
                        }
                    }
                    (None, None) => (),
                    (a, b) => c.violate("mesh-hit", format!("triangle {}: hit {} directly built {}: {}", k, a.is_some(), b.is_some(), desc)),
                }
            }
        }
        c.add("mesh_triangles", mesh.len() as u64);
        if normals == 3 && extra > 0 { c.count("meshes_with_spare_normals"); }
    });
}

fn main() {
    run("C31", "one evaluation: one random sequence of additions turned into a scene, or one random mesh; distinct = different sequences or meshes", &["without plain shapes the extent may also contain the origin", "normals are given for every triangle or for none"], |ctx| {
        let n = ctx.n(1200000, 3000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            match i % 3 { 0 => building(c, &mut rng, i), 1 => meshes(c, &mut rng, i), _ => visible(c, &mut rng, i / 3) }
        });
        for (k, m) in [("constructions", 5000), ("with_everything", 1000), ("without_plain_shapes", 1000), ("without_lights", 500), ("extents_told", 5000), ("mesh_normals", 5000), ("mesh_windings", 5000), ("meshes_with_spare_normals", 500), ("queries", 10000), ("lights_seen_shining", 2000), ("shapes_found", 20000), ("large_scenes", 1000), ("large_meshes", 300), ("more_than_256_area_lights", 200), ("more_than_256_lights", 200), ("more_than_256_shapes", 200)] { ctx.require(k, m); }
    });
}
