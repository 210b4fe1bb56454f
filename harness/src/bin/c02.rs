//! C02: occlusion queries against closest-hit queries.
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::light::AreaLight;
use pt::verif::scene::Builder;
use pt::verif::shape::Shape;
use pt::verif::spectrum::Spectrum;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::synth::SMat;
use std::sync::Arc;

/// no rounding-level decision is involved for any shape the ray comes near
fn settled(geo: &[Geo], r: &R) -> bool {
    let mut hit = false;
    for g in geo {
        let mut k = g.isect(r.o, r.d, r.tmax).kind;
        if let Geo::Sph { c, r: rad } = g {
            let e = 4e-7 * (c.maxabs() + rad + r.o.maxabs());
            if ref_sphere(*c, rad - e, r.o, r.d, r.tmax).kind != ref_sphere(*c, rad + e, r.o, r.d, r.tmax).kind { k = Tri::Unsure; }
        }
        if k == Tri::Hit { hit = true; }
    }
    hit || geo.iter().all(|g| g.isect(r.o, r.d, r.tmax).kind == Tri::Miss)
}

fn judge(c: &mut Ctx, what: &str, geo: &[Geo], r: &R, p: bool, i: bool) {
    c.eval(if i { Some(hash_f(&[r.o.x as f32, r.o.y as f32, r.o.z as f32, r.d.x as f32, r.d.y as f32, r.d.z as f32, r.tmax as f32])) } else { None });
    c.count(&format!("{}_{}", what, if i { "hit" } else { "miss" }));
    if p == i { return; }
    // one shape answers both questions by the same decision; structures may order their rounding-level decisions differently
    if what != "shape" && what != "area_light" && !settled(geo, r) { c.count("excused_rounding"); return; }
    c.violate("disagree", format!("{}: intersect_p={} intersect={} shapes={} ray kind {} o={:?} d={:?} tmax={} {}", what, p, i, geo.len(), r.kind, r.o, r.d, r.tmax,
        if geo.len() == 1 { format!("{:?}", geo[0]) } else { String::new() }));
}

fn main() {
    run("C02", "one evaluation: one ray asked both ways of one shape, light, acceleration structure or scene; distinct = rays with a hit", &["for acceleration structures and scenes, cases whose outcome depends on rounding (f64 reference unsure for every candidate) are not judged"], |ctx| {
        let n = ctx.n(40000, 800000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let geo = scene(&mut rng, i as usize, if i % 10 == 0 { 300 } else { 60 });
            let shapes: Vec<Arc<dyn Shape>> = geo.iter().map(|g| g.shape()).collect();
            let depth = match rng.below(4) { 0 => Some(rng.below(30) as u32), _ => None };
            let kd = KdTree::new(shapes.clone().into_boxed_slice(), depth);
            let simple = Simple::new(shapes.clone().into_boxed_slice());
            // a scene of the same shapes, some of them as lights
            let mut b = Builder::new();
            let mut al = vec![];
            for g in &geo {
                let m = || Arc::new(SMat {});
                if let (Geo::Tri { .. }, true) = (g, rng.chance(0.3)) {
                    b.add_area_light(AreaLight::new(Spectrum::new(1., 1., 1.), g.triangle(m())));
                    al.push((g.clone(), AreaLight::new(Spectrum::new(1., 1., 1.), g.triangle(m()))));
                } else { match g { Geo::Tri { .. } => b.add_shape(g.triangle(m())), Geo::Sph { c, r } => b.add_shape(pt::verif::shape_sphere::Sphere::new(c.p(), *r as f32, m())) } }
            }
            let sc = if rng.chance(0.5) { let d = depth; c.guard(|| "construct".into(), |_| Sc::K(b.construct(|s| KdTree::new(s, d)))) } else { c.guard(|| "construct".into(), |_| Sc::S(b.construct(|s| Simple::new(s)))) };
            let sc = match sc { Some(s) => s, None => return };
            for _ in 0..40 {
                let r = ray(&mut rng, &geo);
                let ry = r.ray();
                let g2 = &geo; let s2 = &shapes; let al2 = &al; let sc2 = &sc;
                let picks: Vec<usize> = (0..6).map(|_| rng.below(geo.len())).collect();
                // extents around the hit
                let mut rays = vec![ray_copy(&r)];
                if let Some((_, t)) = s2.iter().filter_map(|s| s.intersect(&ry)).min_by(|a, b| a.1.partial_cmp(&b.1).unwrap()) {
                    for f in [0.5, 0.999, 1.001, 1.0] { rays.push(R { tmax: (t * f) as f64, ..ray_copy(&r) }); }
                    for _ in 0..2 { let e = rng.logu(1e-7, 0.3); rays.push(R { tmax: (t as f64 * (1. + e)) as f32 as f64, ..ray_copy(&r) }); }
                }
                c.guard(|| format!("ray {:?} {:?}", r.o, r.d), |c| for r in &rays {
                    let ry = r.ray();
                    for k in &picks { judge(c, "shape", &g2[*k..*k + 1], r, s2[*k].intersect_p(&ry), s2[*k].intersect(&ry).is_some()); }
                    for (g, l) in al2.iter().take(3) { judge(c, "area_light", std::slice::from_ref(g), r, l.intersect_p(&ry), l.intersect(&ry).is_some()); }
                    judge(c, "kdtree", g2, r, kd.intersect_p(&ry), kd.intersect(&ry).is_some());
                    judge(c, "simple", g2, r, simple.intersect_p(&ry), simple.intersect(&ry).is_some());
                    match sc2 { Sc::K(s) => judge(c, "scene", g2, r, s.intersect_p(&ry), s.intersect(&ry).is_some()), Sc::S(s) => judge(c, "scene", g2, r, s.intersect_p(&ry), s.intersect(&ry).is_some()) }
                });
                if c.stop() { return; }
            }
            if i < 3 { c.sample(|| format!("style {} with {} shapes ({} lights)", i as usize % STYLES, geo.len(), al.len())); }
        });
        let m = ctx.n(24, 120);
        par(ctx, 2, m, |c, i| {
            let mut rng = c.rng.clone();
            let n = match (i % 6, i) { (0, 0) => 300000, (0, _) => 60000, (5, _) => 70, (4, _) => 300, (2, _) => 1000, _ => 6000 };
            let geo = huge(&mut rng, i as usize, n);
            let bb = bounds(&geo);
            let shapes: Vec<Arc<dyn Shape>> = geo.iter().map(|g| g.shape()).collect();
            let depth = if i == 0 { None } else { *rng.pick(&[None, None, Some(0), Some(2), Some(12)]) };
            let kd = match c.guard(|| format!("building {} shapes", geo.len()), |_| KdTree::new(shapes.clone().into_boxed_slice(), depth)) { Some(k) => k, None => return };
            let simple = Simple::new(shapes.clone().into_boxed_slice());
            c.count("large_sets");
            c.maximum("shapes_in_one_set", shapes.len() as f64);
            for j in 0..(if i == 0 { 20000 } else { 3000 }) {
                let mut r = ray_in(&mut rng, &geo, bb);
                // ending around the first hit, so that the whole way there is free
                if rng.chance(0.5) { if let Some(h) = kd.intersect(&r.ray()) { let t = (h.p.to() - r.o).dot(r.d) / r.d.dot(r.d); let f = (t * rng.pick(&[0.9, 1.001, 1.01, 1.1])) as f32 as f64; if f > 0. { r.tmax = f; } } }
                let ry = r.ray();
                let (g2, kd, si) = (&geo, &kd, &simple);
                c.guard(|| format!("ray {:?} {:?}", r.o, r.d), |c| {
                    judge(c, "kdtree", g2, &r, kd.intersect_p(&ry), kd.intersect(&ry).is_some());
                    if j < 6000000 / g2.len() { judge(c, "simple", g2, &r, si.intersect_p(&ry), si.intersect(&ry).is_some()); }
                });
                if c.stop() { return; }
            }
        });
        ctx.require("large_sets", 20);
        for w in ["shape", "area_light", "kdtree", "simple", "scene"] { for o in ["hit", "miss"] { ctx.require(&format!("{}_{}", w, o), 1000); } }
    });
}
fn ray_copy(r: &R) -> R { R { o: r.o, d: r.d, tmax: r.tmax, kind: r.kind } }
enum Sc { K(pt::verif::scene::Scene<KdTree>), S(pt::verif::scene::Scene<Simple>) }
