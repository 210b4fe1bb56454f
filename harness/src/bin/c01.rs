//! C01: acceleration structures against testing every shape.
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::ray::Ray;
use pt::verif::shape::Shape;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use std::sync::Arc;

struct Brute { t: Vec<Option<(f64, V)>> }
fn brute(shapes: &[Arc<dyn Shape>], r: &Ray) -> Brute {
    Brute { t: shapes.iter().map(|s| s.intersect(r).map(|(i, t)| (t as f64, i.p.to()))).collect() }
}
fn same(a: &Arc<dyn Shape>, b: &Arc<dyn Shape>) -> bool { Arc::as_ptr(a) as *const u8 == Arc::as_ptr(b) as *const u8 }

/// a hit that survives rounding of the shape and of its box to f32
fn certain(g: &Geo, r: &R) -> bool {
    g.isect(r.o, r.d, r.tmax).kind == Tri::Hit && match g {
        Geo::Sph { c, r: rad } => { let e = 4e-7 * (c.maxabs() + rad + r.o.maxabs()); ref_sphere(*c, rad - e, r.o, r.d, r.tmax).kind == Tri::Hit }
        _ => true,
    }
}

fn judge(c: &mut Ctx, what: &str, geo: &[Geo], shapes: &[Arc<dyn Shape>], cont: &dyn Container, r: &R, b: &Brute) {
    let ray = r.ray();
    let best = b.t.iter().flatten().map(|x| x.0).fold(f64::INFINITY, f64::min);
    let got = cont.intersect(&ray);
    let hit = best.is_finite();
    let desc = || format!("{} shapes={} ray kind {} o={:?} d={:?} tmax={}", what, shapes.len(), r.kind, r.o, r.d, r.tmax);
    c.eval(if hit { Some(hash_f(&[ray.origin.x, ray.origin.y, ray.origin.z, ray.direction.x, ray.direction.y, ray.direction.z])) } else { None });
    match got {
        None => {
            if !hit { c.count("agreed_misses"); return; }
            // at silhouettes rounding may decide either way; every hit shape must be a certain one
            let sure = (0..geo.len()).filter(|i| b.t[*i].is_some() && certain(&geo[*i], r)).count();
            if sure == 0 { c.count("excused_silhouettes"); return; }
            c.violate("missed-hit", format!("{}: no hit, but shape-by-shape testing finds t={}", desc(), best));
        }
        Some(i) => {
            let sh = match i.shape { Some(ref s) => s, None => { c.violate("no-shape", desc()); return; } };
            let k = match (0..shapes.len()).find(|k| same(&shapes[*k], sh) && b.t[*k].is_some()) { Some(k) => k, None => {
                c.violate("wrong-shape", format!("{}: reported shape is not hit by this ray", desc())); return; } };
            c.count("hits");
            let (t, p) = b.t[k].unwrap();
            let dl = r.d.len();
            let sc = (0..shapes.len()).filter(|j| b.t[*j].map(|x| x.0 < t).unwrap_or(false)).map(|j| (geo[j].lo() - r.o).len().max((geo[j].hi() - r.o).len())).fold(0., f64::max);
            let tol = 4e-6 * (sc / dl).max(t.abs());
            if t > best + tol {
                let sure = (0..geo.len()).filter(|j| b.t[*j].map(|x| x.0 < t - tol).unwrap_or(false) && certain(&geo[*j], r)).count();
                if sure == 0 { c.count("excused_silhouettes"); return; }
                c.violate("not-closest", format!("{}: hit at t={} but the closest is t={}: {:?} instead of {:?}", desc(), t, best, geo[k], (0..geo.len()).filter(|j| b.t[*j].map_or(false, |x| x.0 == best)).map(|j| &geo[j]).collect::<Vec<_>>()));
            } else if t > best { c.count("rounding_ties"); }
            c.check((i.p.to() - p).len() <= 1e-5 * (p.maxabs() + (p - r.o).len()), "wrong-point", || format!("{}: point {:?} instead of {:?} on {:?} at {}", desc(), i.p, p, geo[k], t));
        }
    }
}

fn main() {
    run("C01", "one evaluation: one ray through one acceleration structure, compared with per-shape queries; distinct = rays that hit something", &["rounding ties within 4e-6 relative distance and f64-uncertain silhouettes are not judged"], |ctx| {
        let n = ctx.n(40000, 120000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let geo = scene(&mut rng, i as usize, if i % 10 == 0 { 600 } else { 90 });
            let shapes: Vec<Arc<dyn Shape>> = geo.iter().map(|g| g.shape()).collect();
            c.add("shapes", shapes.len() as u64);
            c.count(&format!("style_{}", i as usize % STYLES));
            let depth = match rng.below(8) { 0 => Some(0), 1 => Some(1), 2 => Some(rng.below(6) as u32), 3 => Some(rng.below(40) as u32), _ => None };
            let bx = || shapes.clone().into_boxed_slice();
            let desc = || format!("building style {} seed chunk {}", i as usize % STYLES, i);
            let kd = match c.guard(desc, |_| KdTree::new(bx(), depth)) { Some(k) => k, None => return };
            let deep = KdTree::new(bx(), Some(25));
            let simple = Simple::new(bx());
            let (lo, hi) = bounds(&geo);
            for (nm, b) in [("kd", kd.bbox()), ("simple", simple.bbox())] {
                let e = 1e-6 * (lo.maxabs() + hi.maxabs());
                c.check((b.min.to() - lo).maxabs() <= e && (b.max.to() - hi).maxabs() <= e, "bbox", || format!("{} bbox {:?} {:?} instead of {:?} {:?}", nm, b.min, b.max, lo, hi));
            }
            for _ in 0..60 {
                let r = ray(&mut rng, &geo);
                c.count(&format!("ray_kind_{}", r.kind));
                let b = brute(&shapes, &r.ray());
                let g2 = &geo; let s2 = &shapes;
                c.guard(|| format!("ray {:?} {:?}", r.o, r.d), |c| {
                    judge(c, "kd-tree", g2, s2, &kd, &r, &b);
                    judge(c, "deep kd-tree", g2, s2, &deep, &r, &b);
                    judge(c, "simple", g2, s2, &simple, &r, &b);
                });
                // rays leaving the hit, and rays ending around it
                if let Some(i) = simple.intersect(&r.ray()) {
                    let w = dir(&mut rng);
                    let sp = i.spawn_ray(w.v());
                    let t = (i.p.to() - r.o).dot(r.d) / r.d.dot(r.d);
                    let fin = (t * *rng.pick(&[0.5, 0.99, 1.01, 2.])) as f32 as f64;
                    for q in [R { o: sp.origin.to(), d: sp.direction.to(), tmax: f64::INFINITY, kind: 100 }, R { o: r.o, d: r.d, tmax: fin, kind: 101 }] {
                        if q.tmax <= 0. { continue; }
                        let b = brute(&shapes, &q.ray());
                        c.count(&format!("ray_kind_{}", q.kind));
                        c.guard(|| format!("ray {:?} {:?}", q.o, q.d), |c| { judge(c, "kd-tree", g2, s2, &kd, &q, &b); judge(c, "simple", g2, s2, &simple, &q, &b); });
                    }
                }
                if c.stop() { return; }
            }
            if i < 3 { c.sample(|| format!("style {} with {} shapes, depth limit {:?}", i as usize % STYLES, geo.len(), depth)); }
        });
        // large sets: trees of hundreds of thousands of nodes, leaves of thousands of shapes
        let m = ctx.n(24, 120);
        par(ctx, 2, m, |c, i| {
            let mut rng = c.rng.clone();
            let n = match (i % 6, i) { (0, 0) => 300000, (0, _) => 60000, (5, _) => 70, (4, _) => 300, (2, _) => 1000, _ => 4000 };
            let geo = huge(&mut rng, i as usize, n);
            let bb = bounds(&geo);
            let shapes: Vec<Arc<dyn Shape>> = geo.iter().map(|g| g.shape()).collect();
            let depth = if i == 0 { None } else { *rng.pick(&[None, None, Some(0), Some(2), Some(12)]) };
            let kd = match c.guard(|| format!("building {} shapes", geo.len()), |_| KdTree::new(shapes.clone().into_boxed_slice(), depth)) { Some(k) => k, None => return };
            let simple = Simple::new(shapes.clone().into_boxed_slice());
            c.count("large_sets");
            c.maximum("shapes_in_one_set", shapes.len() as f64);
            let rays = (6000000 / shapes.len()).min(3000);
            let per = if i == 0 { 400 } else { rays.max(200) };
            for _ in 0..per {
                let r = ray_in(&mut rng, &geo, bb);
                let b = brute(&shapes, &r.ray());
                if b.t.iter().any(|x| x.is_some()) { c.count("large_set_hits"); }
                let (g2, s2, kd) = (&geo, &shapes, &kd);
                let si = &simple;
                c.guard(|| format!("ray {:?} {:?}", r.o, r.d), |c| { judge(c, "kd-tree of a large set", g2, s2, kd, &r, &b); judge(c, "simple, large set", g2, s2, si, &r, &b); });
                if c.stop() { return; }
            }
        });
        // shapes in geometric progression: a subdivision separates them one level at a time
        let m = ctx.n(120, 1200);
        par(ctx, 3, m, |c, i| {
            let mut rng = c.rng.clone();
            let mut geo = vec![];
            let ax = rng.below(3);
            let q = *rng.pick(&[2f64, 1.7, 1.5, 1.4]);
            let n = rng.int(60, ((70. / q.log2()) as i64).min(110)) as i32;
            // coordinates within 2^-30..2^40, where products of three stay clear of overflow and underflow
            let span = n as f64 * q.log2();
            let base = rng.range(-30., 40. - span) / q.log2();
            let at = if rng.chance(0.7) { v(0., 0., 0.) } else { lat(&mut rng, 3) * 2f64.powf(base * q.log2()) };
            let dia = rng.chance(0.6);
            for k in 0..n {
                let x = q.powf(k as f64 + base);
                let mut p = v(x, x, x);
                if !dia { for j in 0..3 { if j != ax { p[j] = x * rng.range(-0.3, 0.3); } } }
                for _ in 0..rng.int(1, 3) {
                    let mut o = p; o[(ax + 1) % 3] *= 1. + rng.range(-0.3, 0.3);
                    geo.push(if rng.chance(0.5) { Geo::sph(at + o, x * rng.range(0.02, 0.08)) } else { rand_tri(&mut rng, at + o, 0.1 * x) });
                }
            }
            geo.retain(|x| x.quality() > 1e-4);
            let shapes: Vec<Arc<dyn Shape>> = geo.iter().map(|g| g.shape()).collect();
            let depth = if rng.chance(0.5) { Some(rng.int(70, 250) as u32) } else { None };
            let kd = match c.guard(|| format!("building {} shapes in progression", geo.len()), |_| KdTree::new(shapes.clone().into_boxed_slice(), depth)) { Some(k) => k, None => return };
            let simple = Simple::new(shapes.clone().into_boxed_slice());
            c.count("progressions");
            for _ in 0..300 {
                let tg = rng.below(geo.len());
                let t = geo[tg].point(&mut rng);
                let o = match rng.below(5) {
                    0 => at, 1 => at + dir(&mut rng) * q.powf(base - 2.),
                    2 => geo[0].point(&mut rng),
                    3 => geo[rng.below(geo.len())].point(&mut rng),
                    _ => { let k = q.powf(rng.range(0., n as f64) + base); at + v(k, k, k) + dir(&mut rng) * (0.3 * k) }
                }.q();
                let d = (t - o).norm().q();
                if !(d.len() > 0.5) { continue; }
                let r = R { o, d, tmax: f64::INFINITY, kind: 200 };
                let b = brute(&shapes, &r.ray());
                // a shape thousands of times smaller than its distance is below the resolution of the ray parameter
                if (0..geo.len()).any(|k| b.t[k].is_some() && (geo[k].lo() - r.o).len() > 1e4 * (geo[k].hi() - geo[k].lo()).len()) { c.count("progression_specks_skipped"); continue; }
                if b.t.iter().any(|x| x.is_some()) { c.count("progression_hits"); }
                let (g2, s2, kd, si) = (&geo, &shapes, &kd, &simple);
                c.guard(|| format!("ray {:?} {:?}", r.o, r.d), |c| { judge(c, "kd-tree of a progression", g2, s2, kd, &r, &b); judge(c, "simple, progression", g2, s2, si, &r, &b); });
                if c.stop() { return; }
            }
        });
        ctx.require("progression_hits", 3000);
        ctx.require("large_sets", 20);
        ctx.require("large_set_hits", 3000);
        for s in 0..STYLES { ctx.require(&format!("style_{}", s), 1); }
        for s in 0..RAY_KINDS { ctx.require(&format!("ray_kind_{}", s), 100); }
        ctx.require("hits", 10000);
    });
}
