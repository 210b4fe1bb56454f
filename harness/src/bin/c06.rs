//! C06: bounding boxes.
use pt::verif::bbox::BBox3f;
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::light::AreaLight;
use pt::verif::ray::Ray;
use pt::verif::shape::Shape;
use pt::verif::spectrum::Spectrum;
use pt::verif::transform::Transform;
use pt::verif::vector::Point3f;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::synth::SMat;
use std::sync::Arc;

fn exact(c: &mut Ctx, what: &str, b: &BBox3f, lo: V, hi: V, rel: f64) {
    let e = rel * (lo.maxabs() + hi.maxabs());
    c.check((b.min.to() - lo).maxabs() <= e && (b.max.to() - hi).maxabs() <= e, what, || format!("{}: {:?} {:?} instead of {:?} {:?}", what, b.min, b.max, lo, hi));
}

fn transform(rng: &mut Rng) -> (Transform, String) {
    let mut t = Transform::translate(0., 0., 0.);
    let mut d = String::new();
    for _ in 0..1 + rng.below(4) {
        let (u, s) = match rng.below(5) {
            0 => { let (x, y, z) = (rng.rf(-20., 20.), rng.rf(-20., 20.), rng.rf(-20., 20.)); (Transform::translate(x, y, z), format!("translate({},{},{})", x, y, z)) }
            1 => { let f = |r: &mut Rng| r.logu(0.1, 10.) as f32 * if r.chance(0.3) { -1. } else { 1. }; let (x, y, z) = (f(rng), f(rng), f(rng)); (Transform::scale(x, y, z), format!("scale({},{},{})", x, y, z)) }
            k => { let a = if rng.chance(0.3) { 45. * rng.int(-8, 8) as f32 } else { rng.rf(-360., 360.) }; (match k { 2 => Transform::rotate_x(a), 3 => Transform::rotate_y(a), _ => Transform::rotate_z(a) }, format!("rotate_{}({})", ["x", "y", "z"][k - 2], a)) }
        };
        t = u * t; d = format!("{} {}", s, d);
    }
    (t, d)
}

fn main() {
    run("C06", "one evaluation: one box, transformed box or ray/box question checked; distinct = different boxes or rays", &["ray/box: passages shorter than 1e-6 of their distance are not judged"], |ctx| {
        let n = ctx.n(360000, 2000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let geo = scene(&mut rng, i as usize, 40);
            let shapes: Vec<Arc<dyn Shape>> = geo.iter().map(|g| if let (Geo::Tri { .. }, true) = (g, rng.chance(0.2)) { Arc::new(AreaLight::new(Spectrum::new(1., 1., 1.), g.triangle(Arc::new(SMat {})))) as Arc<dyn Shape> } else { g.shape() }).collect();
            let (lo, hi) = bounds(&geo);
            // shapes
            for (g, s) in geo.iter().zip(&shapes) {
                let b = s.bbox();
                exact(c, "shape-bbox", &b, g.lo(), g.hi(), 2e-7);
                let e = 3e-7 * (g.lo().maxabs() + g.hi().maxabs());
                for _ in 0..4 { let p = g.point(&mut rng); c.check((0..3).all(|k| p[k] >= b.min.to()[k] - e && p[k] <= b.max.to()[k] + e), "surface-outside-bbox", || format!("{:?}: {:?} outside {:?} {:?}", g, p, b.min, b.max)); }
                c.eval(Some(hash_f(&[b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z]))); c.count("shape_boxes");
            }
            // unions
            let u = shapes.iter().skip(1).fold(shapes[0].bbox(), |a, s| a.union(&s.bbox()));
            exact(c, "union", &u, lo, hi, 3e-7);
            exact(c, "bbox_of_shapes", &BBox3f::bbox_of_shapes(&shapes), lo, hi, 3e-7);
            exact(c, "kdtree-bbox", &KdTree::new(shapes.clone().into_boxed_slice(), None).bbox(), lo, hi, 3e-7);
            exact(c, "simple-bbox", &Simple::new(shapes.clone().into_boxed_slice()).bbox(), lo, hi, 3e-7);
            let q = (lo + pt(&mut rng, 1.) * (hi - lo).maxabs() * 2.).q();
            let up = u.union_point(q.p());
            exact(c, "union_point", &up, vmin(u.min.to(), q), vmax(u.max.to(), q), 1e-7);
            let (a, b) = (pt(&mut rng, 10.).q(), pt(&mut rng, 10.).q());
            exact(c, "new", &BBox3f::new(a.p(), b.p()), vmin(a, b), vmax(a, b), 1e-7);
            c.add("unions", 6); for _ in 0..6 { c.eval(None); }
            // bounding sphere
            let bx = if rng.chance(0.5) { u } else { BBox3f::new(a.p(), b.p()) };
            let (ce, r) = bx.bounding_sphere();
            for k in 0..8 {
                let p = v(if k & 1 == 0 { bx.min.x } else { bx.max.x } as f64, if k & 2 == 0 { bx.min.y } else { bx.max.y } as f64, if k & 4 == 0 { bx.min.z } else { bx.max.z } as f64);
                let d = (p - ce.to()).len();
                c.check(d <= r as f64 * (1. + 2e-6) + 1e-6 * p.maxabs(), "bounding-sphere", || format!("{:?} {:?}: corner {:?} at {} outside radius {} of {:?}", bx.min, bx.max, p, d, r, ce));
            }
            c.count("bounding_spheres"); c.eval(None);
            // transformed boxes
            for _ in 0..4 {
                let (t, d) = transform(&mut rng);
                let bx = if rng.chance(0.3) { u } else { let (a, b) = (pt(&mut rng, 10.), pt(&mut rng, 10.)); BBox3f::new(a.p(), b.p()) };
                for inv in [false, true] {
                    let tb = if inv { t.inverse_apply(&bx) } else { t.apply(&bx) };
                    let ap = |p: Point3f| -> V { (if inv { t.inverse_apply(&p) } else { t.apply(&p) }).to() };
                    let m = tb.min.to().maxabs().max(tb.max.to().maxabs());
                    let mut worst = 0f64;
                    let mut at = v(0., 0., 0.);
                    for k in 0..24 {
                        let f = |a: f32, b: f32, bit: usize, r: &mut Rng| if k < 8 { if k & bit == 0 { a } else { b } } else { a + (b - a) * r.f32() };
                        let p = Point3f::new(f(bx.min.x, bx.max.x, 1, &mut rng), f(bx.min.y, bx.max.y, 2, &mut rng), f(bx.min.z, bx.max.z, 4, &mut rng));
                        let w = ap(p);
                        for j in 0..3 { let o = (tb.min.to()[j] - w[j]).max(w[j] - tb.max.to()[j]); if o > worst { worst = o; at = p.to(); } }
                    }
                    c.check(tb.min.to().finite() && worst <= 4e-6 * m + 1e-5 * (hi.maxabs() + 40.) * 1e-2, "transformed-bbox", || format!("{}{} of {:?} {:?} gives {:?} {:?}, missing the image of {:?} by {}", d, if inv { "(inverse)" } else { "" }, bx.min, bx.max, tb.min, tb.max, at, worst));
                    c.count("transformed_boxes"); c.eval(Some(hash_f(&[tb.min.x, tb.min.y, tb.max.x, tb.max.z])));
                }
            }
            // rays against boxes
            for k in 0..60 {
                let bx = match k % 4 { 0 => u, 1 => shapes[rng.below(shapes.len())].bbox(), 2 => { let (a, b) = (lat(&mut rng, 4), lat(&mut rng, 4)); BBox3f::new(a.p(), b.p()) }, _ => { let (a, b) = (pt(&mut rng, 5.), pt(&mut rng, 5.)); BBox3f::new(a.p(), b.p()) } };
                let (l, h) = (bx.min.to(), bx.max.to());
                let e = (h - l).maxabs().max(1e-3 * l.maxabs()).max(1e-6);
                let inside = |rng: &mut Rng| v(rng.range(l.x, h.x), rng.range(l.y, h.y), rng.range(l.z, h.z));
                let face = |rng: &mut Rng| { let mut p = inside(rng); let j = rng.below(3); p[j] = if rng.chance(0.5) { l[j] } else { h[j] }; if rng.chance(0.3) { let j = rng.below(3); p[j] = if rng.chance(0.5) { l[j] } else { h[j] }; } p };
                let (o, kind) = match rng.below(4) { 0 => (inside(&mut rng), 0), 1 => (face(&mut rng), 1), 2 => (face(&mut rng) + { let mut z = v(0., 0., 0.); z[rng.below(3)] = e * rng.range(-3., 3.); z }, 2), _ => (inside(&mut rng) + dir(&mut rng) * (e * rng.logu(0.5, 20.)), 3) };
                let zero = |rng: &mut Rng| if rng.chance(0.5) { 0. } else { -0. };
                let d = match rng.below(4) { 0 => dir(&mut rng), 1 => { let j = rng.below(3); let mut d = v(zero(&mut rng), zero(&mut rng), zero(&mut rng)); d[j] = if rng.chance(0.5) { 1. } else { -1. }; d }, 2 => { let mut d = dir(&mut rng); d[rng.below(3)] = zero(&mut rng); d }, _ => { let t = inside(&mut rng); let d = t - o; if d.len() > 1e-3 * e { d } else { dir(&mut rng) } } };
                let (o, d) = (o.q(), d.q());
                if d.len() == 0. { continue; }
                let tm = if rng.chance(0.6) { f64::INFINITY } else { (e * rng.logu(0.01, 10.) / d.len()) as f32 as f64 };
                let mut ry = Ray::default(); ry.origin = o.p(); ry.direction = d.v(); ry.t_max = tm as f32;
                // exact passage
                let (mut t0, mut t1) = (0f64, tm);
                let mut out = false; let mut touch = false;
                for j in 0..3 {
                    if d[j] == 0. { if o[j] < l[j] || o[j] > h[j] { out = true; } if o[j] == l[j] || o[j] == h[j] { touch = true; } continue; }
                    let (x, y) = ((l[j] - o[j]) / d[j], (h[j] - o[j]) / d[j]);
                    t0 = t0.max(x.min(y)); t1 = t1.min(x.max(y));
                }
                let got = bx.intersect(&ry);
                let desc = || format!("box {:?} {:?} o={:?} d={:?} tmax={} (true passage {} to {}) gives {:?}", bx.min, bx.max, o, d, tm, t0, t1, got);
                let tol = 1e-6 * t0.abs().max(if t1.is_finite() { t1.abs() } else { 0. });
                // whatever the direction, a ray that starts in the closed box passes through it
                if (0..3).all(|j| o[j] >= l[j] && o[j] <= h[j]) {
                    c.count(if (0..3).any(|j| o[j] == l[j] || o[j] == h[j]) { "starts_on_face" } else { "starts_inside" });
                    if (0..3).any(|j| l[j] == h[j]) { c.count("starts_in_flat_box"); }
                    c.check(got.map_or(false, |(a, _)| a == 0.), "start-missed", desc);
                }
                // a ray through the interior of a flat box meets it although the passage has no length
                let flat: Vec<usize> = (0..3).filter(|j| l[*j] == h[*j]).collect();
                if flat.len() == 1 && d[flat[0]] != 0. {
                    let tf = (l[flat[0]] - o[flat[0]]) / d[flat[0]];
                    let m = 2e-6 * tf.abs() + 1e-30;
                    let inside = (0..3).all(|j| j == flat[0] || { let q = 2e-6 * (o[j].abs() + l[j].abs().max(h[j].abs())) + d[j].abs() * m; let x = o[j] + d[j] * tf; x > l[j] + q && x < h[j] - q });
                    if inside && tf > 0. && tf < tm * (1. - 2e-6) {
                        c.count("through_flat_box");
                        match got { None => c.violate("flat-box-missed", desc()), Some((a, b)) => { c.check((a as f64) <= tf + m && (b as f64) >= tf - m, "flat-box-interval", || format!("{}: passage at {}", desc(), tf)); } }
                    }
                }
                if !out && t1 - t0 > tol {
                    c.count(if touch { "ray_along_face" } else { "ray_passes" }); c.count(&format!("passing_origin_kind_{}", kind));
                    c.eval(Some(hash_f(&[ry.origin.x, ry.origin.y, ry.origin.z, ry.direction.x, ry.direction.y])));
                    match got {
                        None => c.violate("box-missed", desc()),
                        Some((a, b)) => {
                            let (a, b) = (a as f64, b as f64);
                            c.check(a <= t0 + tol && (b >= t1 - tol), "interval-too-short", desc);
                            c.check(a >= t0 - 4. * tol - 1e-6 * t1.min(1e30) && b <= t1 + 4. * tol, "interval-too-long", desc);
                        }
                    }
                } else if out || t0 - t1 > 4. * tol {
                    c.count("ray_misses"); c.eval(None);
                    c.check(got.is_none(), "box-hit-by-missing-ray", desc);
                } else { c.count("ray_undecided"); c.eval(None); }
            }
            if i < 3 { c.sample(|| format!("style {} {} shapes box {:?} {:?}", i as usize % STYLES, geo.len(), lo, hi)); }
        });
        for k in ["shape_boxes", "transformed_boxes", "ray_along_face", "ray_passes", "ray_misses", "passing_origin_kind_0", "passing_origin_kind_1", "starts_on_face", "starts_in_flat_box", "through_flat_box"] { ctx.require(k, 1000); }
    });
}
