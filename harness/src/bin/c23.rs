//! C23: sampling of area lights: positions, normals, emission, densities.
use pt::verif::bbox::BBox3f;
use pt::verif::interaction::Interaction;
use pt::verif::light::{AreaLight, Light};
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::shape::Shape;
use pt::verif::vector::*;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::synth::SMat;
use std::f64::consts::PI;
use std::sync::Arc;

/// A parallelogram that relies on the trait's default densities.
struct Para { p: V, a: V, b: V }
impl Shape for Para {
    fn bbox(&self) -> BBox3f { BBox3f::new(self.p.p(), (self.p + self.a + self.b).p()).union_point((self.p + self.a).p()).union_point((self.p + self.b).p()) }
    fn area(&self) -> f32 { self.a.cross(self.b).len() as f32 }
    fn intersect_p(&self, r: &Ray) -> bool { self.intersect(r).is_some() }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> {
        let (o, d) = (r.origin.to(), r.direction.to());
        let n = self.a.cross(self.b);
        let t = (self.p - o).dot(n) / d.dot(n);
        if !(t > 0. && t < r.t_max as f64) { return None; }
        let q = o + d * t - self.p;
        let (u, w) = (q.cross(self.b).dot(n) / n.dot(n), self.a.cross(q).dot(n) / n.dot(n));
        if u < 0. || u > 1. || w < 0. || w > 1. { return None; }
        let n = n.norm();
        let mut i = Interaction::default();
        i.p = (o + d * t).p(); i.n = n.n(); i.sn = n.n(); i.dpdu = self.a.v(); i.dpdv = self.b.v(); i.wo = -r.direction; i.uv = Point2f::new(u as f32, w as f32);
        Some((i, t as f32))
    }
    fn material(&self) -> Arc<dyn Material> { Arc::new(SMat {}) }
    fn sample(&self, s: Point2f) -> Interaction {
        let mut i = Interaction::default();
        i.p = (self.p + self.a * s.x as f64 + self.b * s.y as f64).p(); i.n = self.a.cross(self.b).norm().n();
        i
    }
}

fn main() {
    run("C23", "one evaluation: one sampled point or one queried direction of a random triangle or parallelogram light; distinct = different (light, reference point, sample)", &["triangles with a smallest altitude of at least a twentieth of their longest edge", "surface normals of a light are compared away from its edges"], |ctx| {
        let n = ctx.n(10000, 300000);
        // barycentric coordinates of all triangle samples together: equal-area cells, corners and edges
        let bins: std::sync::Mutex<(u64, Vec<u64>, [u64; 12])> = std::sync::Mutex::new((0, vec![0; 1024], [0; 12]));
        par(ctx, 1, n, |c, idx| {
            let mut rng = c.rng.clone();
            let scale = if rng.chance(0.2) { c.count("extreme_scales"); rng.logu(1e-3, 1e5) } else { rng.logu(0.01, 100.) };
            let off = if rng.chance(0.3) { pt(&mut rng, 20. * scale) } else { v(0., 0., 0.) };
            let para = rng.chance(0.15);
            let l = q3([rng.range(0.1, 5.), rng.range(0.1, 5.), rng.range(0.1, 5.)]);
            let tri = loop { let t = [pt(&mut rng, scale) + off, pt(&mut rng, scale) + off, pt(&mut rng, scale) + off].map(|x| x.q()); let e = (0..3).map(|i| (t[i] - t[(i + 1) % 3]).len()).fold(0., f64::max); let a = (t[1] - t[0]).cross(t[2] - t[0]).len(); if a / e > 0.05 * e && e > 0.2 * scale { break t; } };
            let n0 = (tri[1] - tri[0]).cross(tri[2] - tri[0]).norm();
            // vertex normals: none, on the winding's side, against it, mixed
            let rev = rng.chance(0.5);
            let vk = if para { 0 } else { rng.below(4) };
            let mut cone = |rng: &mut Rng, s: f64| -> V { ((n0 * s).norm() + dir(rng) * 0.6).norm().q() };
            let vn = match vk { 0 => None, 1 => Some([cone(&mut rng, 1.), cone(&mut rng, 1.), cone(&mut rng, 1.)]), 2 => Some([cone(&mut rng, -1.), cone(&mut rng, -1.), cone(&mut rng, -1.)]), _ => Some([cone(&mut rng, 1.), cone(&mut rng, -1.), cone(&mut rng, 1.)]) };
            let desc = format!("{} {:?} vertex normals {:?} reversed {}", if para { "parallelogram" } else { "triangle" }, tri, vn, rev);
            let (pa, pb) = (tri[1] - tri[0], tri[2] - tri[0]);
            c.guard(|| desc.clone(), |c| {
                let light = if para { AreaLight::new(spec(l), Para { p: tri[0], a: pa, b: pb }) } else { AreaLight::new(spec(l), Geo::Tri { p: tri, vn, rev: if para { false } else { rev } }.triangle(Arc::new(SMat {}))) };
                let shape: &dyn Shape = &light;
                let lt: &dyn Light = &light;
                let area = pa.cross(pb).len() * if para { 1. } else { 0.5 };
                c.count(if para { "parallelograms" } else { ["plain_triangles", "normals_with_winding", "normals_against_winding", "normals_mixed"][vk] });
                let size = (0..3).map(|i| (tri[i] - tri[(i + 1) % 3]).len()).fold(0., f64::max);
                let mag = tri.iter().map(|p| p.maxabs()).fold(0., f64::max);
                c.check((shape.area() as f64 - area).abs() <= 1e-4 * area + 1e-6 * mag * size, "area", || format!("{}: area {} instead of {}", desc, shape.area(), area));
                c.check(!lt.is_delta(), "delta", || format!("{}: an area light is not a delta light", desc));
                // barycentric coordinates of a point
                let bary = |p: V| { let q = p - tri[0]; let nn = pa.cross(pb); (q.cross(pb).dot(nn) / nn.dot(nn), pa.cross(q).dot(nn) / nn.dot(nn)) };
                let hit_normal = |p: V, side: f64| -> Option<V> {
                    // a ray hitting the light at p
                    let o = (p + n0 * (size * side)).q();
                    let mut r = Ray::default(); r.origin = o.p(); r.direction = (p - o).norm().v();
                    shape.intersect(&r).map(|x| x.0.n.to())
                };
                // ---- uniform by area
                let k = 96usize;
                let pool = !para && mag < 3. * size;
                let mut own = (vec![0u16; 1024], [0u64; 12]);
                let mut cells = [0u32; 64];
                for a in 0..k { for b in 0..k {
                    let u = Point2f::new(((a as f64 + rng.f64()) / k as f64 * 0.99999994) as f32, ((b as f64 + rng.f64()) / k as f64 * 0.99999994) as f32);
                    let s = shape.sample_ref(&Interaction::default(), u);
                    let p = s.p.to();
                    let (x, y) = bary(p);
                    let tol = 1e-5 + 4e-6 * mag / size * 20.;
                    let off = (p - tri[0]).dot(n0).abs();
                    let inside = if para { x > -tol && y > -tol && x < 1. + tol && y < 1. + tol } else { x > -tol && y > -tol && x + y < 1. + tol };
                    if !c.check(p.finite() && inside && off <= 1e-5 * size + 1e-6 * mag, "point-off-light", || format!("{}: sample {:?} yields {:?}, barycentrics ({}, {}), {} off the plane", desc, u, p, x, y, off)) { return; }
                    // equal-area cell: 8x8 for the parallelogram, 64 sub-triangles for the triangle
                    let cell = if para { ((x * 8.) as usize).min(7) * 8 + ((y * 8.) as usize).min(7) } else {
                        let (i, j) = ((x.max(0.) * 8.) as usize, (y.max(0.) * 8.) as usize);
                        let (i, j) = (i.min(7), j.min(7));
                        let up = (x * 8. - i as f64) + (y * 8. - j as f64) > 1.;
                        // row i has 2 (8 - i) - 1 sub-triangles
                        let base: usize = (0..i).map(|r| 2 * (8 - r) - 1).sum();
                        (base + 2 * j + up as usize).min(63)
                    };
                    cells[cell] += 1;
                    if pool {
                        let (i, j) = (((x.max(0.) * 32.) as usize).min(31), ((y.max(0.) * 32.) as usize).min(31));
                        let up = (x * 32. - i as f64) + (y * 32. - j as f64) > 1.;
                        let base: usize = (0..i).map(|r| 2 * (32 - r) - 1).sum();
                        own.0[(base + 2 * j + up as usize).min(1023)] += 1;
                        for (q, b) in [1. - x - y, x, y].iter().enumerate() { for (m, far, lim) in [(0, true, 0.99), (1, true, 0.999), (2, false, 0.01), (3, false, 0.001)] { if far == (*b > lim) { own.1[q * 4 + m] += 1; } } }
                    }
                } }
                if pool { let mut g = bins.lock().unwrap(); g.0 += (k * k) as u64; for q in 0..1024 { g.1[q] += own.0[q] as u64; } for q in 0..12 { g.2[q] += own.1[q]; } }
                let total = (k * k) as f64;
                for (j, n) in cells.iter().enumerate() {
                    let d = (*n as f64 - total / 64.).abs();
                    c.maximum("cell_deviation", d / (total / 64.));
                    c.check(d <= 7. * (total / 64.).sqrt(), "not-uniform", || format!("{}: cell {} of 64 equal areas holds {} of {} samples", desc, j, n, total));
                }
                c.add("positions", (k * k) as u64);
                // ---- normals, emission, densities
                for _ in 0..24 {
                    let u = Point2f::new(rng.f32(), rng.f32());
                    let s = shape.sample_ref(&Interaction::default(), u);
                    let p = s.p.to();
                    let ns = s.n.to();
                    // reference point
                    let refp = { let d = dir(&mut rng) * (size * rng.logu(0.05, 20.)); (p + d).q() };
                    let mut ri = Interaction::default(); ri.p = refp.p(); let rn = dir(&mut rng); ri.n = rn.n(); ri.sn = rn.n();
                    let s = shape.sample_ref(&ri, u);
                    let p = s.p.to();
                    let to = p - refp; let dist = to.len(); let w = to / dist;
                    let (x, y) = bary(p);
                    let edge = if para { x.min(y).min(1. - x).min(1. - y) } else { x.min(y).min(1. - x - y) };
                    c.eval(Some(hash_f(&[u.x, u.y, refp.x as f32, refp.y as f32, idx as f32])));
                    let what = || format!("{} reference point {:?} sample {:?} point {:?} normal {:?}", desc, refp, u, p, ns);
                    c.check((ns.len() - 1.).abs() < 1e-4 && ns.dot(n0).abs() > 1. - 1e-3 - 1e-4 * mag / size, "normal", || format!("{}: not a unit normal of the light ({:?})", what(), n0));
                    // shading normal too flat to orient the surface: either side
                    let soft = match vn { Some(q) => (q[0] * (1. - x - y) + q[1] * x + q[2] * y).dot(n0).abs() < 1e-2, None => false };
                    let clear = edge > 0.01 + 2e-5 * mag / size && !soft;
                    if clear {
                        if let Some(h) = hit_normal(p, if rng.chance(0.5) { 1. } else { -1. }) {
                            c.count("normals_compared");
                            c.check(h.dot(ns) > 0.99, "normal-of-hit", || format!("{}: a ray hitting that point reports {:?}", what(), h));
                            // emission
                            let out = dir(&mut rng);
                            let e = sp(shape.l(&s, out.v()));
                            let mut hi = Interaction::default(); hi.n = h.n(); hi.p = s.p;
                            let e2 = sp(shape.l(&hi, out.v()));
                            let facing = out.dot(h);
                            if facing.abs() > 1e-4 { for (e, w) in [(e, "sampled"), (e2, "hit")] { c.check(e == if facing > 0. { l } else { [0.; 3] }, "emission", || format!("{}: emits {:?} at the {} point towards {:?} (cosine {})", what(), e, w, out, facing)); } }
                        } else { c.count("normal_ray_missed"); }
                    }
                    let cosl = w.dot(n0).abs();
                    let (wi, li, pdf, _vis) = lt.sample_li(&ri, u);
                    let wi = wi.to();
                    let wtol = 2e-6 * (mag + refp.maxabs()) / dist + 1e-6;
                    c.check((wi - w).len() <= 4. * wtol, "direction", || format!("{}: light direction {:?} instead of {:?}", what(), wi, w));
                    if clear && (-w).dot(ns).abs() > 1e-3 + 4. * wtol { let facing = (-w).dot(ns) > 0.; c.count(if facing { "facing" } else { "turned_away" }); c.check(sp(li) == if facing { l } else { [0.; 3] }, "incident-radiance", || format!("{}: radiance {:?} although the light {} the reference point", what(), li, if facing { "faces" } else { "is turned away from" })); }
                    let q = lt.pdf_li(&ri, wi.v()) as f64;
                    c.check(q == pdf as f64 || (q - pdf as f64).abs() <= 1e-5 * q, "density-differs", || format!("{}: density {} when sampled, {} when queried", what(), pdf, q));
                    // solid angle density
                    if clear && cosl > 0.02 + 20. * wtol {
                        let want = dist * dist / (cosl * area);
                        let tol = 2e-3 + 4. * wtol / cosl + 1e-5 * mag / size;
                        c.count("densities");
                        c.maximum("density_error", (q / want - 1.).abs() / tol);
                        c.check((q / want - 1.).abs() <= tol, "density", || format!("{}: density {} towards the light, per solid angle it is {}", what(), q, want));
                    }
                    // directions that miss
                    let m = dir(&mut rng);
                    let t = (tri[0] - refp).dot(n0) / m.dot(n0);
                    let h = refp + m * t; let (x, y) = bary(h);
                    let tol = 1e-3 + 1e-4 * mag / size * 20. * (1. + (h - refp).len() / size);
                    let far = t < -tol * size || (if para { x < -tol || y < -tol || x > 1. + tol || y > 1. + tol } else { x < -tol || y < -tol || x + y > 1. + tol });
                    if far && m.dot(n0).abs() > 1e-4 { c.count("misses"); let z = lt.pdf_li(&ri, m.v()); c.check(z == 0., "density-of-miss", || format!("{}: density {} for direction {:?}, which misses the light", what(), z, m)); }
                }
                // ---- integrates to one: midpoint rule over the light's points, in solid angle
                let refp = { let d = dir(&mut rng); let s = if d.dot(n0) < 0. { -1. } else { 1. }; ((tri[0] + tri[1] + tri[2]) / 3. + (d + n0 * s).norm() * (size * rng.range(0.3, 4.))).q() };
                let mut ri = Interaction::default(); ri.p = refp.p(); let rn = dir(&mut rng); ri.n = rn.n(); ri.sn = rn.n();
                let g = 60usize; let mut sum = 0f64;
                for a in 0..g { for b in 0..g {
                    let (a, b) = ((a as f64 + 0.5) / g as f64, (b as f64 + 0.5) / g as f64);
                    let p = if para { tri[0] + pa * a + pb * b } else { let s = a.sqrt(); tri[0] * (1. - s) + tri[1] * (s * (1. - b)) + tri[2] * (s * b) };
                    let d = p - refp; let w = d.norm();
                    sum += lt.pdf_li(&ri, w.v()) as f64 * w.dot(n0).abs() / d.dot(d) * area / (g * g) as f64;
                } }
                let tol = 5e-3 + 1e-4 * mag / size;
                c.maximum("normalisation_error", (sum - 1.).abs());
                c.count("normalisations");
                c.check((sum - 1.).abs() <= tol, "normalisation", || format!("{} reference point {:?}: density integrates to {} over the light's directions", desc, refp, sum));
                if idx < 3 { c.sample(|| desc.clone()); }
                let _ = PI;
            });
        });
        {
            let g = bins.lock().unwrap();
            let t = g.0 as f64;
            ctx.add("pooled_positions", g.0);
            let name = |q: usize| format!("vertex {} {}", q / 4, ["weight above 0.99", "weight above 0.999", "weight below 0.01", "weight below 0.001"][q % 4]);
            for (what, n, e) in g.1.iter().enumerate().map(|(q, n)| (format!("cell {} of 1024 equal areas", q), *n, t / 1024.)).chain(g.2.iter().enumerate().map(|(q, n)| (name(q), *n, t * [0.01f64 * 0.01, 1e-6, 1. - 0.99 * 0.99, 1. - 0.999 * 0.999][q % 4]))) {
                let d = (n as f64 - e).abs();
                ctx.eval(None);
                if t > 0. { ctx.maximum("pooled_deviation_sigma", d / e.max(1.).sqrt()); }
                ctx.check(d <= 6. * e.sqrt() + 4. + 1e-3 * e, "not-uniform", || format!("all triangle lights together: {} holds {} of {} samples instead of {:.0}", what, n, t, e));
            }
            drop(g);
        }
        for (k, m) in [("pooled_positions", 1000000), ("normals_compared", 2000), ("facing", 1000), ("turned_away", 1000), ("densities", 2000), ("misses", 2000), ("normalisations", 200), ("parallelograms", 20), ("normals_against_winding", 20)] { ctx.require(k, m); }
    });
}
