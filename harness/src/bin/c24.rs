//! C24: visibility of light samples against an f64 search for occluders.
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::interaction::Interaction;
use pt::verif::light::{AreaLight, DistantLight, Light};
use pt::verif::scene::Builder;
use pt::verif::vector::*;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::synth::SMat;
use std::sync::Arc;

/// one object between p and p + d * tmax?
fn blocks(g: &Geo, own: bool, p: V, d: V, tmax: f64, near: f64) -> Tri {
    if own {
        return match g {
            Geo::Tri { .. } => Tri::Miss, // leaving a plane
            Geo::Sph { c, r } => {
                let mu = (p - *c).norm().dot(d.norm());
                if mu.abs() < 0.01 || mu.abs() * r < 10. * near { return Tri::Unsure; }
                if mu > 0. { return Tri::Miss; }
                let t = -2. * mu * r / d.len();
                if t < tmax * (1. - 3e-4) { Tri::Hit } else if t > tmax * (1. + 3e-4) { Tri::Miss } else { Tri::Unsure }
            }
        };
    }
    let mut kind = None;
    let del = 0.05 * near;
    for s in 0..7 {
        let mut q = p;
        if s > 0 { q[(s - 1) / 2] += if s % 2 == 0 { del } else { -del }; }
        let r = g.isect(q, d, if tmax.is_finite() { tmax * (1. + 1e-5) } else { tmax });
        let k = match r.kind { Tri::Hit => if r.t * d.len() < near || r.t > tmax * (1. - 3e-4) { Tri::Unsure } else { Tri::Hit }, k => k };
        if k == Tri::Unsure || kind.map_or(false, |x| x != k) { return Tri::Unsure; }
        kind = Some(k);
    }
    kind.unwrap()
}

/// smallest altitude at least a twentieth of the longest edge
fn shapely(g: &Geo) -> bool {
    match g { Geo::Tri { p, .. } => { let e = (0..3).map(|i| (p[i] - p[(i + 1) % 3]).len()).fold(0., f64::max); (p[1] - p[0]).cross(p[2] - p[0]).len() > 0.05 * e * e } _ => true }
}

fn main() {
    run("C24", "one evaluation: visibility of one light sample from one surface point found by tracing a ray through a random scene; distinct = different (scene, point, light, sample)",
        &["an occluder within 3e-4 of the distance to the light's point, or within rounding of the surface point, may count either way", "triangles with a smallest altitude of at least a twentieth of their longest edge"], |ctx| {
        let n = ctx.n(24000, 300000);
        par(ctx, 1, n, |c, idx| {
            let mut rng = c.rng.clone();
            let kind = idx % 4;
            let mut g: Vec<Geo>;
            let mut wdir = None;
            match kind {
                // two small shapes far apart along the light's direction, other things small or absent
                0 => {
                    let o = if rng.chance(0.4) { pt(&mut rng, 2.) } else { v(0., 0., 0.) };
                    let w = if rng.chance(0.4) { v(rng.range(-1., 1.).signum(), rng.range(-1., 1.).signum(), rng.range(-1., 1.).signum()) } else { dir(&mut rng) };
                    let l = rng.logu(1., 30.);
                    // small enough that the occluder sits in the far corner of the scene's bounds
                    let s = l * rng.logu(2e-5, 0.05);
                    let w = w.norm();
                    let (a, b) = onb(w);
                    let far = o + w * l;
                    let tri = |q: V, s: f64| Geo::tri([q + a * s, q - a * (0.5 * s) + b * (0.87 * s), q - a * (0.5 * s) - b * (0.87 * s)]);
                    g = vec![tri(o, s), if rng.chance(0.5) { Geo::sph(far, s) } else { tri(far, s * 1.5) }];
                    for _ in 0..rng.below(3) { let t = rng.f64(); let q = o + w * (l * t) + (a * rng.range(-1., 1.) + b * rng.range(-1., 1.)) * (3. * s); g.push(Geo::sph(q, s * rng.range(0.2, 0.9))); }
                    wdir = Some(w * rng.logu(0.01, 100.));
                }
                // clusters far from each other
                1 => {
                    g = scene(&mut rng, idx as usize / 4, 20);
                    let (lo, hi) = bounds(&g);
                    let e = (hi - lo).maxabs();
                    let k = rng.logu(2., 40.);
                    for _ in 0..rng.int(1, 3) { let q = (lo + hi) * 0.5 + dir(&mut rng) * (e * k); if rng.chance(0.5) { g.push(Geo::sph(q, e * k * rng.logu(0.01, 0.3))); } else { let s = e * k * rng.logu(0.03, 0.5); g.push(rand_tri(&mut rng, q, s)); } }
                    if rng.chance(0.7) { let t = g[g.len() - 1].point(&mut rng); wdir = Some((t - (lo + hi) * 0.5).norm() * rng.logu(0.1, 10.)); }
                }
                _ => g = scene(&mut rng, idx as usize / 4, 40),
            }
            g.retain(|x| x.quality() > 1e-5 && shapely(x));
            if g.is_empty() { return; }
            // some triangles are lights
            let mut lights: Vec<Option<S3>> = g.iter().map(|x| if matches!(x, Geo::Tri { .. }) && rng.chance(if kind == 1 { 0.4 } else { 0.1 }) { Some(q3([rng.range(0.1, 5.), rng.range(0.1, 5.), rng.range(0.1, 5.)])) } else { None }).collect();
            let (lo, hi) = bounds(&g);
            let e = (hi - lo).maxabs();
            for _ in 0..rng.below(3) { let q = (lo + hi) * 0.5 + pt(&mut rng, e); let s = e * rng.logu(0.01, 0.5); let t = rand_tri(&mut rng, q, s); if t.quality() > 1e-4 && shapely(&t) { g.push(t); lights.push(Some(q3([rng.range(0.1, 5.), rng.range(0.1, 5.), rng.range(0.1, 5.)]))); } }
            if rng.chance(0.1) { for (x, l) in g.iter().zip(lights.iter_mut()) { if matches!(x, Geo::Tri { .. }) { *l = Some(q3([rng.range(0.1, 5.), 1., rng.range(0.1, 5.)])); } } }
            let dist: Vec<(S3, V)> = (0..rng.int(1, 3)).map(|k| (q3([rng.range(0.1, 5.), rng.range(0.1, 5.), rng.range(0.1, 5.)]), match (wdir, k) { (Some(w), 0) => w, (Some(w), 1) if rng.chance(0.5) => w + dir(&mut rng) * (0.001 * w.len()), _ => dir(&mut rng) * rng.logu(0.01, 100.) }.q())).collect();
            let desc = format!("{:?} lights {:?} distant {:?}", g, lights, dist);
            let build = || { let mut b = Builder::new();
                for (x, l) in g.iter().zip(&lights) { match (x, l) { (Geo::Tri { .. }, Some(l)) => b.add_area_light(AreaLight::new(spec(*l), x.triangle(Arc::new(SMat {})))), (Geo::Tri { .. }, None) => b.add_shape(x.triangle(Arc::new(SMat {}))), (Geo::Sph { c, r }, _) => b.add_shape(pt::verif::shape_sphere::Sphere::new(c.p(), *r as f32, Arc::new(SMat {}))) } }
                for (l, w) in &dist { b.add_light(DistantLight::new(spec(*l), w.v())); }
                b };
            c.guard(|| desc.clone(), |c| {
                let kd = build().construct(|s| KdTree::new(s, None));
                let si = build().construct(|s| Simple::new(s));
                let (lo, hi) = bounds(&g);
                let mag = lo.maxabs().max(hi.maxabs());
                c.sample(|| format!("{} shapes, {} area lights, {} distant lights, extent {}, largest coordinate {}", g.len(), lights.iter().flatten().count(), dist.len(), (hi - lo).maxabs(), mag));
                for _ in 0..10 {
                    let t = g[if kind == 0 && rng.chance(0.7) { 0 } else { rng.below(g.len()) }].point(&mut rng);
                    let o = if rng.chance(0.5) { t + dir(&mut rng) * ((hi - lo).len() * rng.logu(0.001, 1.)) } else { (lo + hi) * 0.5 + (hi - lo) * rng.range(-0.6, 0.6) }.q();
                    let d = (t - o).q();
                    if d.len() < 1e-4 * mag { continue; }
                    let mut r = pt::verif::ray::Ray::default(); r.origin = o.p(); r.direction = d.v(); r.t_max = f32::INFINITY;
                    // the object the reference finds, if unambiguous
                    let hits: Vec<(usize, Ref)> = g.iter().enumerate().map(|(k, x)| (k, x.isect(o, d, f64::INFINITY))).collect();
                    if hits.iter().any(|(_, h)| h.kind == Tri::Unsure) { c.count("ambiguous_hits_skipped"); continue; }
                    let best = match hits.iter().filter(|(_, h)| h.kind == Tri::Hit).min_by(|a, b| a.1.t.partial_cmp(&b.1.t).unwrap()) { Some(b) => *b, None => continue };
                    if hits.iter().any(|(k, h)| *k != best.0 && h.kind == Tri::Hit && h.t < best.1.t + 1e-3 * best.1.tol.max(1e-4 * best.1.t) * 1e3) { continue; }
                    let i = match if rng.chance(0.5) { kd.intersect(&r) } else { si.intersect(&r) } { Some(i) => i, None => continue };
                    let own = best.0;
                    let p = i.p.to();
                    if (p - (o + d * best.1.t)).len() > 1e-3 * d.len().max(mag) { continue; }
                    if i.shape.is_none() { c.violate("no-shape", format!("hit without shape: {}", desc)); continue; }
                    c.count("surface_points");
                    if let Geo::Tri { p: tp, .. } = &g[own] { let nn = (tp[1] - tp[0]).cross(tp[2] - tp[0]).norm(); if (i.n.to().dot(nn)).abs() < 0.999 { continue; } }
                    let near = 2e-5 * (mag + p.maxabs()) * 0.5;
                    // what the f64 search says about a segment
                    let occluded = |q: V, tmax: f64, w: V, light: Option<usize>| -> Tri {
                        let _ = q;
                        let mut unsure = false;
                        for (k, x) in g.iter().enumerate() {
                            if Some(k) == light { continue; }
                            match blocks(x, k == own, p, w, tmax, near) { Tri::Hit => return Tri::Hit, Tri::Unsure => unsure = true, Tri::Miss => () }
                        }
                        if unsure { Tri::Unsure } else { Tri::Miss }
                    };
                    let nn = i.n.to();
                    // ---- distant lights of the scene
                    for l in kd.lights().iter().chain(si.lights().iter()).filter(|l| l.is_delta()) {
                        let u = Point2f::new(rng.f32(), rng.f32());
                        let (wi, li, pdf, vis) = l.sample_li(&i, u);
                        let lis = sp(li);
                        let k = match dist.iter().position(|x| x.0 == lis) { Some(k) => k, None => { c.violate("distant-radiance", format!("a distant light reports radiance {:?}: {}", lis, desc)); continue; } };
                        let w = dist[k].1.norm();
                        c.check((wi.to() - w).len() < 4e-7 && pdf == 1., "distant-sample", || format!("distant light {:?} reports direction {:?} and density {} at {:?}: {}", dist[k], wi, pdf, i.p, desc));
                        // no ray leaving in a direction of its own choice finds it
                        let chosen = if rng.chance(0.5) { wi } else { dir(&mut rng).v() };
                        c.check(l.pdf_li(&i, chosen) == 0., "distant-density", || format!("distant light {:?} reports a density for {:?} at {:?}: {}", dist[k], chosen, i.p, desc));
                        if nn.dot(w).abs() < 0.02 { continue; }
                        let want = occluded(p, f64::INFINITY, w, None);
                        if want == Tri::Unsure { c.count("unsure"); continue; }
                        let (a, b) = (vis.unoccluded(&kd), vis.unoccluded(&si));
                        c.eval(Some(hash(&[idx, p.x.to_bits(), p.y.to_bits(), k as u64])));
                        c.count(if want == Tri::Hit { "distant_occluded" } else { "distant_visible" });
                        if want == Tri::Hit {
                            // how far the nearest occluder is, relative to the scene
                            let t = g.iter().enumerate().filter(|(k, _)| *k != own).filter_map(|(_, x)| { let h = x.isect(p, w, f64::INFINITY); if h.kind == Tri::Hit { Some(h.t) } else { None } }).fold(f64::INFINITY, f64::min);
                            if t.is_finite() { if t > 0.5 * (hi - lo).len() { c.count("occluder_beyond_half_extent"); } if t > 0.999 * (hi - lo).len() { c.count("occluder_in_far_corner"); } }
                        }
                        let vis2 = want == Tri::Miss;
                        c.check(a == vis2 && b == vis2, if vis2 { "distant-falsely-occluded" } else { "distant-occluder-missed" }, || format!("from {:?} (object {}) towards {:?}: kd-tree says visible {}, list says visible {}, search says {:?}: {}", i.p, own, w, a, b, want, desc));
                    }
                    // ---- area lights
                    for (k, x) in g.iter().enumerate() {
                        let l = match lights[k] { Some(l) if k != own => l, _ => continue };
                        let lt = AreaLight::new(spec(l), x.triangle(Arc::new(SMat {})));
                        for _ in 0..3 {
                            let u = Point2f::new(rng.f32(), rng.f32());
                            let (wi, _, _, vis) = lt.sample_li(&i, u);
                            let tp = match x { Geo::Tri { p, .. } => *p, _ => unreachable!() };
                            let ln = (tp[1] - tp[0]).cross(tp[2] - tp[0]).norm();
                            let wi = wi.to();
                            if wi.dot(ln).abs() < 0.02 || nn.dot(wi).abs() < 0.02 { continue; }
                            let t = (tp[0] - p).dot(ln) / wi.dot(ln);
                            if t < 20. * near { continue; }
                            let want = occluded(p + wi * t, 1., wi * t, Some(k));
                            if want == Tri::Unsure { c.count("unsure"); continue; }
                            let (a, b) = (vis.unoccluded(&kd), vis.unoccluded(&si));
                            c.eval(Some(hash(&[idx, p.x.to_bits(), p.y.to_bits(), k as u64, u.x.to_bits() as u64])));
                            c.count(if want == Tri::Hit { "area_occluded" } else { "area_visible" });
                            let vis2 = want == Tri::Miss;
                            c.check(a == vis2 && b == vis2, if vis2 { "area-falsely-occluded" } else { "area-occluder-missed" }, || format!("[blocked by {:?}, normal {:?}, error {:?}] from {:?} (object {}) to light {} at {:?}: kd-tree says visible {}, list says visible {}, search says {:?}: {}", { let mut e = Interaction::default(); e.p = (p + wi * t).p(); let r = i.spawn_ray_to(&e); (0..g.len()).filter(|j| g[*j].shape().intersect_p(&r)).map(|j| (j, g[j].shape().intersect(&r).map(|x| x.1), &g[j])).collect::<Vec<_>>() }, i.n, i.p_err, i.p, own, k, p + wi * t, a, b, want, desc));
                        }
                    }
                    // ---- area lights of the scene itself report what their copies do
                    for l in kd.lights().iter().filter(|l| !l.is_delta()) {
                        let u = Point2f::new(rng.f32(), rng.f32());
                        let (wi, li, _, vis) = l.sample_li(&i, u);
                        let lis = sp(li);
                        if max3(lis) == 0. { continue; }
                        let k = match lights.iter().position(|x| *x == Some(lis)) { Some(k) => k, None => { c.violate("area-radiance", format!("an area light reports radiance {:?}: {}", lis, desc)); continue; } };
                        if k == own { continue; }
                        let tp = match &g[k] { Geo::Tri { p, .. } => *p, _ => unreachable!() };
                        let ln = (tp[1] - tp[0]).cross(tp[2] - tp[0]).norm();
                        let wi = wi.to();
                        if wi.dot(ln).abs() < 0.02 || nn.dot(wi).abs() < 0.02 { continue; }
                        let t = (tp[0] - p).dot(ln) / wi.dot(ln);
                        if t < 20. * near { continue; }
                        let want = occluded(p + wi * t, 1., wi * t, Some(k));
                        if want == Tri::Unsure { continue; }
                        c.count("scene_lights_asked");
                        c.check(vis.unoccluded(&kd) == (want == Tri::Miss), "scene-light-visibility", || format!("from {:?} (object {}) to light {}: search says {:?}: {}", i.p, own, k, want, desc));
                    }
                    let _ = Interaction::default();
                }
            });
        });
        for (k, m) in [("distant_occluded", 2000), ("distant_visible", 2000), ("area_occluded", 2000), ("area_visible", 2000), ("occluder_in_far_corner", 50), ("scene_lights_asked", 500)] { ctx.require(k, m); }
    });
}
