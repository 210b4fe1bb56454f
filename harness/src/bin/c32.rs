//! C32: the image is a function of the scene alone: the same scene described in another way gives the same image
//! (bit for bit where no arithmetic changes, in expectation otherwise).
use pt::api::HaltonSampler;
use pt::verif::bbox::BBox2f;
use pt::verif::camera::PerspectiveCamera;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::integrator::Integrator;
use pt::verif::light::{AreaLight, DistantLight};
use pt::verif::scene::Builder;
use pt::verif::shape_sphere::Sphere;
use pt::verif::transform::Transform;
use pt::verif::vector::*;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::scenes::*;
use ptmon::wild::*;
use std::sync::Arc;

/// how a scene is put together
#[derive(Clone, Copy, Debug)]
enum Cont { Simple, Kd(Option<u32>) }

#[derive(Clone, Debug)]
enum View { Rays(Vec<(V, V)>), Persp { o: V, to: V, up: V, fov: f64 } }

fn builder(w: &Wild) -> Builder {
    let mut b = Builder::new();
    for o in &w.objs {
        let m = o.mat.material(None);
        match (&o.geo, o.le) {
            (Geo::Tri { .. }, Some(l)) => b.add_area_light(AreaLight::new(spec(l), o.geo.triangle(m))),
            (Geo::Tri { .. }, None) => b.add_shape(o.geo.triangle(m)),
            (Geo::Sph { c, r }, _) => b.add_shape(Sphere::new(c.p(), *r as f32, m)),
        }
    }
    for (l, d) in &w.distants { b.add_light(DistantLight::new(spec(*l), d.v())); }
    b
}

const RES: (u32, u32) = (20, 12);

/// every pixel of a render with random numbers that depend on the pixel only
fn image(w: &Wild, v: &View, k: Cont, seed: u64, spp: u32, halton: bool, threads: u8) -> Vec<([f32; 3], f32)> {
    let film = Flt::Flat(0.5).film(RES);
    let cam = match v {
        View::Rays(r) => Cam::List(Arc::new(r.clone()), RES.0),
        View::Persp { o, to, up, fov } => Cam::Persp(PerspectiveCamera::new(Transform::look_at(o.p(), to.p(), up.v()), Transform::perspective(*fov as f32, 0.01, 1000.), BBox2f::new(Point2f::new(-5. / 3., -1.), Point2f::new(5. / 3., 1.)), Point2u::new(RES.0, RES.1))),
    };
    let p = Arc::new(Probe::new());
    let smp = if halton { Smp::Halton(HaltonSampler::new(spp, film.sample_bbox())) } else { Smp::H(HSampler::new(seed, spp)) };
    let (smp, cam) = (WSmp { inner: smp, p: p.clone() }, WCam { inner: cam, p });
    let b = builder(w);
    let px = match k {
        Cont::Simple => { let i = Integrator::new(b.construct(|s| Simple::new(s)), smp, cam, film); i.render(threads); i.verif_film().verif_pixels() }
        Cont::Kd(d) => { let i = Integrator::new(b.construct(|s| KdTree::new(s, d)), smp, cam, film); i.render(threads); i.verif_film().verif_pixels() }
    };
    px.into_iter().map(|(c, w)| ([c.r, c.g, c.b], w)).collect()
}

fn scaled(w: &Wild, s: f64) -> Wild {
    fn map<T: Copy>(t: &Tx<T>, s: f64) -> Tx<T> { let mut t = *t; if let Map::Id(m) = &mut t.map { m[0] = (m[0] as f64 / s) as f32; for k in 2..5 { m[k] = (m[k] as f64 * s) as f32; } } t }
    let mut w = w.clone();
    for o in &mut w.objs {
        match &mut o.geo { Geo::Tri { p, .. } => for q in p { *q = *q * s; }, Geo::Sph { c, r } => { *c = *c * s; *r *= s; } }
        o.mat = match &o.mat {
            TMat::Lambert(a) => TMat::Lambert(map(a, s)),
            TMat::Mirror(a) => TMat::Mirror(map(a, s)),
            TMat::Plastic(a, b, c) => TMat::Plastic(map(a, s), map(b, s), map(c, s)),
            TMat::Metal(a, b, c, d, e) => TMat::Metal(map(a, s), map(b, s), map(c, s), map(d, s), map(e, s)),
            TMat::Glass(a, b, c, d, e) => TMat::Glass(map(a, s), map(b, s), map(c, s), map(d, s), map(e, s)),
        };
    }
    w
}
fn view_scaled(v: &View, s: f64) -> View {
    match v { View::Rays(r) => View::Rays(r.iter().map(|(o, d)| (*o * s, *d)).collect()), View::Persp { o, to, up, fov } => View::Persp { o: *o * s, to: *to * s, up: *up, fov: *fov } }
}

fn exact(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let style = *rng.pick(&[2u64, 4, 5, 6, 7, 8, 8, 9]);
    let mut w = wild(rng, style, 0.05);
    // which of several coincident shapes is hit is a matter of order: shift every shape by a little
    if style == 4 || style == 5 {
        let g: Vec<Geo> = w.objs.iter().map(|o| o.geo.clone()).collect();
        let (b0, b1) = bounds(&g);
        let e = 0.01 * (b1 - b0).maxabs();
        for o in &mut w.objs { let d = pt(rng, e); match &mut o.geo { Geo::Tri { p, .. } => for q in p { *q = (*q + d).q(); }, Geo::Sph { c, .. } => *c = (*c + d).q() } }
    }
    // nor may two shapes be one and the same
    let mut seen: Vec<String> = vec![];
    w.objs.retain(|o| { let k = format!("{:?}", o.geo); let n = !seen.contains(&k); seen.push(k); n });
    let geos: Vec<Geo> = w.objs.iter().map(|o| o.geo.clone()).collect();
    let (b0, b1) = bounds(&geos);
    let ext = (b1 - b0).maxabs().max(1e-3);
    let rays: Vec<(V, V)> = (0..RES.0 * RES.1).map(|_| loop { let o = (b0 + b1) * 0.5 + pt(rng, ext); let d = geos[rng.below(geos.len())].point(rng) + pt(rng, 0.01 * ext) - o; if d.len() > 1e-3 * ext { break (o.q(), d.norm().q()); } }).collect();
    let view = if rng.chance(0.5) { View::Rays(rays) } else { loop { let (o, d) = *rng.pick(&rays); let up = dir(rng).q(); if up.cross(d).len() < 0.1 { continue; } break View::Persp { o, to: (o + d * ext).q(), up, fov: rng.range(10., 120.) }; } };
    w.rays.clear();
    let spp = rng.int(1, 3) as u32;
    let halton = rng.chance(0.3);
    let seed = rng.u64();
    let base = image(&w, &view, Cont::Kd(None), seed, spp, halton, 1);
    let desc = format!("style {} with {} objects, {:?}, spp {} halton {}", style, w.objs.len(), view, spp, halton);
    if base.iter().all(|p| p.0 == [0.; 3]) { c.count("dark_images"); }
    c.eval(Some(hash(&[i])));
    c.count(&format!("style_{}", style));
    let mut compare = |c: &mut Ctx, what: &str, img: &[([f32; 3], f32)], f: [f32; 3], detail: String| {
        c.count(what);
        let mut bad = vec![];
        for k in 0..base.len() {
            let (a, b) = (base[k], img[k]);
            c.count("pixels");
            if a.0.iter().any(|x| *x > 0.) { c.count("lit_pixels"); }
            if a.1 != b.1 || (0..3).any(|j| a.0[j] * f[j] != b.0[j] && !(a.0[j] < 1e-30 && b.0[j] < 1e-30)) { bad.push(k); }
        }
        // a single pixel may see two shapes meet at one distance
        if bad.len() == 1 { c.count(&format!("{}_ties", what)); return; }
        if !bad.is_empty() { c.violate(what, format!("{}: {} of {} pixels differ, pixel {}: {:?} / {:?}: {} {:?}", detail, bad.len(), base.len(), bad[0], base[bad[0]], img[bad[0]], desc, w)); }
    };
    // acceleration structures
    let d = rng.below(30) as u32;
    compare(c, "simple-container", &image(&w, &view, Cont::Simple, seed, spp, halton, 1), [1.; 3], "list instead of kd-tree".into());
    compare(c, "depth-limit", &image(&w, &view, Cont::Kd(Some(d)), seed, spp, halton, 1), [1.; 3], format!("kd-tree of depth {}", d));
    // order of the shapes
    let mut x = w.clone();
    let (mut sh, li): (Vec<WObj>, Vec<WObj>) = x.objs.drain(..).partition(|o| o.le.is_none() || matches!(o.geo, Geo::Sph { .. }));
    for k in (1..sh.len()).rev() { sh.swap(k, rng.below(k + 1)); }
    if rng.chance(0.5) { x.objs = li; x.objs.extend(sh); } else { x.objs = sh; x.objs.extend(li); }
    compare(c, "shape-order", &image(&x, &view, Cont::Kd(None), seed, spp, halton, 1), [1.; 3], "shapes in another order".into());
    // unit of length
    let k = loop { let k = rng.int(-16, 16) as i32; if k != 0 { break k; } };
    let s = 2f64.powi(k);
    compare(c, "scaled-scene", &image(&scaled(&w, s), &view_scaled(&view, s), Cont::Kd(None), seed, spp, halton, 1), [1.; 3], format!("everything {} times as large", s));
    // brightness of all lights
    let k = loop { let k = rng.int(-12, 12) as i32; if k != 0 { break k; } };
    let mut x = w.clone();
    for o in &mut x.objs { if let Some(l) = &mut o.le { *l = sc3(*l, 2f64.powi(k)); } }
    for l in &mut x.distants { l.0 = sc3(l.0, 2f64.powi(k)); }
    compare(c, "scaled-light", &image(&x, &view, Cont::Kd(None), seed, spp, halton, 1), [2f32.powi(k); 3], format!("all lights 2^{} times as bright", k));
    // the colours of light do not mix: channels turned off or brighter
    let f: [i32; 3] = loop { let f = [0; 3].map(|_: i32| if rng.chance(0.5) { i32::MIN } else { rng.int(-6, 6) as i32 }); if f.iter().any(|k| *k != i32::MIN) { break f; } };
    let g = f.map(|k| if k == i32::MIN { 0. } else { 2f64.powi(k) });
    let mut x = w.clone();
    for o in &mut x.objs { if let Some(l) = &mut o.le { for j in 0..3 { l[j] *= g[j]; } } }
    for l in &mut x.distants { for j in 0..3 { l.0[j] *= g[j]; } }
    if g.iter().filter(|x| **x > 0.).count() == 1 { c.count(["only_red", "only_green", "only_blue"][g.iter().position(|x| *x > 0.).unwrap()]); }
    compare(c, "light-channels", &image(&x, &view, Cont::Kd(None), seed, spp, halton, 1), g.map(|x| x as f32), format!("red, green and blue of all lights {:?} times as bright", g));
    if i < 3 { c.sample(|| desc.clone()); }
}

/// the same scene once more: moved, mirrored, its triangles and lights described in another way
fn again(rng: &mut Rng, w: &World, o: V, d: V, c: &mut Ctx) -> (World, V, V, [usize; 3], String) {
    let mut x = w.clone();
    let (mut o, mut d) = (o, d);
    let mut how = String::new();
    let on = |rng: &mut Rng, how: &mut String, c: &mut Ctx, s: &'static str| { let r = rng.chance(0.35); if r { *how += s; *how += ", "; c.count(s); } r };
    if on(rng, &mut how, c, "vertices in another order") {
        for b in &mut x.objs { if let Geo::Tri { p, vn, rev } = &mut b.geo {
            let k = rng.below(6);
            for _ in 0..k % 3 { p.rotate_left(1); if let Some(n) = vn { n.rotate_left(1); } }
            if k >= 3 { p.swap(0, 1); if let Some(n) = vn { n.swap(0, 1); } *rev = !*rev; }
        } }
    }
    if on(rng, &mut how, c, "triangles cut in pieces") {
        let mut y = vec![];
        for b in x.objs.drain(..) {
            match &b.geo {
                Geo::Tri { p, vn: None, rev } if rng.chance(0.5) => {
                    let k = rng.range(0.3, 0.7);
                    let parts = if rng.chance(0.5) { let m = (p[0] + (p[1] - p[0]) * k).q(); vec![[p[0], m, p[2]], [m, p[1], p[2]]] }
                        else { let m = [(p[0] + p[1]) * 0.5, (p[1] + p[2]) * 0.5, (p[2] + p[0]) * 0.5].map(|x| x.q()); vec![[p[0], m[0], m[2]], [m[0], p[1], m[1]], [m[2], m[1], p[2]], m] };
                    for q in parts { let mut z = b.clone(); z.geo = Geo::Tri { p: q, vn: None, rev: *rev }; y.push(z); }
                }
                _ => y.push(b),
            }
        }
        x.objs = y;
    }
    if on(rng, &mut how, c, "distant lights in parts") {
        let mut y = vec![];
        for (l, d) in x.distants.drain(..) { let k = rng.range(0.1, 0.9); y.push((sc3(l, k), d * 2.)); y.push((sc3(l, 1. - k), d)); }
        x.distants = y;
    }
    if on(rng, &mut how, c, "a light that does not shine") {
        if rng.chance(0.5) { x.distants.insert(0, ([0.; 3], v(0.3, 0.2, 1.))); }
        for b in &mut x.objs { if let (Geo::Tri { .. }, None, true) = (&b.geo, b.le, rng.chance(0.2)) { b.le = Some([0.; 3]); } }
    }
    if on(rng, &mut how, c, "order of shapes and lights") {
        for k in (1..x.objs.len()).rev() { x.objs.swap(k, rng.below(k + 1)); }
        for k in (1..x.distants.len()).rev() { x.distants.swap(k, rng.below(k + 1)); }
    }
    let each = |x: &mut World, o: &mut V, d: &mut V, f: &dyn Fn(V) -> V, dirs: &dyn Fn(V) -> V, s: f64| {
        for b in &mut x.objs { match &mut b.geo {
            Geo::Tri { p, vn, .. } => { for q in p.iter_mut() { *q = f(*q).q(); } if let Some(n) = vn { for q in n.iter_mut() { *q = dirs(*q).q(); } } }
            Geo::Sph { c, r } => { *c = f(*c).q(); *r = (*r * s) as f32 as f64; }
        } }
        for l in &mut x.distants { l.1 = dirs(l.1).q(); }
        *o = f(*o).q(); *d = dirs(*d).q();
    };
    if on(rng, &mut how, c, "mirror image") {
        let k = rng.below(3);
        let f = move |p: V| { let mut p = p; p[k] = -p[k]; p };
        each(&mut x, &mut o, &mut d, &f, &f, 1.);
        // the winding turns with the image
        for b in &mut x.objs { if let Geo::Tri { p, vn, .. } = &mut b.geo { p.swap(1, 2); if let Some(n) = vn { n.swap(1, 2); } } }
    }
    if on(rng, &mut how, c, "another unit of length") {
        let s = rng.logu(0.05, 20.);
        each(&mut x, &mut o, &mut d, &move |p| p * s, &|p| p, s);
    }
    if on(rng, &mut how, c, "moved") {
        let n = dir(rng); let (s, t) = onb(n); let a = rng.range(0., 6.28); let (s, t) = (s * a.cos() + t * a.sin(), t * a.cos() - s * a.sin());
        let (s, t, n) = if rng.chance(0.3) { [(v(1., 0., 0.), v(0., 1., 0.), v(0., 0., 1.)), (v(0., 1., 0.), v(0., 0., 1.), v(1., 0., 0.)), (v(0., 0., 1.), v(1., 0., 0.), v(0., 1., 0.)), (v(0., -1., 0.), v(1., 0., 0.), v(0., 0., 1.))][rng.below(4)] } else { (s, t, n) };
        let m = if rng.chance(0.6) { pt(rng, 20.) } else { v(0., 0., 0.) };
        each(&mut x, &mut o, &mut d, &move |p| s * p.x + t * p.y + n * p.z + m, &move |p| s * p.x + t * p.y + n * p.z, 1.);
    }
    let mut perm = [0, 1, 2];
    if on(rng, &mut how, c, "colours exchanged") {
        perm = *rng.pick(&[[1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]]);
        let f = |a: &mut S3| { let b = *a; for k in 0..3 { a[k] = b[perm[k]]; } };
        for b in &mut x.objs {
            if let Some(l) = &mut b.le { f(l); }
            match &mut b.mat { Mat::Lambert { kd } => f(kd), Mat::Mirror { kr } => f(kr), Mat::Plastic { kd, ks, .. } => { f(kd); f(ks); } Mat::Metal { r, eta, k, .. } => { f(r); f(eta); f(k); } Mat::Glass { kr, kt, .. } => { f(kr); f(kt); } }
        }
        for l in &mut x.distants { f(&mut l.0); }
    }
    for b in &mut x.objs { if let Some(l) = b.le { b.le = Some(q3(l)); } }
    for l in &mut x.distants { l.0 = q3(l.0); }
    (x, o, d, perm, how)
}

fn means(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let (w, o, d) = furnished(rng, 0.1, true);
    let (x, o2, d2, perm, how) = again(rng, &w, o, d, c);
    let mut spp = 48;
    let mut last = String::new();
    c.eval(Some(hash(&[i, 2])));
    c.count("second_descriptions");
    for stage in 0..4 {
        let a = w.radiance(o, d, 8, spp, rng.u64(), 1, rng.chance(0.3));
        let b = x.radiance(o2, d2, 8, spp, rng.u64(), 1, rng.chance(0.3));
        c.add("rendered_samples", 128 * spp as u64);
        let (ma, sa) = (a.mean(), a.se());
        let p = |q: S3| [q[perm[0]], q[perm[1]], q[perm[2]]];
        let (z, rel) = compare_tail(&b, p(ma), p(sa), 32. / (64. * spp as f64));
        if stage == 0 { c.maximum("description_z", z); if ma.iter().any(|x| *x > 0.) { c.count("lit_views"); } }
        if z < if stage == 0 { 4.5 } else { 6. } || rel < 3e-3 { c.count("descriptions_agree"); if stage > 0 { c.count("settled_by_more_samples"); } return; }
        last = format!("{}: rendered {:?} (standard error {:?}) and {:?} (standard error {:?}, colours {:?}), {:.1} standard errors apart at {} samples: from {:?} towards {:?} {:?}, then from {:?} towards {:?} {:?}", how, ma, sa, b.mean(), b.se(), perm, z, 64 * spp, o, d, w, o2, d2, x);
        spp *= 6;
    }
    c.violate("description", last);
}

fn main() {
    run("C32", "one evaluation: one random scene rendered in seven descriptions with the same random numbers and compared bit for bit (container, tree depth, order of shapes, unit of length, brightness, colours of light), or one view of a furnished scene compared in expectation with another description of it (moved, mirrored, cut into smaller triangles, lights split or reordered, colours exchanged); distinct = different scenes",
        &["one pixel of an image may differ where two shapes meet at the same distance; at most one pixel in 50 000 over the run", "statistical part: a difference counts when it exceeds six standard errors and more samples confirm it", "film state read through the pt_verif_film hook"], |ctx| {
        let n = ctx.n(6000, 80000);
        par(ctx, 1, n, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("case {}", i), |c| exact(c, &mut rng, i)); });
        for k in ["simple-container", "depth-limit", "shape-order", "scaled-scene", "scaled-light", "light-channels"] {
            let (t, m) = (ctx.get(&format!("{}_ties", k)), ctx.get(k) * 240 / 50_000);
            ctx.check(t <= m.max(3), &format!("{}-single", k), || format!("single pixels differ in {} of {} images", t, m));
            ctx.require(k, 2000);
        }
        let n = ctx.n(1600, 16000);
        par(ctx, 2, n, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("case {}", i), |c| means(c, &mut rng, i)); });
        for (k, m) in [("lit_pixels", 500000), ("only_red", 30), ("only_green", 30), ("only_blue", 30), ("descriptions_agree", 800), ("lit_views", 600), ("moved", 300), ("mirror image", 300), ("triangles cut in pieces", 300), ("vertices in another order", 300), ("order of shapes and lights", 300), ("colours exchanged", 300), ("distant lights in parts", 300), ("a light that does not shine", 300), ("another unit of length", 300)] { ctx.require(k, m); }
    });
}
