//! C33: every object appears in the image where perspective puts it: rendered files against an f64 projection.
use pt::api::{HaltonSampler, RandomSampler};
use pt::verif::bbox::BBox2f;
use pt::verif::camera::PerspectiveCamera;
use pt::verif::container_kdtree::KdTree;
use pt::verif::container_simple::Simple;
use pt::verif::integrator::Integrator;
use pt::verif::light::AreaLight;
use pt::verif::sampler::Sampler;
use pt::verif::scene::{Builder, Scene};
use pt::verif::container::Container;
use pt::verif::film::Film;
use pt::verif::shape_sphere::Sphere;
use pt::verif::transform::Transform;
use pt::verif::vector::{Point2f, Point2u};
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use ptmon::ppm;
use ptmon::scenes::*;
use ptmon::wild::Flt;

/// what is to be seen: a triangle that shines on its front, or a black ball
#[derive(Clone, Debug)]
enum Thing { Tri { p: [V; 3], rev: bool, l: S3 }, Ball { c: V, r: f64 } }

/// part of a triangle in front of the camera, in camera coordinates
fn clip(p: [V; 3], z: f64) -> Vec<V> {
    let mut o = vec![];
    for k in 0..3 {
        let (a, b) = (p[k], p[(k + 1) % 3]);
        if a.z >= z { o.push(a); }
        if (a.z >= z) != (b.z >= z) { o.push(a + (b - a) * ((z - a.z) / (b.z - a.z))); }
    }
    o
}

/// 2: the rectangle lies within the convex polygon, 0: apart, 1: anything else
fn cover(poly: &[(f64, f64)], r: [f64; 4]) -> u8 {
    let (mx, my, hx, hy) = ((r[0] + r[1]) / 2., (r[2] + r[3]) / 2., (r[1] - r[0]) / 2., (r[2] - r[3]).abs() / 2.);
    let mut area = 0.;
    for k in 0..poly.len() { let (a, b) = (poly[k], poly[(k + 1) % poly.len()]); area += a.0 * b.1 - a.1 * b.0; }
    let s = if area > 0. { 1. } else { -1. };
    let mut within = true;
    for k in 0..poly.len() {
        let (a, b) = (poly[k], poly[(k + 1) % poly.len()]);
        let (ex, ey) = (b.0 - a.0, b.1 - a.1);
        let l = ex.hypot(ey);
        if l < 1e-9 { continue; }
        let d = s * (ex * (my - a.1) - ey * (mx - a.0)) / l; // distance to the left
        let w = (ex.abs() * hy + ey.abs() * hx) / l;
        if d < -w { return 0; }
        if d < w { within = false; }
    }
    let (x0, x1) = poly.iter().fold((f64::MAX, f64::MIN), |m, p| (m.0.min(p.0), m.1.max(p.0)));
    let (y0, y1) = poly.iter().fold((f64::MAX, f64::MIN), |m, p| (m.0.min(p.1), m.1.max(p.1)));
    if x1 < mx - hx || x0 > mx + hx || y1 < my - hy || y0 > my + hy { return 0; }
    if within { 2 } else { 1 }
}

/// candidates for the colour of a pixel; the second says that there is just one
fn predict(view: &View, things: &[Thing], x: u32, y: u32, grow: f64) -> (Vec<S3>, bool) {
    let r = [x as f64 + 0.5 - grow, x as f64 + 0.5 + grow, y as f64 + 0.5 - grow, y as f64 + 0.5 + grow];
    let corners = [(r[0], r[2]), (r[1], r[2]), (r[0], r[3]), (r[1], r[3])].map(|(x, y)| view.ahead(x, y));
    // (nearest depth at each corner, farthest depth at each corner, covers everything, colours)
    let mut seen: Vec<([f64; 4], [f64; 4], bool, Vec<S3>)> = vec![];
    for t in things {
        match t {
            Thing::Tri { p, rev, l } => {
                let q = p.map(|p| view.cam(p));
                let poly = clip(q, 1e-7);
                if poly.len() < 3 { continue; }
                let poly: Vec<(f64, f64)> = poly.into_iter().map(|q| view.raster(q)).collect();
                let k = cover(&poly, r);
                if k == 0 { continue; }
                let n = (q[1] - q[0]).cross(q[2] - q[0]).norm() * if *rev { -1. } else { 1. };
                let side = -n.dot(q[0]); // the camera is the origin
                let size = q.iter().map(|q| q.len()).fold(0., f64::max);
                let c = if side.abs() < 1e-4 * size { vec![*l, [0.; 3]] } else if side > 0. { vec![*l] } else { vec![[0.; 3]] };
                // depth where the corner's ray meets the plane; the reciprocal is linear on the film
                let d = corners.map(|d| n.dot(q[0]) / n.dot(d));
                let fine = d.iter().all(|d| *d > 0. && d.is_finite());
                let d0 = q.iter().map(|q| q.z).fold(f64::MAX, f64::min).max(0.);
                seen.push((if fine { d.map(|d| d * (1. - 2e-4)) } else { [d0; 4] }, if fine { d.map(|d| d * (1. + 2e-4)) } else { [f64::MAX; 4] }, k == 2 && fine, c));
            }
            Thing::Ball { c, r: rad } => {
                let q = view.cam(*c);
                let m = v((corners[0].x + corners[3].x) / 2., (corners[0].y + corners[3].y) / 2., 1.);
                let spread = corners.iter().map(|d| (d.norm().dot(m.norm())).min(1.).acos()).fold(0., f64::max);
                let size = (rad / q.len()).asin();
                let off = (m.norm().dot(q.norm())).clamp(-1., 1.).acos();
                if off > size * 1.001 + spread + 1e-4 { continue; }
                let whole = corners.iter().all(|d| d.norm().dot(q.norm()).clamp(-1., 1.).acos() < size * 0.999 - 1e-4);
                seen.push(([((q.z - rad) * (1. - 1e-3)).max(0.); 4], [(q.z + rad) * (1. + 1e-3); 4], whole, vec![[0.; 3]]));
            }
        }
    }
    // whatever lies behind something that covers everything cannot be seen
    let hidden: Vec<bool> = (0..seen.len()).map(|a| (0..seen.len()).any(|b| b != a && seen[b].2 && (0..4).all(|k| seen[b].1[k] < seen[a].0[k]))).collect();
    let mut c: Vec<S3> = vec![];
    for (k, s) in seen.iter().enumerate() { if !hidden[k] { c.extend(&s.3); } }
    if !seen.iter().any(|s| s.2) { c.push([0.; 3]); }
    c.dedup();
    let one = c.windows(2).all(|w| w[0] == w[1]);
    (c, one)
}

fn go<C: Container + 'static, S: Sampler + 'static>(sc: Scene<C>, smp: S, cam: PerspectiveCamera, film: Film, threads: u8, file: bool) -> Vec<u8> {
    if file { let _ = std::fs::remove_file("output.ppm"); }
    let i = Integrator::new(sc, smp, cam, film);
    i.render(threads);
    if file { std::fs::read("output.ppm").expect("output.ppm after a render") } else { let mut o = vec![]; i.verif_film().write_image_ppm(&mut o); o }
}

fn case(c: &mut Ctx, rng: &mut Rng, i: u64, file: bool) {
    // camera
    let big = rng.chance(0.1); let w = rng.logu(1., if big { 200. } else { 60. }); let h = (w * rng.logu(0.2, 5.)).clamp(1., 120.);
    let res = (w as u32, h as u32);
    let asp = res.0 as f64 / res.1 as f64;
    let win = match rng.below(4) { 0 => if asp > 1. { [-asp, asp, -1., 1.] } else { [-1., 1., -1. / asp, 1. / asp] }, 1 => [-1., 1., -1., 1.], _ => { let (a, b) = (rng.range(-1.5, 0.5), rng.range(-1.5, 0.5)); [a, a + rng.range(0.3, 2.), b, b + rng.range(0.3, 2.)] } };
    let win = win.map(|x| x as f32 as f64);
    let fov = rng.rf(20., 130.);
    let scale = rng.logu(0.01, 1000.);
    let (pos, look, up) = loop { let (p, l, u) = (pt(rng, 3. * scale).q(), pt(rng, 3. * scale).q(), dir(rng).q()); let d = l - p; if d.len() > 0.3 * scale && u.cross(d).len() > 0.1 * d.len() { break (p, l, u); } };
    let d = (look - pos).norm(); let x = up.cross(d).norm();
    let view = View { pos, ax: [x, d.cross(x), d], win, tan: (fov as f64 / 2.).to_radians().tan(), res };
    // things, most of them in view
    let mut things = vec![];
    let n = rng.int(1, 14);
    for _ in 0..n {
        let (fx, fy) = (rng.range(-0.1, 1.1) * res.0 as f64, rng.range(-0.1, 1.1) * res.1 as f64);
        let at = view.ahead(fx, fy); let z = scale * rng.logu(0.5, 8.) * if rng.chance(0.1) { -1. } else { 1. };
        let at = pos + view.ax[0] * (at.x * z) + view.ax[1] * (at.y * z) + view.ax[2] * z;
        let size = z.abs() * view.tan * rng.logu(0.15, 2.5);
        if rng.chance(0.15) {
            let r = (size * 0.4) as f32 as f64;
            if (at.q() - pos).len() > 1.2 * r { things.push(Thing::Ball { c: at.q(), r }); }
            continue;
        }
        let p = [at + pt(rng, size), at + pt(rng, size), at + pt(rng, size)].map(|p| p.q());
        if Geo::tri(p).quality() < 0.05 { continue; }
        // not through the camera
        let nn = (p[1] - p[0]).cross(p[2] - p[0]).norm();
        if nn.dot(pos - p[0]).abs() < 0.01 * size { continue; }
        let l = if rng.chance(0.1) { [0.; 3] } else { [0, 1, 2].map(|_| if rng.chance(0.2) { 0. } else { rng.range(0., 1.1).powi(2) as f32 as f64 }) };
        let mut rev = rng.chance(0.5);
        if rng.chance(0.8) { rev = nn.dot(pos - p[0]) < 0.; }
        things.push(Thing::Tri { p, rev, l });
    }
    if things.is_empty() { c.count("empty"); return; }
    let black = Mat::Lambert { kd: [0.; 3] }.material();
    let mut b = Builder::new();
    for t in &things {
        match t {
            Thing::Tri { p, rev, l } => b.add_area_light(AreaLight::new(spec(*l), Geo::Tri { p: *p, vn: None, rev: *rev }.triangle(black.clone()))),
            Thing::Ball { c, r } => b.add_shape(Sphere::new(c.p(), *r as f32, black.clone())),
        }
    }
    // the pinhole sees what is nearer than the near plane and farther than the far one
    let (near, far) = ((scale * rng.logu(0.01, 5.)) as f32, *rng.pick(&[2f32, 100., 1000.]));
    let cam = PerspectiveCamera::new(Transform::look_at(pos.p(), look.p(), up.v()), Transform::perspective(fov, near, near * far), BBox2f { min: Point2f::new(win[0] as f32, win[2] as f32), max: Point2f::new(win[1] as f32, win[3] as f32) }, Point2u::new(res.0, res.1));
    let flt = *rng.pick(&[Flt::Flat(0.5), Flt::Flat(0.5), Flt::Flat(1.), Flt::Gauss(1.5, 1.), Flt::Gauss(0.5, 2.), Flt::Gauss(2., 2.)]);
    let radius = match flt { Flt::Flat(r) | Flt::Gauss(r, _) => r as f64 };
    let film = flt.film(res);
    let (spp, threads) = (rng.int(1, 5) as u32, rng.int(1, 6) as u8);
    let seed = rng.u64();
    let kind = rng.below(6);
    let o = match kind {
        0 => { let s = HaltonSampler::new(spp, film.sample_bbox()); go(b.construct(|s| KdTree::new(s, None)), s, cam, film, threads, file) }
        1 => { let s = HaltonSampler::new(spp, film.sample_bbox()); go(b.construct(|s| Simple::new(s)), s, cam, film, threads, file) }
        2 => go(b.construct(|s| KdTree::new(s, None)), RandomSampler::new(spp), cam, film, threads, file),
        3 => go(b.construct(|s| Simple::new(s)), RandomSampler::new(spp), cam, film, threads, file),
        4 => go(b.construct(|s| KdTree::new(s, None)), HSampler::new(seed, spp), cam, film, threads, file),
        _ => go(b.construct(|s| Simple::new(s)), HSampler::new(seed, spp), cam, film, threads, file),
    };
    c.eval(Some(hash(&[i, file as u64])));
    c.count(if file { "files" } else { "films" });
    let desc = || format!("film {:?} window {:?} fov {} from {:?} to {:?} up {:?}, {:?} spp {} threads {} sampler/container {}, {:?}", res, win, fov, pos, look, up, flt, spp, threads, kind, things);
    let img = match ppm::parse(&o) { Ok(i) => i, Err(e) => { c.violate("format", format!("{}: {}", e, desc())); return; } };
    if !c.check((img.w, img.h) == (res.0 as usize, res.1 as usize), "size", || format!("{}x{}: {}", img.w, img.h, desc())) { return; }
    for y in 0..res.1 {
        for x in 0..res.0 {
            // rounding of a film position in f32 is far below this margin
            let (cand, one) = predict(&view, &things, x, y, radius + 0.03);
            let got = img.px[(y * res.0 + x) as usize];
            c.count("pixels");
            if one { c.count(if cand[0] == [0.; 3] { "pixels_black" } else { "pixels_one_colour" }); } else { c.count("pixels_mixed"); }
            for k in 0..3 {
                let (lo, hi) = cand.iter().fold((255, 0), |m, l| { let (a, b) = (ppm::expect(l[k] * (1. - 1e-5)).0, ppm::expect(l[k] * (1. + 1e-5)).1); (m.0.min(a), m.1.max(b)) });
                c.check((got[k] as u32) >= lo && got[k] as u32 <= hi, if one { "misplaced" } else { "mixture" }, || format!("pixel ({}, {}) channel {} is {}, expected {}..{} from {:?}: {}", x, y, k, got[k], lo, hi, cand, desc()));
            }
        }
    }
    if i < 3 { c.sample(desc); }
}

fn main() {
    run("C33", "one evaluation: one image of emitting triangles and black balls rendered by the perspective camera; every pixel whose filter support is covered by one object (decided by f64 projection and depth) must have exactly its colour, every other pixel a mixture of what can be seen there; distinct = different scenes and cameras",
        &["a pixel's support is grown by 0.03 pixels for rounding of film positions", "film written through the pt_verif_film hook in the parallel part, output.ppm itself in the sequential part"], |ctx| {
        let n = ctx.n(20000, 300000);
        par(ctx, 1, n, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("case {}", i), |c| case(c, &mut rng, i, false)); });
        for i in 0..ctx.n(2000, 20000) {
            if ctx.stop() { break; }
            let mut rng = Rng::new(hash(&[ctx.seed, 77, i]));
            ctx.guard(|| format!("file case {}", i), |c| case(c, &mut rng, i, true));
        }
        for (k, m) in [("films", 10000), ("files", 1000), ("pixels_one_colour", 1_000_000), ("pixels_black", 1_000_000), ("pixels_mixed", 500_000)] { ctx.require(k, m); }
    });
}
