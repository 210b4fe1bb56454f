//! C08: camera rays against an f64 pinhole camera.
use pt::verif::bbox::BBox2f;
use pt::verif::camera::{Camera, CameraSample, PerspectiveCamera};
use pt::verif::transform::Transform;
use pt::verif::vector::{Point2f, Point2u};
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;

fn main() {
    run("C08", "one evaluation: one generated ray compared with the f64 pinhole ray; distinct = different (camera, film position)", &["camera placements are rigid (look-at, rotations, translations)"], |ctx| {
        let n = ctx.n(600000, 6000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            let what = rng.below(4);
            let w = rng.logu(1., 5000.); let h = (w * rng.logu(0.12, 8.)).clamp(1., 5000.);
            let res = (w as u32, h as u32);
            // screen windows: centred with the film's aspect, unit, off-centre, tiny crops
            let asp = res.0 as f64 / res.1 as f64;
            let (x0, x1, y0, y1) = match what { 0 => if asp > 1. { (-asp, asp, -1., 1.) } else { (-1., 1., -1. / asp, 1. / asp) }, 1 => (-1., 1., -1., 1.), 2 => { let (a, b) = (rng.range(-3., 2.), rng.range(-3., 2.)); (a, a + rng.range(0.2, 3.), b, b + rng.range(0.2, 3.)) }, _ => { let (a, b) = (rng.range(-1., 0.9), rng.range(-1., 0.9)); (a, a + 0.05, b, b + 0.05) } };
            let (x0, x1, y0, y1) = (x0 as f32, x1 as f32, y0 as f32, y1 as f32);
            let fov = rng.rf(5., 150.);
            let near = *rng.pick(&[1e-2f32, 0.1, 1.]); let far = near * *rng.pick(&[100f32, 1000., 1e4]);
            let tan = (fov as f64 / 2.).to_radians().tan();
            // placement
            let sc = *rng.pick(&[1., 10., 300.]);
            let (t, pos, ax, desc) = if rng.chance(0.7) {
                let (pos, look, up) = (pt(&mut rng, sc).q(), pt(&mut rng, sc).q(), dir(&mut rng).q());
                let d = look - pos;
                if d.len() < 0.1 * sc || up.cross(d).len() < 0.05 * d.len() { return; }
                let d = d.norm(); let x = up.cross(d).norm(); let y = d.cross(x);
                c.count("look_at_cameras");
                (Transform::look_at(pos.p(), look.p(), up.v()), pos, [x, y, d], format!("look_at({:?},{:?},{:?})", pos, look, up))
            } else {
                let (a, b) = (rng.rf(-180., 180.), rng.rf(-180., 180.)); let p = pt(&mut rng, sc).q();
                let (sa, ca) = (a as f64).to_radians().sin_cos(); let (sb, cb) = (b as f64).to_radians().sin_cos();
                // rotate_y(a) after rotate_x(b)
                let f = |q: V| { let q = v(q.x, q.y * cb - q.z * sb, q.y * sb + q.z * cb); v(q.x * ca + q.z * sa, q.y, -q.x * sa + q.z * ca) };
                c.count("rotated_cameras");
                (Transform::translate(p.x as f32, p.y as f32, p.z as f32) * Transform::rotate_y(a) * Transform::rotate_x(b), p, [f(v(1., 0., 0.)), f(v(0., 1., 0.)), f(v(0., 0., 1.))], format!("T({:?}) Ry({}) Rx({})", p, a, b))
            };
            let cam = PerspectiveCamera::new(t, Transform::perspective(fov, near, far), BBox2f { min: Point2f::new(x0, y0), max: Point2f::new(x1, y1) }, Point2u::new(res.0, res.1));
            let cam = if rng.chance(0.3) { cam.clone() } else { cam };
            let (w, h) = (res.0 as f64, res.1 as f64);
            let full = |px: f64, py: f64| -> V { let sx = x0 as f64 + px / w * (x1 as f64 - x0 as f64); let sy = y1 as f64 - py / h * (y1 as f64 - y0 as f64); (ax[0] * (sx * tan) + ax[1] * (sy * tan) + ax[2]).norm() };
            let mut dirs: Vec<(f64, f64, V)> = vec![];
            for k in 0..12 {
                let (px, py) = match k { 0 => (0., 0.), 1 => (w, 0.), 2 => (0., h), 3 => (w, h), 4 => (w / 2., h / 2.), 5 => (-0.7, -1.3), _ => (rng.range(0., w), rng.range(0., h)) };
                let (px, py) = (px as f32, py as f32);
                let r = cam.generate_ray(&CameraSample { p_film: Point2f::new(px, py) });
                let want = full(px as f64, py as f64);
                let d = r.direction.to();
                let desc = || format!("{} fov {} near {} far {} window ({},{})-({},{}) film {}x{} at ({}, {}): origin {:?} direction {:?} t_max {}, expected direction {:?}", desc, fov, near, far, x0, y0, x1, y1, res.0, res.1, px, py, r.origin, r.direction, r.t_max, want);
                // f32 rounding of a screen coordinate is relative to the window, not to the coordinate
                let tol = 1.5e-5 + 2e-6 * (x0.abs().max(x1.abs()).max(y0.abs()).max(y1.abs()) as f64) * tan;
                c.eval(Some(hash_f(&[px, py, r.direction.x, r.direction.y, r.direction.z])));
                c.maximum("direction_error", (d - want).len());
                c.check((r.origin.to() - pos).len() <= 1e-6 * (1. + pos.maxabs()), "origin", desc);
                c.check((d.len() - 1.).abs() < 1e-5, "not-unit", desc);
                c.check(r.t_max == f32::INFINITY, "extent", desc);
                c.check((d - want).len() <= tol, "direction", desc);
                c.count("rays");
                // distinct positions half a pixel apart
                let (qx, qy) = if k % 2 == 0 { (px + 0.5, py) } else { (px, py + 0.5) };
                if res.0 < 600 && res.1 < 600 && what != 3 {
                    let r2 = cam.generate_ray(&CameraSample { p_film: Point2f::new(qx, qy) });
                    let want2 = full(qx as f64, qy as f64);
                    if (want2 - want).len() > 4. * tol { c.count("neighbours"); c.check((r2.direction.to() - d).len() > 0.25 * (want2 - want).len(), "same-direction", desc); }
                }
                dirs.push((px as f64, py as f64, d));
            }
            if i < 3 { c.sample(|| format!("{} fov {} film {}x{}", desc, fov, res.0, res.1)); }
        });
        for k in ["look_at_cameras", "rotated_cameras", "rays", "neighbours"] { ctx.require(k, 1000); }
    });
}
