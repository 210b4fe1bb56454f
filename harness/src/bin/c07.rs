//! C07: transforms against f64 matrices.
use pt::verif::interaction::Interaction;
use pt::verif::matrix::Matrix;
use pt::verif::ray::Ray;
use pt::verif::transform::Transform;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;

type M = [[f64; 4]; 4];
fn ident() -> M { let mut m = [[0.; 4]; 4]; for i in 0..4 { m[i][i] = 1.; } m }
fn mul(a: &M, b: &M) -> M { let mut r = [[0.; 4]; 4]; for i in 0..4 { for j in 0..4 { for k in 0..4 { r[i][j] += a[i][k] * b[k][j]; } } } r }
fn inv(a: &M) -> M {
    let mut m = *a; let mut r = ident();
    for i in 0..4 {
        let p = (i..4).max_by(|x, y| m[*x][i].abs().total_cmp(&m[*y][i].abs())).unwrap();
        m.swap(i, p); r.swap(i, p);
        let d = m[i][i];
        for j in 0..4 { m[i][j] /= d; r[i][j] /= d; }
        for k in 0..4 { if k != i { let f = m[k][i]; for j in 0..4 { m[k][j] -= f * m[i][j]; r[k][j] -= f * r[i][j]; } } }
    }
    r
}
fn norm(a: &M) -> f64 { a.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0., f64::max) }
fn pnt(m: &M, p: V) -> (V, f64) {
    let f = |i: usize| m[i][0] * p.x + m[i][1] * p.y + m[i][2] * p.z + m[i][3];
    let w = f(3);
    (v(f(0), f(1), f(2)) / w, w)
}
fn vec(m: &M, p: V) -> V { let f = |i: usize| m[i][0] * p.x + m[i][1] * p.y + m[i][2] * p.z; v(f(0), f(1), f(2)) }
fn nrm(mi: &M, p: V) -> V { let f = |i: usize| mi[0][i] * p.x + mi[1][i] * p.y + mi[2][i] * p.z; v(f(0), f(1), f(2)) }

/// angle with exact trigonometry at multiples of 15 degrees
fn angle(rng: &mut Rng) -> f32 { match rng.below(5) { 4 => if rng.chance(0.5) { 360. * rng.int(-9, 9) as f32 + rng.rf(-180., 180.) } else { 45. * rng.int(-80, 80) as f32 }, 0 => 90. * rng.int(-8, 8) as f32, 1 => 15. * rng.int(-30, 30) as f32, 2 => rng.rf(-1., 1.), _ => rng.rf(-720., 720.) } }
// the angle in radians is rounded to f32: 3600 degrees are off by 4e-6
fn rot(axis: usize, deg: f64) -> M {
    let (s, c) = deg.to_radians().sin_cos();
    let (a, b) = ((axis + 1) % 3, (axis + 2) % 3); // positive rotation takes a towards b
    let mut m = ident(); m[a][a] = c; m[a][b] = -s; m[b][a] = s; m[b][b] = c; m
}

fn elementary(rng: &mut Rng, c: &mut Ctx) -> (Transform, M, String) {
    match rng.below(7) {
        0 => { let s = *rng.pick(&[1f32, 100., 1e-2]); let (mut x, mut y, mut z) = (rng.rf(-s, s), rng.rf(-s, s), rng.rf(-s, s)); if rng.chance(0.2) { x = 0.; } if rng.chance(0.2) { y = 0.; } if rng.chance(0.2) { z = 0.; } let mut m = ident(); m[0][3] = x as f64; m[1][3] = y as f64; m[2][3] = z as f64; c.count("translate"); (Transform::translate(x, y, z), m, format!("translate({},{},{})", x, y, z)) }
        1 => { let f = |r: &mut Rng| if r.chance(0.2) { *r.pick(&[1f32, -1., 2., -2., 0.5, 0.1]) } else { r.logu(0.05, 20.) as f32 * if r.chance(0.3) { -1. } else { 1. } }; let (mut x, mut y, mut z) = (f(rng), f(rng), f(rng)); match rng.below(6) { 0 => { y = x; z = x; } 1 => y = x, 2 => { x = z; y = -z; } 3 => y = z, _ => () } let mut m = ident(); m[0][0] = x as f64; m[1][1] = y as f64; m[2][2] = z as f64; c.count("scale"); (Transform::scale(x, y, z), m, format!("scale({},{},{})", x, y, z)) }
        k @ 2..=4 => { let a = angle(rng); c.count(&format!("rotate_{}", ["x", "y", "z"][k - 2])); (match k { 2 => Transform::rotate_x(a), 3 => Transform::rotate_y(a), _ => Transform::rotate_z(a) }, rot(k - 2, a as f64), format!("rotate_{}({})", ["x", "y", "z"][k - 2], a)) }
        5 => { // arbitrary affine matrix, well conditioned
            let mut a = [[0f32; 4]; 4]; a[3][3] = 1.;
            let mut f;
            loop {
                for i in 0..3 { for j in 0..4 { a[i][j] = if rng.chance(0.15) { 0. } else { rng.rf(-3., 3.) }; } }
                f = [[0f64; 4]; 4]; for i in 0..4 { for j in 0..4 { f[i][j] = a[i][j] as f64; } }
                let d = v(f[0][0], f[0][1], f[0][2]).dot(v(f[1][0], f[1][1], f[1][2]).cross(v(f[2][0], f[2][1], f[2][2])));
                if d.abs() > 0.5 { break; }
            }
            c.count("matrix");
            (if rng.chance(0.5) { Transform::from(a) } else { Transform::from(Matrix::from(a)) }, f, format!("matrix {:?}", a)) }
        _ => { let (pos, look) = (pt(rng, 10.).q(), pt(rng, 10.).q()); let up = dir(rng).q();
            let d = (look - pos).norm(); if (look - pos).len() < 0.5 || up.cross(d).len() < 0.1 { return elementary(rng, c); }
            let l = up.norm().cross(d).norm(); let u = d.cross(l); let mut m = ident();
            for i in 0..3 { m[i][0] = l[i]; m[i][1] = u[i]; m[i][2] = d[i]; m[i][3] = pos[i]; }
            c.count("look_at"); (Transform::look_at(pos.p(), look.p(), up.v()), m, format!("look_at({:?},{:?},{:?})", pos, look, up)) }
    }
}

/// t against its f64 matrix m, on points, vectors, normals, rays and interactions. `amp` bounds accumulated rounding.
fn compare(c: &mut Ctx, rng: &mut Rng, t: &Transform, m: &M, amp: f64, desc: &str) {
    let mi = inv(m);
    let e0 = 3e-6 * amp;
    for k in 0..4 {
        let s = *rng.pick(&[1., 1., 30., 0.03]);
        let p = pt(rng, s).q();
        let w = if k == 0 { let mut e = v(0., 0., 0.); e[rng.below(3)] = 1.; e } else { pt(rng, s).q() };
        let back = k % 2 == 1;
        let (a, ai) = if back { (&mi, m) } else { (m, &mi) };
        let size = norm(a) * (1. + p.maxabs());
        let tt = if back { t.inverse() } else { *t };
        let (rp, rw) = pnt(a, p);
        if rw.abs() < 0.05 { continue; }
        let tol = e0 * size / rw.abs().min(1.) * (1. + rp.maxabs() / size);
        let ways: Vec<(&str, V)> = vec![("apply", tt.apply(&p.p()).to()), ("inverse_apply", tt.inverse().inverse_apply(&p.p()).to()), ("inverse_apply", if back { t.inverse_apply(&p.p()).to() } else { t.apply(&p.p()).to() })];
        for (n, g) in ways {
            c.maximum("point_error_over_limit", (g - rp).len() / tol);
            c.check((g - rp).len() <= tol, "point", || format!("{} {}{}: point {:?} -> {:?} instead of {:?}", desc, n, if back { " of inverse" } else { "" }, p, g, rp));
        }
        let (rv, gv) = (vec(a, w), tt.apply(&w.v()).to());
        let tv = e0 * norm(a) * w.maxabs() * 2.;
        c.check((gv - rv).len() <= tv, "vector", || format!("{}{}: vector {:?} -> {:?} instead of {:?}", desc, if back { " (inverse)" } else { "" }, w, gv, rv));
        let (rn, gn) = (nrm(ai, w), tt.apply(&w.n()).to());
        let tn = e0 * norm(ai) * w.maxabs() * 6.;
        c.check((gn - rn).len() <= tn, "normal", || format!("{}{}: normal {:?} -> {:?} instead of {:?}", desc, if back { " (inverse)" } else { "" }, w, gn, rn));
        // perpendicularity survives
        let (x, y) = onb(w.norm());
        for tg in [x, y] { let tg = tg.q(); let im = tt.apply(&tg.v()).to(); let d = im.dot(gn).abs(); c.check(d <= (tv + tn) * 3. * (im.len() + gn.len()) + 2e-7 * w.len(), "normal-not-perpendicular", || format!("{}: tangent {:?}", desc, tg)); }
        // round trip
        let rt = tt.inverse().apply(&tt.apply(&p.p())).to();
        c.check((rt - p).len() <= 40. * e0 * norm(a) * norm(ai) * (1. + p.maxabs()), "round-trip", || format!("{}: {:?} -> {:?}", desc, p, rt));
        // rays: points along the ray map to points along the image, extent unchanged
        let mut r = Ray::default(); r.origin = p.p(); r.direction = w.v(); r.t_max = rng.rf(0.1, 9.);
        let ir = tt.apply(&r);
        c.check(ir.t_max == r.t_max, "ray-extent", || format!("{}: extent {} -> {}", desc, r.t_max, ir.t_max));
        let at = rng.range(0., 5.);
        let (x, xw) = pnt(a, p + w * at);
        if (xw - 1.).abs() < 1e-4 { // affine
            let y = ir.origin.to() + ir.direction.to() * at;
            c.check((y - x).len() <= (tol + tv * at) * 3., "ray", || format!("{}: point at {} maps to {:?}, image ray has {:?}", desc, at, x, y));
            // interactions: each field by its kind
            let i = Interaction { p: p.p(), n: w.n(), sn: w.n(), dpdu: w.v(), dpdv: (-w).v(), wo: w.v(), ..Default::default() };
            let g = tt.apply(&i);
            c.check((g.p.to() - rp).len() <= tol && (g.n.to() - rn).len() <= tn && (g.sn.to() - rn).len() <= tn && (g.dpdu.to() - rv).len() <= tv && (g.dpdv.to() + rv).len() <= tv && (g.wo.to() - rv).len() <= tv, "interaction", || format!("{}: {:?} {:?}", desc, p, w));
        }
    }
    c.count("compared");
}

fn main() {
    run("C07", "one evaluation: one transform compared with its f64 matrix on points, vectors, normals, rays, both ways; distinct = different transforms", &["determinants away from zero; error bound 3e-6 times the product of the factors' norms"], |ctx| {
        let n = ctx.n(600000, 6000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            // chains of up to 4 factors
            let k = 1 + rng.below(4);
            let (mut t, mut m, mut d) = elementary(&mut rng, c);
            let mut amp = norm(&m) * norm(&inv(&m));
            let mut list = vec![t];
            for _ in 1..k {
                let (t2, m2, d2) = elementary(&mut rng, c);
                let (mut t2, mut m2, mut d2) = (t2, m2, d2);
                if rng.chance(0.3) { t2 = t2.inverse(); m2 = inv(&m2); d2 = format!("({})^-1", d2); c.count("inverse_factor"); }
                t = t * t2; m = mul(&m, &m2); d = format!("{} * {}", d, d2);
                amp *= norm(&m2) * norm(&inv(&m2));
                list.push(t2);
            }
            if amp > 3e4 { c.count("skipped_ill_conditioned"); return; }
            // how errors of the factors reach the product: relative to the product's own norm
            let (np, ni) = (norm(&m), norm(&inv(&m)));
            let rel = (amp / (np * ni)).max(1.) * 4. * k as f64;
            c.eval(Some(hash(&[i, np.to_bits()])));
            c.guard(|| d.clone(), |c| {
                let mut r2 = rng.clone();
                compare(c, &mut r2, &t, &m, rel * (np * ni).sqrt().max(1.), &d);
                if k > 1 { // a product is its factors applied one after the other
                    let p = pt(&mut r2, 5.).q();
                    let mut q = p.p(); for f in list.iter().rev() { q = f.apply(&q); }
                    let g = t.apply(&p.p()).to();
                    let tol = 3e-6 * rel * (np * ni).sqrt() * np * (1. + p.maxabs()) * 3.;
                    c.count("products");
                    c.check((g - q.to()).len() <= tol.max(1e-5 * amp), "product", || format!("{}: {:?} -> {:?}, one by one {:?}", d, p, g, q));
                    let mut q = p.p(); for f in list.iter() { q = f.inverse().apply(&q); }
                    let g = t.inverse().apply(&p.p()).to();
                    c.check((g - q.to()).len() <= (1e-5 * amp * (1. + p.maxabs())), "inverse-product", || format!("{}: {:?} -> {:?}, one by one {:?}", d, p, g, q));
                }
            });
            // look-at carries the frame
            {
                let s = *rng.pick(&[1., 100.]);
                let (pos, look, up) = (pt(&mut rng, s).q(), pt(&mut rng, s).q(), (dir(&mut rng) * rng.logu(0.1, 10.)).q());
                let dd = look - pos;
                if dd.len() > 0.1 * s && up.cross(dd).len() > 0.05 * up.len() * dd.len() {
                    let t = Transform::look_at(pos.p(), look.p(), up.v());
                    let e = 3e-5;
                    let f = |x: f64, y: f64, z: f64| t.apply(&v(x, y, z).v()).to();
                    let desc = || format!("look_at({:?}, {:?}, {:?})", pos, look, up);
                    c.check((t.apply(&v(0., 0., 0.).p()).to() - pos).len() <= 1e-5 * pos.maxabs(), "look-at-position", desc);
                    c.check((f(0., 0., 1.) - dd.norm()).len() < e, "look-at-direction", desc);
                    let u = f(0., 1., 0.);
                    c.check(u.dot(up) > 0. && u.dot(dd.norm()).abs() < e && (u.len() - 1.).abs() < e && u.dot(up.norm().cross(dd.norm())).abs() < e * 10., "look-at-up", desc);
                    let x = f(1., 0., 0.);
                    c.check((x - u.cross(dd.norm())).len() < e * 4., "look-at-side", || format!("{}: x axis {:?}", desc(), x));
                    c.count("look_at_frames"); c.eval(None);
                }
            }
            // any invertible matrix: points divide by the last coordinate, the inverse undoes it
            {
                let mut a = [[0f32; 4]; 4]; let mut f = [[0f64; 4]; 4];
                let sparse = rng.chance(0.3);
                for r in 0..4 { for k in 0..4 { a[r][k] = if sparse && rng.chance(0.5) { 0. } else if rng.chance(0.1) { 1. } else { rng.rf(-3., 3.) }; f[r][k] = a[r][k] as f64; } }
                let fi = inv(&f);
                let kappa = norm(&f) * norm(&fi);
                if fi.iter().flatten().all(|x| x.is_finite()) && kappa < 200. {
                    let (mut t, mut m, mut d) = (if rng.chance(0.5) { Transform::from(a) } else { Transform::from(Matrix::from(a)) }, f, format!("matrix {:?}", a));
                    let mut amp = kappa;
                    if rng.chance(0.4) { let (t2, m2, d2) = elementary(&mut rng, c); let k2 = norm(&m2) * norm(&inv(&m2)); if k2 < 100. { if rng.chance(0.5) { t = t * t2; m = mul(&m, &m2); d = format!("{} * {}", d, d2); } else { t = t2 * t; m = mul(&m2, &m); d = format!("{} * {}", d2, d); } amp *= k2; c.count("projective_products"); } }
                    let mi = inv(&m);
                    c.count("projective"); c.eval(None);
                    c.guard(|| d.clone(), |c| for k in 0..6 {
                        let p = pt(&mut rng, 2.).q();
                        let (x, tt) = if k % 2 == 0 { (&m, t) } else { (&mi, t.inverse()) };
                        let (rp, rw) = pnt(x, p);
                        let size = norm(x) * (1. + p.maxabs());
                        let rel = 3e-7 * amp * 4. * size / rw.abs(); // relative error of the divisor
                        if rel > 0.01 { c.count("projective_near_horizon"); continue; }
                        let g = tt.apply(&p.p()).to();
                        let tol = rel * 2. * (1. + rp.maxabs());
                        c.maximum("projective_error_over_limit", (g - rp).len() / tol);
                        c.count("projective_points");
                        c.check((g - rp).len() <= tol, "projective-point", || format!("{}{}: point {:?} -> {:?} instead of {:?}", d, if k % 2 == 1 { " (inverse)" } else { "" }, p, g, rp));
                        c.check((tt.inverse().inverse_apply(&p.p()).to() - g).len() <= 2. * tol, "projective-inverse-apply", || format!("{}: point {:?}", d, p));
                    });
                }
            }
            // perspective
            {
                let fov = rng.rf(10., 150.); let nr = rng.logu(1e-2, 1.); let fr = nr * rng.logu(2., 1000.);
                let (nr, fr) = (nr as f32, fr as f32);
                let t = Transform::perspective(fov, nr, fr);
                let (n, f) = (nr as f64, fr as f64);
                let tan = (fov as f64 / 2.).to_radians().tan();
                let desc = || format!("perspective({}, {}, {})", fov, nr, fr);
                for _ in 0..4 {
                    let z = n * (f / n).powf(rng.f64());
                    let (x, y) = (rng.range(-1., 1.) * z * tan, rng.range(-1., 1.) * z * tan);
                    let p = v(x, y, z).q();
                    let g = t.apply(&p.p()).to();
                    let want = v(p.x / p.z / tan, p.y / p.z / tan, f / (f - n) * (1. - n / p.z));
                    c.check((g - want).maxabs() < 2e-5, "perspective", || format!("{}: {:?} -> {:?} instead of {:?}", desc(), p, g, want));
                    let b = t.inverse().apply(&want.p()).to();
                    // z is recovered through 1 / (1 - z')
                    c.check((b - p).len() < 2e-5 * (f / n) * p.len() + 1e-5 * p.len(), "perspective-inverse", || format!("{}: {:?} -> {:?} instead of {:?}", desc(), want, b, p));
                }
                let z = |d: f64| t.apply(&v(0., 0., d).p()).z as f64;
                c.check(z(n).abs() < 1e-5 && (z(f) - 1.).abs() < 1e-5, "perspective-planes", || format!("{}: near {} far {}", desc(), z(n), z(f)));
                let e = t.apply(&v(tan * 3., -tan * 3., 3.).p()).to();
                c.check((e.x - 1.).abs() < 1e-5 && (e.y + 1.).abs() < 1e-5, "perspective-edge", || format!("{}: edge {:?}", desc(), e));
                c.count("perspectives"); c.eval(None);
            }
            if i < 3 { c.sample(|| d.clone()); }
        });
        for k in ["translate", "scale", "rotate_x", "rotate_y", "rotate_z", "matrix", "look_at", "inverse_factor", "products", "look_at_frames", "perspectives", "projective_points", "projective_products"] { ctx.require(k, 200); }
    });
}
