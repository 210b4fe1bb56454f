//! C37: vector, colour, box, matrix and scalar arithmetic against f64 and exact integer arithmetic.
use pt::verif::axis::Axis;
use pt::verif::bbox::*;
use pt::verif::common::*;
use pt::verif::matrix::Matrix;
use pt::verif::spectrum::Spectrum;
use pt::verif::vector::*;
use ptmon::fw::*;

type D3 = [f64; 3];
fn arr(k: usize) -> Axis { [Axis::X, Axis::Y, Axis::Z][k] }

/// zeros, ones, equal and opposite values, powers of two, all magnitudes where products stay in range
fn num(r: &mut Rng) -> f32 {
    let x = match r.below(9) { 0 => 0., 1 => 1., 2 => r.int(-5, 5) as f32, 3 => 2f32.powi(r.int(-30, 30) as i32), 4 => r.logu(1e-8, 1e8) as f32, _ => r.rf(-4., 4.) };
    if r.chance(0.4) { -x } else { x }
}
fn nums(r: &mut Rng) -> [f32; 3] { let mut a = [num(r), num(r), num(r)]; if r.chance(0.15) { a[r.below(3)] = a[r.below(3)]; } if r.chance(0.1) { let k = r.below(3); a[k] = -a[(k + 1) % 3]; } a }
fn d3(a: [f32; 3]) -> D3 { [a[0] as f64, a[1] as f64, a[2] as f64] }
fn mag(a: [f32; 3]) -> f64 { a.iter().fold(0f64, |m, x| m.max(x.abs() as f64)) }

struct Q<'a> { c: &'a mut Ctx, n: u64 }
impl<'a> Q<'a> {
    /// close to a value computed in f64; `scale`: magnitude of the operands
    fn near(&mut self, what: &str, got: f32, want: f64, scale: f64, detail: &dyn Fn() -> String) {
        self.n += 1;
        let tol = 6e-7 * (want.abs() + scale) + 1e-37;
        if !((got as f64 - want).abs() <= tol) { let d = format!("{}: {} instead of {}: {}", what, got, want, detail()); self.c.violate(what, d); }
    }
    fn exact(&mut self, what: &str, ok: bool, detail: &dyn Fn() -> String) { self.n += 1; if !ok { let d = format!("{}: {}", what, detail()); self.c.violate(what, d); } }
}

macro_rules! xyz { ($v:expr) => {{ let v = $v; [v.x, v.y, v.z] }} }
macro_rules! rgb { ($v:expr) => {{ let v = $v; [v.r, v.g, v.b] }} }

/// componentwise: the result of each component against the operation in f64
fn comp(q: &mut Q, what: &str, got: [f32; 3], a: [f32; 3], b: [f32; 3], f: fn(f64, f64) -> f64, additive: bool) {
    for k in 0..3 {
        let w = f(a[k] as f64, b[k] as f64);
        if !w.is_finite() || w.abs() > 1e37 || (w != 0. && w.abs() < 1e-30) { continue; }
        let s = if additive { a[k].abs().max(b[k].abs()) as f64 } else { 0. };
        q.near(what, got[k], w, s, &|| format!("component {} of {:?} and {:?}", k, a, b));
    }
}

macro_rules! ops3 { ($q:expr, $r:expr, $t:ident, $ex:ident, $name:expr) => {{
    let (a, s) = (nums($r), num($r));
    let v = $t::new(a[0], a[1], a[2]);
    let t = [s; 3];
    comp($q, concat!($name, " + number"), $ex!(v + s), a, t, |x, y| x + y, true);
    comp($q, concat!($name, " - number"), $ex!(v - s), a, t, |x, y| x - y, true);
    comp($q, concat!($name, " * number"), $ex!(v * s), a, t, |x, y| x * y, false);
    if s != 0. { comp($q, concat!($name, " / number"), $ex!(v / s), a, t, |x, y| x / y, false); }
    comp($q, concat!("-", $name), $ex!(-v), a, t, |x, _| -x, false);
    comp($q, concat!("abs of ", $name), $ex!(v.abs()), a, t, |x, _| x.abs(), false);
    let mut w = v; w += s; comp($q, concat!($name, " += number"), $ex!(w), a, t, |x, y| x + y, true);
    let mut w = v; w -= s; comp($q, concat!($name, " -= number"), $ex!(w), a, t, |x, y| x - y, true);
    let mut w = v; w *= s; comp($q, concat!($name, " *= number"), $ex!(w), a, t, |x, y| x * y, false);
    if s != 0. { let mut w = v; w /= s; comp($q, concat!($name, " /= number"), $ex!(w), a, t, |x, y| x / y, false); }
    let l = d3(a).iter().map(|x| x * x).sum::<f64>().sqrt();
    $q.near(concat!("length of ", $name), v.length(), l, 0., &|| format!("{:?}", a));
    if l > 1e-12 { let n = $ex!(v.normalize()); for k in 0..3 { $q.near(concat!("normalized ", $name), n[k], a[k] as f64 / l, 1., &|| format!("{:?}", a)); } }
}} }
macro_rules! add3 { ($q:expr, $r:expr, $a:ident, $b:ident, $ex:ident, $name:expr) => {{
    let (a, b) = (nums($r), nums($r));
    let (v, o) = ($a::new(a[0], a[1], a[2]), $b::new(b[0], b[1], b[2]));
    comp($q, concat!($name, " +"), $ex!(v + o), a, b, |x, y| x + y, true);
    let mut w = v; w += o; comp($q, concat!($name, " +="), $ex!(w), a, b, |x, y| x + y, true);
}} }
macro_rules! sub3 { ($q:expr, $r:expr, $a:ident, $b:ident, $ex:ident, $name:expr) => {{
    let (a, b) = (nums($r), nums($r));
    let (v, o) = ($a::new(a[0], a[1], a[2]), $b::new(b[0], b[1], b[2]));
    comp($q, concat!($name, " -"), $ex!(v - o), a, b, |x, y| x - y, true);
}} }
macro_rules! index3 { ($q:expr, $r:expr, $t:ident, $ex:ident, $name:expr) => {{
    let a = nums($r);
    let mut v = $t::new(a[0], a[1], a[2]);
    for k in 0..3 { $q.exact(concat!($name, "[]"), v[k].to_bits() == a[k].to_bits(), &|| format!("component {} of {:?}", k, a)); }
    let (k, s) = ($r.below(3), num($r));
    v[k] = s; let mut b = a; b[k] = s;
    $q.exact(concat!($name, "[] ="), $ex!(v).iter().zip(&b).all(|(x, y)| x.to_bits() == y.to_bits()), &|| format!("{:?} with component {} set to {}: {:?}", a, k, s, v));
}} }

fn dot(a: D3, b: D3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn vectors(q: &mut Q, r: &mut Rng) {
    ops3!(q, r, Vector3f, xyz, "vector"); ops3!(q, r, Normal3f, xyz, "normal"); ops3!(q, r, Point3f, xyz, "point");
    add3!(q, r, Vector3f, Vector3f, xyz, "vector vector"); add3!(q, r, Normal3f, Normal3f, xyz, "normal normal"); add3!(q, r, Point3f, Point3f, xyz, "point point"); add3!(q, r, Point3f, Vector3f, xyz, "point vector");
    sub3!(q, r, Vector3f, Vector3f, xyz, "vector vector"); sub3!(q, r, Point3f, Point3f, xyz, "point point"); sub3!(q, r, Point3f, Vector3f, xyz, "point vector");
    { let (a, b) = (nums(r), nums(r)); let (u, w) = (Vector3f::new(a[0], a[1], a[2]), Vector3f::new(b[0], b[1], b[2])); let mut x = u; x -= w; comp(q, "vector -= vector", xyz!(x), a, b, |x, y| x - y, true);
      let mut p = Point3f::new(a[0], a[1], a[2]); p -= w; comp(q, "point -= vector", xyz!(p), a, b, |x, y| x - y, true); }
    index3!(q, r, Vector3f, xyz, "vector"); index3!(q, r, Point3f, xyz, "point");
    let (a, b) = (nums(r), nums(r));
    let det = || format!("{:?} and {:?}", a, b);
    let (u, w) = (Vector3f::new(a[0], a[1], a[2]), Vector3f::new(b[0], b[1], b[2]));
    let (pu, pw) = (Point3f::new(a[0], a[1], a[2]), Point3f::new(b[0], b[1], b[2]));
    for (name, x) in [("vector of point", xyz!(Vector3f::from(pu))), ("vector of normal", xyz!(Vector3f::from(Normal3f::new(a[0], a[1], a[2])))), ("normal of vector", xyz!(Normal3f::from(u))), ("normal of point", xyz!(Normal3f::from(pu))), ("point of vector", xyz!(Point3f::from(u)))] { q.exact(name, x == a, &det); }
    let s: f64 = (0..3).map(|k| (a[k] as f64 * b[k] as f64).abs()).sum();
    let want = dot(d3(a), d3(b));
    q.near("dot", u.dot(w), want, s, &det);
    q.near("dot_n", u.dot_n(Normal3f::from(w)), want, s, &det);
    q.near("dot of normals", Normal3f::from(u).dot(Normal3f::from(w)), want, s, &det);
    let x = xyz!(u.cross(w));
    for k in 0..3 { let (i, j) = ((k + 1) % 3, (k + 2) % 3); let (f, g) = (a[i] as f64 * b[j] as f64, a[j] as f64 * b[i] as f64); q.near("cross", x[k], f - g, f.abs() + g.abs(), &det); }
    for k in 0..3 {
        q.exact("axis index", u[arr(k)] == a[k] && pu[arr(k)] == a[k], &det);
        q.exact("next axis", arr(k).next() as usize == (k + 1) % 3, &|| format!("{}", k)); q.exact("previous axis", arr(k).prev() as usize == (k + 2) % 3, &|| format!("{}", k));
        let (o1, o2) = arr(k).others(); let (o1, o2) = (o1 as usize, o2 as usize);
        q.exact("other axes", o1 != k && o2 != k && o1 != o2, &|| format!("{}", k));
    }
    let (k, s) = (r.below(3), num(r));
    let (mut u2, mut p2, mut b2) = (u, pu, a); u2[arr(k)] = s; p2[arr(k)] = s; b2[k] = s;
    q.exact("set by axis", xyz!(u2) == b2 && xyz!(p2) == b2, &det);
    let pm = [r.below(3), r.below(3), r.below(3)];
    q.exact("permute", xyz!(u.permute(arr(pm[0]), arr(pm[1]), arr(pm[2]))) == pm.map(|k| a[k]) && xyz!(pu.permute(arr(pm[0]), arr(pm[1]), arr(pm[2]))) == pm.map(|k| a[k]), &|| format!("{:?} by {:?}", a, pm));
    q.exact("max_component", u.max_component() == a[0].max(a[1]).max(a[2]), &det);
    q.exact("max_abs_axis", a[u.max_abs_axis() as usize].abs() as f64 == mag(a), &det);
    let dist = (0..3).map(|k| (a[k] as f64 - b[k] as f64).powi(2)).sum::<f64>().sqrt();
    q.near("distance", pu.distance(pw), dist, 2. * mag(a).max(mag(b)), &det);
    let (mn, mx) = (xyz!(pu.min(pw)), xyz!(pu.max(pw)));
    for k in 0..3 { q.exact("min of points", mn[k] == a[k].min(b[k]), &det); q.exact("max of points", mx[k] == a[k].max(b[k]), &det); }
    // frames
    let l = u.length();
    if l > 1e-10 {
        let n = u / l;
        let (s, t) = n.construct_coordinate_system();
        let (n, s, t) = (d3(xyz!(n)), d3(xyz!(s)), d3(xyz!(t)));
        for (what, x, w) in [("frame: length", dot(s, s), 1.), ("frame: length", dot(t, t), 1.), ("frame: right angle", dot(s, t), 0.), ("frame: right angle", dot(n, s), 0.), ("frame: right angle", dot(n, t), 0.)] { q.near(what, x as f32, w, 2., &det); }
        let h = n[0] * (s[1] * t[2] - s[2] * t[1]) + n[1] * (s[2] * t[0] - s[0] * t[2]) + n[2] * (s[0] * t[1] - s[1] * t[0]);
        q.near("frame: right-handed", h as f32, 1., 2., &det);
    }
    let (th, ph) = (r.range(0., 3.1415), r.range(-10., 10.) as f32);
    let (st, ct) = (th.sin() as f32, th.cos() as f32);
    let x = xyz!(Vector3f::from_spherical_direction(st, ct, ph));
    for (k, w) in [st as f64 * (ph as f64).cos(), st as f64 * (ph as f64).sin(), ct as f64].iter().enumerate() { q.near("from_spherical_direction", x[k], *w, 1., &|| format!("theta {} phi {}", th, ph)); }
}

fn planar(q: &mut Q, r: &mut Rng) {
    // integers: exact
    let m = *r.pick(&[3i64, 50, 30000]);
    let i: Vec<i32> = (0..5).map(|_| r.int(-m, m) as i32).collect();
    let d = || format!("{:?}", i);
    let (p, o, w, s) = (Point2i::new(i[0], i[1]), Point2i::new(i[2], i[3]), Vector2i::new(i[2], i[3]), i[4]);
    macro_rules! two { ($what:expr, $e:expr, $x:expr, $y:expr) => {{ let g = $e; let v = (g.x, g.y); q.exact($what, v == ($x, $y), &|| format!("{:?}: {:?}", i, v)); }} }
    macro_rules! with { ($t:expr, $e:expr) => {{ let mut t = $t; $e(&mut t); t }} }
    two!("2d point + point", p + o, i[0] + i[2], i[1] + i[3]);
    two!("2d point + vector", p + w, i[0] + i[2], i[1] + i[3]);
    two!("2d point - point", p - o, i[0] - i[2], i[1] - i[3]);
    two!("2d point - vector", p - w, i[0] - i[2], i[1] - i[3]);
    two!("2d vector + vector", w + w, 2 * i[2], 2 * i[3]);
    two!("2d vector - vector", (p - o) - w, i[0] - 2 * i[2], i[1] - 2 * i[3]);
    two!("2d point + number", p + s, i[0] + s, i[1] + s);
    two!("2d point - number", p - s, i[0] - s, i[1] - s);
    two!("2d point * number", p * s, i[0] * s, i[1] * s);
    two!("2d vector * number", w * s, i[2] * s, i[3] * s);
    if s != 0 { two!("2d point / number", p / s, i[0] / s, i[1] / s); two!("2d vector / number", w / s, i[2] / s, i[3] / s); two!("2d point /= number", with!(p, |t: &mut Point2i| *t /= s), i[0] / s, i[1] / s); }
    two!("-2d point", -p, -i[0], -i[1]);
    two!("2d point += point", with!(p, |t: &mut Point2i| *t += o), i[0] + i[2], i[1] + i[3]);
    two!("2d point += vector", with!(p, |t: &mut Point2i| *t += w), i[0] + i[2], i[1] + i[3]);
    two!("2d point -= vector", with!(p, |t: &mut Point2i| *t -= w), i[0] - i[2], i[1] - i[3]);
    two!("2d point += number", with!(p, |t: &mut Point2i| *t += s), i[0] + s, i[1] + s);
    two!("2d point -= number", with!(p, |t: &mut Point2i| *t -= s), i[0] - s, i[1] - s);
    two!("2d point *= number", with!(p, |t: &mut Point2i| *t *= s), i[0] * s, i[1] * s);
    two!("2d min", p.min(o), i[0].min(i[2]), i[1].min(i[3]));
    two!("2d max", p.max(o), i[0].max(i[2]), i[1].max(i[3]));
    q.exact("2d index", p[0] == i[0] && p[1] == i[1] && w[0] == i[2] && w[1] == i[3], &d);
    two!("2d index =", with!(p, |t: &mut Point2i| { t[1] = s; }), i[0], s);
    two!("2d index =", with!(p, |t: &mut Point2i| { t[0] = s; }), s, i[1]);
    let u = [i[0].unsigned_abs(), i[1].unsigned_abs()];
    two!("2d signed of unsigned", Point2i::from(Point2u::new(u[0], u[1])), u[0] as i32, u[1] as i32);
    two!("2d unsigned of signed", Point2u::from(Point2i::new(u[0] as i32, u[1] as i32)), u[0], u[1]);
    two!("2d float of signed", Point2f::from(p), i[0] as f32, i[1] as f32);
    two!("2d float of unsigned", Point2f::from(Point2u::new(u[0], u[1])), u[0] as f32, u[1] as f32);
    let f = [r.range(-100., 100.) as f32, if r.chance(0.3) { r.int(-9, 9) as f32 } else { r.range(-3., 3.) as f32 }];
    let pf = Point2f::new(f[0], f[1]);
    two!("2d floor", pf.floor(), f[0].floor(), f[1].floor());
    two!("2d ceil", pf.ceil(), f[0].ceil(), f[1].ceil());
    two!("2d whole part", Point2i::from(pf), f[0].trunc() as i32, f[1].trunc() as i32);
    two!("2d whole part of positive", Point2u::from(Point2f::new(f[0].abs(), f[1].abs())), f[0].abs() as u32, f[1].abs() as u32);
    let g = [num(r), num(r)];
    two!("2d float point + vector", pf + Vector2f::new(g[0], g[1]), f[0] + g[0], f[1] + g[1]);
    two!("2d float point - point", pf - Point2f::new(g[0], g[1]), f[0] - g[0], f[1] - g[1]);
    // boxes of pixels
    let b = BBox2i::new(p, o);
    two!("2d box lower corner", b.min, i[0].min(i[2]), i[1].min(i[3]));
    two!("2d box upper corner", b.max, i[0].max(i[2]), i[1].max(i[3]));
    let (dx, dy) = ((i[0] - i[2]).abs(), (i[1] - i[3]).abs());
    two!("2d box diagonal", b.diagonal(), dx, dy);
    if (dx as i64 * dy as i64) < 2_000_000_000 { q.exact("2d box area", b.area() == dx * dy, &d); }
    if (dx as i64 * dy as i64) < 12_000 {
        let l: Vec<(i32, i32)> = b.iter().take(13_000).map(|p| (p.x, p.y)).collect();
        let mut e = vec![]; for y in b.min.y..b.max.y { for x in b.min.x..b.max.x { e.push((x, y)); } }
        let rows = l == e;
        q.exact("2d box pixels", rows, &|| format!("{:?}: {} pixels", i, l.len()));
    }
    let bf = BBox2f::from(b);
    two!("2d box of floats", bf.min, b.min.x as f32, b.min.y as f32);
    two!("2d box of floats", bf.max, b.max.x as f32, b.max.y as f32);
    two!("2d box of whole parts", BBox2i::from(BBox2f::new(pf, Point2f::new(f[0] + 7.3, f[1] + 0.4))).max, (f[0] + 7.3).trunc() as i32, (f[1] + 0.4).trunc() as i32);
}

fn colours(q: &mut Q, r: &mut Rng) {
    let (a, b, s) = (nums(r), nums(r), num(r));
    let (u, w) = (Spectrum::new(a[0], a[1], a[2]), Spectrum::new(b[0], b[1], b[2]));
    let d = || format!("{:?} and {:?}", a, b);
    comp(q, "colour + colour", rgb!(u + w), a, b, |x, y| x + y, true);
    comp(q, "colour - colour", rgb!(u - w), a, b, |x, y| x - y, true);
    comp(q, "colour * colour", rgb!(u * w), a, b, |x, y| x * y, false);
    if b.iter().all(|x| *x != 0.) { comp(q, "colour / colour", rgb!(u / w), a, b, |x, y| x / y, false); let mut t = u; t /= w; comp(q, "colour /= colour", rgb!(t), a, b, |x, y| x / y, false); }
    let mut t = u; t += w; comp(q, "colour += colour", rgb!(t), a, b, |x, y| x + y, true);
    let mut t = u; t -= w; comp(q, "colour -= colour", rgb!(t), a, b, |x, y| x - y, true);
    let mut t = u; t *= w; comp(q, "colour *= colour", rgb!(t), a, b, |x, y| x * y, false);
    comp(q, "colour * number", rgb!(u * s), a, [s; 3], |x, y| x * y, false);
    comp(q, "colour + number", rgb!(u + s), a, [s; 3], |x, y| x + y, true);
    if s != 0. { comp(q, "colour / number", rgb!(u / s), a, [s; 3], |x, y| x / y, false); let mut t = u; t /= s; comp(q, "colour /= number", rgb!(t), a, [s; 3], |x, y| x / y, false); }
    let mut t = u; t *= s; comp(q, "colour *= number", rgb!(t), a, [s; 3], |x, y| x * y, false);
    index3!(q, r, Spectrum, rgb, "colour");
    q.exact("colour of number", rgb!(Spectrum::from(s)) == [s; 3], &|| format!("{}", s));
    // black in every subset of the channels
    let z = r.below(8); let mut k = a; for j in 0..3 { if z >> j & 1 == 0 { k[j] = if r.chance(0.5) { 0. } else { -0. }; } }
    q.exact("is_black", Spectrum::new(k[0], k[1], k[2]).is_black() == k.iter().all(|x| *x == 0.), &|| format!("{:?}", k));
    // luminance of sRGB primaries
    let y = 0.2126 * a[0] as f64 + 0.7152 * a[1] as f64 + 0.0722 * a[2] as f64;
    q.exact("luminance", (u.y() as f64 - y).abs() <= 2e-3 * mag(a), &|| format!("{:?}: {} instead of {}", a, u.y(), y));
    let p = a.map(|x| x.abs()); let sq = rgb!(Spectrum::new(p[0], p[1], p[2]).sqrt());
    for k in 0..3 { q.near("square root of colour", sq[k], (p[k] as f64).sqrt(), 0., &d); }
    let (lo, hi) = (s.min(b[0]), s.max(b[0]));
    let c = rgb!(u.clamp(lo, hi));
    for k in 0..3 { q.exact("clamped colour", c[k] == a[k].max(lo).min(hi), &|| format!("{:?} to {}..{}: {:?}", a, lo, hi, c)); }
}

fn boxes(q: &mut Q, r: &mut Rng) {
    let lat = r.chance(0.5);
    let mut pt = |r: &mut Rng| if lat { [r.int(-3, 3) as f32, r.int(-3, 3) as f32, r.int(-3, 3) as f32] } else { nums(r) };
    let (a, b, e, f, p) = (pt(r), pt(r), pt(r), pt(r), pt(r));
    let P = |a: [f32; 3]| Point3f::new(a[0], a[1], a[2]);
    let d = || format!("{:?} {:?} {:?} {:?} {:?}", a, b, e, f, p);
    let (x, y) = (BBox3f::new(P(a), P(b)), BBox3f::new(P(e), P(f)));
    let (mut lo, mut hi, mut lo2, mut hi2) = ([0f32; 3], [0f32; 3], [0f32; 3], [0f32; 3]);
    for k in 0..3 { lo[k] = a[k].min(b[k]); hi[k] = a[k].max(b[k]); lo2[k] = e[k].min(f[k]); hi2[k] = e[k].max(f[k]); }
    q.exact("box of corners", xyz!(x.min) == lo && xyz!(x.max) == hi, &d);
    let u = x.union(&y); let v = x.union_point(P(p));
    for k in 0..3 {
        q.exact("union of boxes", u.min[k] == lo[k].min(lo2[k]) && u.max[k] == hi[k].max(hi2[k]), &d);
        q.exact("union with point", v.min[k] == lo[k].min(p[k]) && v.max[k] == hi[k].max(p[k]), &d);
    }
    q.exact("overlaps", x.overlaps(&y) == (0..3).all(|k| lo[k] <= hi2[k] && lo2[k] <= hi[k]), &d);
    q.exact("overlaps", x.overlaps(&y) == y.overlaps(&x), &d);
    q.exact("point_inside", x.point_inside(P(p)) == (0..3).all(|k| lo[k] <= p[k] && p[k] <= hi[k]), &d);
    q.exact("point_inside", x.point_inside(P(a)) && x.point_inside(P(b)), &d);
    let s: Vec<f64> = (0..3).map(|k| hi[k] as f64 - lo[k] as f64).collect();
    let m = mag(lo).max(mag(hi));
    let dg = xyz!(x.diagonal());
    for k in 0..3 { q.near("box diagonal", dg[k], s[k], 0., &d); }
    q.near("surface area", x.surface_area(), 2. * (s[0] * s[1] + s[1] * s[2] + s[2] * s[0]), 0., &d);
    let l = s[x.max_extent() as usize];
    q.exact("max_extent", s.iter().all(|t| *t <= l * (1. + 1e-6)), &d);
    let (c, rad) = x.bounding_sphere();
    let half = s.iter().map(|t| t * t).sum::<f64>().sqrt() / 2.;
    if half > 1e-5 * m {
        for k in 0..3 { q.near("centre of bounding sphere", c[k], (lo[k] as f64 + hi[k] as f64) / 2., m, &d); }
        q.near("radius of bounding sphere", rad, half, 2. * m, &d);
    }
}

fn scalars(q: &mut Q, r: &mut Rng) {
    let (a, b, t) = (num(r), num(r), r.f32());
    let d = || format!("{} {} {}", a, b, t);
    q.near("lerp", lerp(t, a, b), (1. - t as f64) * a as f64 + t as f64 * b as f64, a.abs().max(b.abs()) as f64, &d);
    q.exact("lerp at the ends", lerp(0., a, b) == a && lerp(1., a, b) == b, &d);
    let (lo, hi, x) = (a.min(b), a.max(b), num(r));
    q.exact("clamp", clamp(x, lo, hi) == x.max(lo).min(hi), &|| format!("{} to {}..{}", x, lo, hi));
    q.exact("clamp of whole numbers", clamp(x as i32, lo as i32, hi as i32) == (x as i32).max(lo as i32).min(hi as i32), &|| format!("{} to {}..{}", x, lo, hi));
    let n = r.int(1, 200) as f32; let e = n as f64 * 2f64.powi(-24);
    q.exact("gamma", ((gamma(n) as f64) - e / (1. - e)).abs() < 1e-6 * e, &|| format!("{}", n));
    // neighbours among the floats, of any magnitude
    let x = match r.below(6) { 0 => 0., 1 => -0., 2 => f32::from_bits(r.u64() as u32 & 0x807f_ffff), 3 => num(r), 4 => 2f32.powi(r.int(-126, 126) as i32) * if r.chance(0.5) { 1. } else { -1. }, _ => { let x = f32::from_bits(r.u64() as u32); if x.is_finite() && x.abs() < f32::MAX { x } else { 1. } } };
    q.exact("next_float_up", next_float_up(x) == x.next_up(), &|| format!("{:e} ({:x}): {:e}", x, x.to_bits(), next_float_up(x)));
    q.exact("next_float_down", next_float_down(x) == x.next_down(), &|| format!("{:e} ({:x}): {:e}", x, x.to_bits(), next_float_down(x)));
    q.exact("next float after infinity", next_float_up(INFINITY) == INFINITY && next_float_down(-INFINITY) == -INFINITY, &|| String::new());
    // quadratics from their roots
    let (u, v, k) = (r.range(-10., 10.), r.range(-10., 10.), (r.range(0.01, 10.)) * if r.chance(0.5) { 1. } else { -1. });
    let (qa, qb, qc) = (k, -k * (u + v), k * u * v);
    let dq = || format!("roots {} and {}, factor {}", u, v, k);
    if (u - v).abs() > 1e-4 {
        match quadratic(qa, qb, qc) { None => q.exact("quadratic", false, &dq), Some((x, y)) => { let w = (u - v).abs(); q.exact("quadratic", (x - u.min(v)).abs() < 1e-10 / w + 1e-10 && (y - u.max(v)).abs() < 1e-10 / w + 1e-10, &|| format!("{}: {} {}", dq(), x, y)); } }
        let h = r.range(0.01, 5.);
        q.exact("quadratic without roots", quadratic(k, -2. * k * u, k * (u * u + h)).is_none(), &|| format!("({} x^2 - ...), centre {} height {}", k, u, h));
    }
    let (o1, o2) = (a, a);
    q.exact("same_addr", same_addr(&o1, &o1) && !same_addr(&o1, &o2), &|| String::new());
}

fn matrices(q: &mut Q, r: &mut Rng) {
    let mut m = |r: &mut Rng| { let mut m = [[0f32; 4]; 4]; for i in 0..4 { for j in 0..4 { m[i][j] = if r.chance(0.2) { 0. } else { r.rf(-3., 3.) }; } } m };
    let (a, b) = (m(r), m(r));
    let (x, y) = (Matrix::from(a), Matrix::from(b));
    let d = || format!("{:?} {:?}", a, b);
    let p = x * y;
    for i in 0..4 { for j in 0..4 {
        q.near("matrix product", p[i][j], (0..4).map(|k| a[i][k] as f64 * b[k][j] as f64).sum(), (0..4).map(|k| (a[i][k] as f64 * b[k][j] as f64).abs()).sum(), &d);
        q.exact("transpose", x.transpose()[i][j] == a[j][i], &d);
        q.near("matrix / number", (x / 3.)[i][j], a[i][j] as f64 / 3., 0., &d);
        q.exact("matrix index", x[i][j] == a[i][j], &d);
    } }
    let w = Matrix::new(a[0][0], a[0][1], a[0][2], a[0][3], a[1][0], a[1][1], a[1][2], a[1][3], a[2][0], a[2][1], a[2][2], a[2][3], a[3][0], a[3][1], a[3][2], a[3][3]);
    q.exact("matrix of elements", w == x, &d);
    // inverse by elimination in f64, where it is well conditioned
    let mut e = [[0f64; 8]; 4];
    for i in 0..4 { for j in 0..4 { e[i][j] = a[i][j] as f64; } e[i][4 + i] = 1.; }
    let mut det = 1f64;
    for c in 0..4 {
        let piv = (c..4).max_by(|i, j| e[*i][c].abs().total_cmp(&e[*j][c].abs())).unwrap();
        if e[piv][c].abs() < 1e-9 { return; }
        if piv != c { e.swap(piv, c); det = -det; }
        det *= e[c][c];
        let f = e[c][c]; for j in 0..8 { e[c][j] /= f; }
        for i in 0..4 { if i != c { let f = e[i][c]; for j in 0..8 { e[i][j] -= f * e[c][j]; } } }
    }
    let big = e.iter().flat_map(|r| r[4..].iter()).fold(0f64, |m, x| m.max(x.abs()));
    if big > 20. || det.abs() < 2. { return; }
    let v = x.inverse();
    for i in 0..4 { for j in 0..4 { q.near("matrix inverse", v[i][j], e[i][4 + j], 200. * big * (1. + 100. / det.abs()), &d); } }
    q.c.count("inverses");
}

fn main() {
    run("C37", "one evaluation: one round over every operation of vectors, points, normals, colours, boxes, matrices and scalars with random operands (zeros, signs, ties, magnitudes 1e-9 to 1e9); non-trivial: all",
        &["results within a few roundings of the f64 value; whole numbers exactly"],
        |ctx| {
            let n = ctx.n(600_000, 40_000_000);
            par(ctx, 1, n, |c, i| {
                let mut r = c.rng.clone();
                let mut q = Q { c, n: 0 };
                vectors(&mut q, &mut r); planar(&mut q, &mut r); colours(&mut q, &mut r); boxes(&mut q, &mut r); scalars(&mut q, &mut r); matrices(&mut q, &mut r);
                let k = q.n;
                c.add("results", k);
                c.eval(Some(hash(&[i])));
                if i == 0 { c.sample(|| "one round of operations".into()); }
            });
            ctx.require("results", 10_000_000);
            ctx.require("inverses", 10_000);
        });
}
