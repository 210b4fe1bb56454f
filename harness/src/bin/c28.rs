//! C28: textures by definition; materials over textures that vary from point to point.
use pt::verif::interaction::Interaction;
use pt::verif::material::Material;
use pt::verif::spectrum::Spectrum;
use pt::verif::texture::*;
use pt::verif::transform::Transform;
use pt::verif::vector::*;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::mats::*;
use std::f64::consts::PI;
use std::sync::{Arc, Mutex};

struct At2(f32, f32);
impl TextureMapping2D for At2 { fn map(&self, _: &Interaction) -> Point2f { Point2f::new(self.0, self.1) } }
struct At3(f32, f32, f32);
impl TextureMapping3D for At3 { fn map(&self, _: &Interaction) -> Point3f { Point3f::new(self.0, self.1, self.2) } }

/// Texture whose value at the true hit point differs from that anywhere else; records where it was asked.
type Asked = Arc<Mutex<Vec<([f32; 5], [f32; 3])>>>;
struct Spy<T> { here: T, elsewhere: T, asked: Asked, at: ([f32; 5], [f32; 3]) }
fn place(i: &Interaction) -> ([f32; 5], [f32; 3]) { ([i.p.x, i.p.y, i.p.z, i.uv.x, i.uv.y], [i.n.x, i.n.y, i.n.z]) }
impl<T: Copy + Sync + Send> Texture for Spy<T> {
    type Output = T;
    fn evaluate(&self, i: &Interaction) -> T { let p = place(i); self.asked.lock().unwrap().push(p); if p == self.at { self.here } else { self.elsewhere } }
}

fn coord(rng: &mut Rng) -> f32 {
    match rng.below(7) {
        0 => rng.int(-6, 6) as f32,
        1 => (rng.int(-40, 40) as f32) / 8.,
        2 => { let k = rng.int(-5, 5) as f32; if k == 0. { -1e-30 } else { f32::from_bits(if rng.chance(0.5) { k.to_bits() + 1 } else { k.to_bits() - 1 }) } }
        3 => rng.range(-1e6, 1e6) as f32,
        4 => *rng.pick(&[0., -0., -0.5, 0.5, -1., 1., -1e-20, 1e-20, 16777216., -16777215., 4e9, -5e9]),
        _ => rng.range(-4., 4.) as f32,
    }
}
fn even(c: &[f64]) -> bool { c.iter().map(|x| x.floor() as i128).sum::<i128>().rem_euclid(2) == 0 }

fn inter(rng: &mut Rng) -> Interaction {
    let mut i = Interaction::default();
    i.p = pt(rng, 10.).p(); i.uv = Point2f::new(rng.range(-3., 3.) as f32, rng.range(-3., 3.) as f32);
    i
}

fn textures(c: &mut Ctx, rng: &mut Rng) {
    let (a, b) = (rng.f32(), rng.f32() + 1.);
    let (sa, sb) = (Spectrum::new(rng.f32(), rng.f32(), rng.f32()), Spectrum::new(rng.f32() + 1., rng.f32(), rng.f32()));
    let i = inter(rng);
    // constant
    { let t = ConstantTexture::new(a); let s = ConstantTexture::new(sb);
      let (x, y) = (t.evaluate(&i), s.evaluate(&i));
      c.check(x == a && y.r == sb.r && y.g == sb.g && y.b == sb.b, "constant", || format!("constant texture of {} and {:?} has {} and {:?} at {:?}", a, sb, x, y, i.p)); c.count("constant"); }
    // boards over given coordinates
    { let (s, t, u) = (coord(rng), coord(rng), coord(rng));
      let e2 = even(&[s as f64, t as f64]);
      let x = CheckerboardTexture::new(At2(s, t), a, b).evaluate(&i);
      c.check(x == if e2 { a } else { b }, "board-2d", || format!("board of {} and {} at ({}, {}) has {}", a, b, s, t, x));
      let y = CheckerboardTexture::new(At2(s, t), sa, sb).evaluate(&i);
      c.check(sp(y) == sp(if e2 { sa } else { sb }), "board-2d", || format!("board of {:?} and {:?} at ({}, {}) has {:?}", sa, sb, s, t, y));
      let e3 = even(&[s as f64, t as f64, u as f64]);
      let z = Checkerboard3DTexture::new(At3(s, t, u), a, b).evaluate(&i);
      c.check(z == if e3 { a } else { b }, "board-3d", || format!("3D board of {} and {} at ({}, {}, {}) has {}", a, b, s, t, u, z));
      c.count(if e2 { "board_2d_first" } else { "board_2d_second" }); c.count(if e3 { "board_3d_first" } else { "board_3d_second" });
      if s < 0. || t < 0. { c.count("negative_coordinates"); }
      if s < 0. && t < 0. && u < 0. { c.count("all_negative"); }
      c.eval(Some(hash_f(&[s, t, u]))); }
    // UV mapping
    { let k = |rng: &mut Rng| -> f32 { match rng.below(3) { 0 => rng.int(-8, 8) as f32, 1 => rng.int(-16, 16) as f32 / 4., _ => rng.range(-20., 20.) as f32 } };
      let (su, sv, du, dv) = (k(rng), k(rng), k(rng), k(rng));
      let mut i = i.clone();
      if rng.chance(0.5) { i.uv = Point2f::new(rng.int(-8, 8) as f32 / 8., rng.int(-8, 8) as f32 / 8.); }
      let m = UVMapping2D::new(su, sv, du, dv);
      let q = m.map(&i);
      let w = [i.uv.x as f64 * su as f64 + du as f64, i.uv.y as f64 * sv as f64 + dv as f64];
      let tol = |u: f32, s: f32, d: f32| 2e-7 * ((u * s).abs() as f64 + d.abs() as f64);
      let ok = (q.x as f64 - w[0]).abs() <= tol(i.uv.x, su, du) && (q.y as f64 - w[1]).abs() <= tol(i.uv.y, sv, dv);
      c.check(ok, "uv-mapping", || format!("scale ({}, {}) shift ({}, {}) maps {:?} to {:?} instead of {:?}", su, sv, du, dv, i.uv, q, w));
      let sure = (0..2).all(|k| (w[k] - w[k].round()).abs() > 1e-4) || i.uv.x * 8. == (i.uv.x * 8.).round() && i.uv.y * 8. == (i.uv.y * 8.).round() && [su, sv, du, dv].iter().all(|x| x * 4. == (x * 4.).round());
      if sure { let x = CheckerboardTexture::new(m, a, b).evaluate(&i); c.check(x == if even(&w) { a } else { b }, "uv-board", || format!("board with scale ({}, {}) shift ({}, {}) at {:?} has {} of {} and {}", su, sv, du, dv, i.uv, x, a, b)); c.count("uv_boards"); }
      c.count("uv_mappings"); }
    // 3D mapping
    { let mut t = Transform::translate(0., 0., 0.);
      let mut ops: Vec<(usize, V)> = vec![];
      for _ in 0..rng.int(0, 3) {
          let k = rng.below(5);
          let p = match k { 0 => pt(rng, 20.), 1 => v(rng.range(0.2, 4.), rng.range(-4., -0.2), rng.range(0.2, 4.)), _ => v(rng.range(-400., 400.), 0., 0.) }.q();
          let s = match k { 0 => Transform::translate(p.x as f32, p.y as f32, p.z as f32), 1 => Transform::scale(p.x as f32, p.y as f32, p.z as f32), 2 => Transform::rotate_x(p.x as f32), 3 => Transform::rotate_y(p.x as f32), _ => Transform::rotate_z(p.x as f32) };
          t = s * t; // applied after what is there
          ops.push((k, p));
      }
      let mut q = i.p.to(); let mut mag = q.maxabs();
      for (k, p) in &ops {
          let (s, cc) = (p.x.to_radians().sin(), p.x.to_radians().cos());
          q = match k { 0 => q + *p, 1 => v(q.x * p.x, q.y * p.y, q.z * p.z), 2 => v(q.x, cc * q.y - s * q.z, s * q.y + cc * q.z), 3 => v(cc * q.x + s * q.z, q.y, -s * q.x + cc * q.z), _ => v(cc * q.x - s * q.y, s * q.x + cc * q.y, q.z) };
          mag = if *k == 1 { 4. * mag } else { mag }.max(q.maxabs()) + p.maxabs();
      }
      let m = IdentityMapping3D::new(t);
      let g = m.map(&i).to();
      c.check((g - q).maxabs() <= 3e-6 * (mag + 1.), "mapping-3d", || format!("transform {:?} maps {:?} to {:?} instead of {:?}", ops, i.p, g, q));
      if (0..3).all(|k| (q[k] - q[k].round()).abs() > 1e-3) { let x = Checkerboard3DTexture::new(m, a, b).evaluate(&i); c.check(x == if even(&[q.x, q.y, q.z]) { a } else { b }, "board-mapped-3d", || format!("3D board under {:?} at {:?} has {} of {} and {}", ops, i.p, x, a, b)); c.count("mapped_3d_boards"); }
      if ops.len() > 0 { c.count("transformed_3d_mappings"); } }
}

fn materials(c: &mut Ctx, rng: &mut Rng, idx: u64) {
    // the parameters at the hit point, and what the textures have elsewhere
    let kind = rng.below(8);
    let m = mat_kind(rng, kind, 0.05);
    let other = mat_kind(rng, if kind == 5 { 4 } else { kind }, 0.05);
    // parameters as textures deliver them: reflectances may be negative
    let mut neg = |rng: &mut Rng, s: S3| -> S3 { let mut r = s; for k in 0..3 { if rng.chance(0.15) { r[k] = -(rng.range(0.01, 3.) as f32 as f64); } else if rng.chance(0.06) { r[k] = rng.logu(1., 1e3) as f32 as f64; } } r };
    let raw = match m.clone() {
        Mat::Lambert { kd } => Mat::Lambert { kd: neg(rng, kd) }, Mat::Mirror { kr } => Mat::Mirror { kr: neg(rng, kr) },
        Mat::Plastic { kd, ks, rough } => Mat::Plastic { kd: neg(rng, kd), ks: neg(rng, ks), rough },
        Mat::Metal { r, eta, k, ru, rv } => Mat::Metal { r: neg(rng, r), eta, k, ru, rv },
        Mat::Glass { kr, kt, eta, ru, rv } => Mat::Glass { kr: neg(rng, kr), kt: neg(rng, kt), eta, ru, rv },
    };
    let pos = |s: S3| s.map(|x| x.max(0.));
    let m = match raw.clone() {
        Mat::Lambert { kd } => Mat::Lambert { kd: pos(kd) }, Mat::Mirror { kr } => Mat::Mirror { kr: pos(kr) },
        Mat::Plastic { kd, ks, rough } => Mat::Plastic { kd: pos(kd), ks: pos(ks), rough },
        Mat::Metal { r, eta, k, ru, rv } => Mat::Metal { r: pos(r), eta, k, ru, rv },
        Mat::Glass { kr, kt, eta, ru, rv } => Mat::Glass { kr: pos(kr), kt: pos(kt), eta, ru, rv },
    };
    let fr = Frame::flat(rng);
    let mut it = fr.interaction();
    it.p = pt(rng, 10.).p(); it.uv = Point2f::new(rng.f32(), rng.f32());
    let wo = wo_dir(rng, &fr, 0.1);
    it.wo = wo.v();
    let asked: Asked = Arc::new(Mutex::new(vec![]));
    let at = place(&it);
    let s = |h: S3, e: S3| -> Arc<Spy<Spectrum>> { Arc::new(Spy { here: spec(h), elsewhere: spec(e), asked: asked.clone(), at }) };
    let f = |h: f64, e: f64| -> Arc<Spy<f32>> { Arc::new(Spy { here: h as f32, elsewhere: e as f32, asked: asked.clone(), at }) };
    use pt::api::*;
    let mat: Arc<dyn Material> = match (&raw, &other) {
        (Mat::Lambert { kd }, Mat::Lambert { kd: x }) => Arc::new(LambertianReflectionMaterial::new(s(*kd, *x))),
        (Mat::Mirror { kr }, Mat::Mirror { kr: x }) => Arc::new(MirrorMaterial::new(s(*kr, *x))),
        (Mat::Plastic { kd, ks, rough }, Mat::Plastic { kd: a, ks: b, rough: r }) => Arc::new(PlasticMaterial::new(s(*kd, *a), s(*ks, *b), f(*rough, *r))),
        (Mat::Metal { r, eta, k, ru, rv }, Mat::Metal { r: a, eta: b, k: e, ru: g, rv: h }) => Arc::new(MetalMaterial::new(s(*r, *a), s(*eta, *b), s(*k, *e), f(*ru, *g), f(*rv, *h))),
        (Mat::Glass { kr, kt, eta, ru, rv }, Mat::Glass { kr: a, kt: b, eta: e, ru: g, rv: h }) => Arc::new(GlassMaterial::new(s(*kr, *a), s(*kt, *b), f(*eta, *e), f(*ru, *g), f(*rv, *h))),
        _ => return,
    };
    let desc = format!("{:?} at {:?} {:?}, {:?} elsewhere", raw, it.p, it.uv, other);
    c.guard(|| desc.clone(), |c| {
        let lobes = m.lobes();
        let b = mat.compute_scattering(&it);
        let twin = m.material().compute_scattering(&it);
        let a = asked.lock().unwrap().clone();
        for x in &a { c.check(*x == at, "asked-elsewhere", || format!("{}: a texture was evaluated at {:?}", desc, x)); }
        c.check(!a.is_empty(), "never-asked", || format!("{}: no texture was evaluated", desc));
        c.add("texture_evaluations", a.len() as u64);
        c.count(&format!("{}{}", m.name(), if lobes.iter().any(|l| l.specular()) { "_smooth" } else { "" }));
        if sp_any(&raw, |x| x > 1.) { c.count("reflectance_above_one"); }
        if sp_neg(&raw) { c.count("negative_reflectance"); }
        let nl = match &m { Mat::Plastic { .. } | Mat::Glass { .. } => 2, _ => 1 };
        if lobes.len() < nl { c.count("black_lobe"); }
        c.eval(Some(hash(&[idx, 2])));
        // values against the lobes
        for _ in 0..6 {
            let wi = { let k = rng.range(0.1, 1.) * if rng.chance(0.5) { 1. } else { -1. }; wdir(&fr, k, rng.range(0., 2. * PI)) };
            let g = b.f(wo.v(), wi.v());
            let (x, y) = (sp(g), sp(twin.f(wo.v(), wi.v())));
            c.check(x == y && b.pdf(wo.v(), wi.v()).to_bits() == twin.pdf(wo.v(), wi.v()).to_bits(), "differs-from-constant", || format!("{}: value {:?} towards {:?}, with constant textures {:?}", desc, x, wi, y));
            if let (Some(w), Some(tol)) = (ref_f(&lobes, &fr, wo, wi), rel_tol(&lobes, m.eta(), fr.local(wo), fr.local(wi))) {
                for k in 0..3 { c.check((x[k] - w[k]).abs() <= tol * max3(w) + 1e-9, "value", || format!("{}: value {:?} from {:?} towards {:?}, by definition {:?}", desc, x, wo, wi, w)); }
                if max3(w) > 0. { c.count("values"); }
            }
            // lobes that are not there take no part in sampling
            let (o, i) = (fr.local(wo), fr.local(wi));
            if !(lobes.is_empty() && matches!(m, Mat::Metal { .. })) {
                let w: f64 = lobes.iter().map(|l| match l { Lobe::Diff(_) => if o.z * i.z > 0. { i.z.abs() / PI } else { 0. }, l if l.specular() || l.transmits() == (o.z * i.z > 0.) => 0., l => lobe_density(l, o, i) }).sum::<f64>() / lobes.len().max(1) as f64;
                let p = b.pdf(wo.v(), wi.v()) as f64;
                if let Some(tol) = rel_tol(&lobes, m.eta(), o, i) { c.check((p - w).abs() <= 3. * tol * w + 1e-5, "density", || format!("{}: density {} from {:?} towards {:?}, by definition {}", desc, p, wo, wi, w)); c.count("densities"); }
            }
        }
        for _ in 0..6 {
            let u = Point2f::new(rng.f32(), rng.f32());
            let (x, y) = (b.sample_f(wo.v(), u), twin.sample_f(wo.v(), u));
            let same = |a: f32, b: f32| a.to_bits() == b.to_bits();
            c.check(sp(x.1) == sp(y.1) && same(x.2, y.2) && x.3 == y.3 && (x.2 == 0. || (same(x.0.x, y.0.x) && same(x.0.y, y.0.y) && same(x.0.z, y.0.z))), "sample-differs", || format!("{}: sample {:?} yields {:?} {:?} {}, with constant textures {:?} {:?} {}", desc, u, x.0, x.1, x.2, y.0, y.1, y.2));
            if lobes.is_empty() && !matches!(m, Mat::Metal { .. }) { c.check(x.2 == 0. || max3(sp(x.1)) == 0., "black-scatters", || format!("{}: sampled {:?} density {}", desc, x.1, x.2)); }
            if lobes.len() == 1 && lobes[0].specular() && x.2 > 0. { c.check(x.2 == 1., "lone-mirror", || format!("{}: a lone smooth lobe is sampled with probability {}", desc, x.2)); c.count("lone_smooth_lobes"); }
            if lobes.len() == 2 && lobes[1].specular() && is_spec(x.3) && x.2 > 0. { c.check(x.2 == 0.5, "mirror-among-two", || format!("{}: a smooth lobe among two is sampled with probability {}", desc, x.2)); }
        }
        if idx < 40 { c.sample(|| desc.clone()); }
    });
}
fn sp_neg(m: &Mat) -> bool { sp_any(m, |x| x < 0.) }
fn sp_any(m: &Mat, t: fn(f64) -> bool) -> bool {
    let n = |s: &S3| s.iter().any(|x| t(*x));
    match m { Mat::Lambert { kd } => n(kd), Mat::Mirror { kr } => n(kr), Mat::Plastic { kd, ks, .. } => n(kd) || n(ks), Mat::Metal { r, .. } => n(r), Mat::Glass { kr, kt, .. } => n(kr) || n(kt) }
}

fn main() {
    run("C28", "one evaluation: a texture at one coordinate, or one material over textures that have other values everywhere but at the hit point; distinct = different (coordinates) or (material, point)", &["checkerboard coordinates below 9e18"], |ctx| {
        let n = ctx.n(2000000, 12000000);
        par(ctx, 1, n, |c, i| {
            let mut rng = c.rng.clone();
            if i % 2 == 0 { c.guard(|| format!("textures case {}", i), |c| textures(c, &mut rng)); } else { materials(c, &mut rng, i); }
        });
        for (k, m) in [("constant", 10000), ("reflectance_above_one", 500), ("board_2d_first", 5000), ("board_2d_second", 5000), ("board_3d_first", 5000), ("board_3d_second", 5000), ("all_negative", 500), ("uv_boards", 5000), ("mapped_3d_boards", 5000), ("transformed_3d_mappings", 5000), ("negative_reflectance", 3000), ("black_lobe", 500), ("values", 5000), ("densities", 5000), ("lone_smooth_lobes", 500), ("glass", 500), ("glass_smooth", 500), ("metal", 500), ("metal_smooth", 500), ("plastic", 500), ("plastic_smooth", 500), ("mirror_smooth", 500), ("lambert", 500)] { ctx.require(k, m); }
    });
}
