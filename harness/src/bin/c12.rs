//! C12: tiles partition the sampled area; the sampled area is the integer hull of the filter supports.
use pt::verif::film::Film;
use pt::verif::filter::{Filter, GaussianFilter};
use pt::verif::vector::{Point2f, Point2u};
use ptmon::fw::*;

struct Flat(f32);
impl Filter for Flat { fn radius(&self) -> f32 { self.0 } fn evaluate(&self, _: Point2f) -> f32 { 1. } }

fn bounds(lo: bool, v: f64) -> (i64, i64) {
    // integer hull bound of v, both answers allowed when f32 rounding of v may cross an integer
    let tol = if (v * 1024.).fract() == 0. { 0. } else { 3e-7 * (v.abs() + 1.) };
    if lo { ((v - tol).floor() as i64, (v + tol).floor() as i64) } else { ((v - tol).ceil() as i64, (v + tol).ceil() as i64) }
}

fn case(ctx: &mut Ctx, w: u32, h: u32, r: f32, gauss: bool) {
    let desc = format!("film {}x{} radius {}", w, h, r);
    ctx.sample(|| desc.clone());
    let film = if gauss { Film::new(Point2u::new(w, h), GaussianFilter::new(r, 1.)) } else { Film::new(Point2u::new(w, h), Flat(r)) };
    let sb = film.sample_bbox();
    let got = [sb.min.x as i64, sb.min.y as i64, sb.max.x as i64, sb.max.y as i64];
    if w > 0 && h > 0 {
        for (i, &g) in got.iter().enumerate() {
            let n = if i % 2 == 0 { w } else { h };
            let (a, b) = if i < 2 { bounds(true, 0.5 - r as f64) } else { bounds(false, n as f64 - 0.5 + r as f64) };
            if g < a.min(b) || g > a.max(b) {
                ctx.violate("sample-area", format!("{}: sampled area {:?}, bound {} should be {}..{}", desc, got, i, a, b));
                return;
            }
        }
    } else if r == 0. && (sb.max.x - sb.min.x) as i64 * (sb.max.y - sb.min.y) as i64 != 0 {
        ctx.violate("sample-area-empty", format!("{}: empty film, zero radius, sampled area {:?}", desc, got));
        return;
    }
    let (sx, sy) = ((sb.max.x - sb.min.x).max(0) as usize, (sb.max.y - sb.min.y).max(0) as usize);
    let mut seen = vec![0u8; sx * sy];
    let mut tiles = 0u64;
    let limit = (sx as u64 * sy as u64) + 16;
    for t in film.iter() {
        tiles += 1;
        let (tw, th) = (t.max.x as i64 - t.min.x as i64, t.max.y as i64 - t.min.y as i64);
        if tw <= 0 || th <= 0 { ctx.violate("tile-empty", format!("{}: empty tile {:?}..{:?}", desc, t.min, t.max)); return; }
        if tw > 16 || th > 16 { ctx.violate("tile-too-large", format!("{}: tile {:?}..{:?}", desc, t.min, t.max)); return; }
        if t.min.x < sb.min.x || t.min.y < sb.min.y || t.max.x > sb.max.x || t.max.y > sb.max.y { ctx.violate("tile-outside", format!("{}: tile {:?}..{:?} outside {:?}", desc, t.min, t.max, got)); return; }
        let mut n = 0i64;
        for p in t.iter() {
            n += 1;
            if n > 256 || p.x < t.min.x || p.y < t.min.y || p.x >= t.max.x || p.y >= t.max.y { ctx.violate("pixel-outside-tile", format!("{}: pixel {:?} iterated in tile {:?}..{:?}", desc, p, t.min, t.max)); return; }
            let o = (p.y - sb.min.y) as usize * sx + (p.x - sb.min.x) as usize;
            if seen[o] != 0 { ctx.violate("pixel-twice", format!("{}: pixel {:?} handed out twice", desc, p)); return; }
            seen[o] = 1;
        }
        if n != tw * th { ctx.violate("tile-pixels", format!("{}: tile {:?}..{:?} iterates {} pixels", desc, t.min, t.max, n)); return; }
        if tiles > limit { ctx.violate("tiles-unbounded", desc.clone()); return; }
    }
    if let Some(o) = seen.iter().position(|x| *x == 0) {
        ctx.violate("pixel-missing", format!("{}: sampled pixel ({},{}) is in no tile", desc, sb.min.x as i64 + (o % sx) as i64, sb.min.y as i64 + (o / sx) as i64));
        return;
    }
    ctx.add("tiles", tiles);
    ctx.add("pixels", (sx * sy) as u64);
    let k = hash(&[w as u64, h as u64, r.to_bits() as u64]);
    ctx.eval(if tiles > 1 { Some(k) } else { None });
}

fn main() {
    run("C12", "every resolution 0..=40 x 0..=40 with radii 0, 0.25, 0.5, 0.75, 1, 2, 3.3 plus random and large resolutions and radii; non-trivial: more than one tile",
        &["a sampled-area bound may be either integer when 0.5-r or n-0.5+r is within f32 rounding of an integer"],
        |ctx| {
            let radii = [0f32, 0.25, 0.5, 0.75, 1., 2., 3.3];
            par(ctx, 1, 41, |c, w| for h in 0..=40u32 { for &r in &radii { case(c, w as u32, h, r, h % 2 == 0); if c.stop() { return; } } });
            let n = ctx.n(20000, 60000);
            par(ctx, 2, n, |c, i| {
                let big = i % 50 == 0;
                let m = if big { 3000 } else { 300 };
                let (w, h) = (c.rng.int(1, m) as u32, c.rng.int(1, if big { 800 } else { m }) as u32);
                let r = match c.rng.below(4) { 0 => c.rng.rf(0., 1.), 1 => c.rng.rf(1., 5.), 2 => c.rng.rf(5., 60.), _ => c.rng.int(0, 12) as f32 / 4. };
                case(c, w, h, r, c.rng.clone().chance(0.5));
            });
            // very wide and very tall films: more than 2^16 (and 2^20) columns, rows and tiles
            let mut long = Vec::new();
            for &k in &[65535u32, 65536, 65537, 70001, 131072, 200003, 1048575, 1048576, 1048577, 1300001, 2097153] {
                for &h in &[1u32, 2, 17] { if (k as u64) * (h as u64) < 6_000_000 { long.push((k, h)); long.push((h, k)); } }
            }
            long.push((4200, 4100)); long.push((1500, 12000));
            let nl = ctx.n(long.len() as u64, 3 * long.len() as u64);
            par(ctx, 3, nl, |c, i| {
                let (w, h) = long[i as usize % long.len()];
                let r = if i % 2 == 0 { 0.5 } else { c.rng.int(0, 12) as f32 / 4. };
                case(c, w, h, r, i % 3 == 0);
                c.add("long_films", 1);
            });
            ctx.require("long_films", 50);
            ctx.require("tiles", 50000);
        });
}
