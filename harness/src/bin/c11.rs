//! C11: film accumulation against a per-sample interval reference.
use pt::verif::bbox::BBox2i;
use pt::verif::film::Film;
use pt::verif::filter::{Filter, GaussianFilter};
use pt::verif::spectrum::Spectrum;
use pt::verif::vector::{Point2f, Point2u};
use ptmon::fw::*;
use std::sync::{Barrier, Mutex};

#[derive(Clone)]
struct Odd { r: f32, salt: u64, tabsize: f64 }
impl Filter for Odd {
    fn radius(&self) -> f32 { self.r }
    fn evaluate(&self, p: Point2f) -> f32 {
        // piecewise constant over a 48x48 lattice of the quadrant: asymmetric, never zero, tells x from y
        let q = |v: f32| ((v as f64 / self.r.max(1e-9) as f64) * 48.).floor() as i64 as u64;
        0.25 + (hash(&[self.salt, q(p.x), q(p.y) + 1000]) % 1000) as f32 / 400.
    }
}

#[derive(Clone, Copy)]
struct S { x: f32, y: f32, c: [f32; 3] }

/// candidate table indices for offset d (>= 0) on one axis; empty when excluded. bool: certain inclusion
fn cands(d: f64, r: f64, tol: f64) -> (Vec<usize>, bool) {
    if d > r + tol { return (vec![], true); }
    let sure = d <= r - tol || tol == 0.;
    if r == 0. { return (vec![0], sure); }
    let a = (d - tol) / r * 16.;
    let b = (d + tol) / r * 16.;
    // in exact mode the quotient may still round across an integer when r is not a power of two
    let (a, b) = if tol == 0. && (r.log2().fract() != 0.) { (a * (1. - 1e-6), b * (1. + 1e-6)) } else { (a, b) };
    let lo = a.floor().max(0.) as usize;
    let hi = b.floor().max(0.) as usize;
    ((lo.min(15)..=hi.min(15)).collect(), sure)
}

fn case(ctx: &mut Ctx, idx: u64) {
    let exact = ctx.rng.chance(0.4);
    let radii = [0.5f32, 1., 2., 4., 0.25, 8.];
    let r: f32 = if exact { *ctx.rng.pick(&radii) } else { match ctx.rng.below(5) { 0 => ctx.rng.rf(0.05, 0.6), 1 => ctx.rng.rf(0.5, 2.5), 2 => ctx.rng.rf(2., 9.), 3 => ctx.rng.int(1, 6) as f32 * 0.5, _ => ctx.rng.rf(15., 40.) } };
    let big = ctx.rng.chance(0.15);
    let (w, h) = if big { (ctx.rng.int(40, 70) as u32, ctx.rng.int(20, 50) as u32) } else { (ctx.rng.int(1, 24) as u32, ctx.rng.int(1, 24) as u32) };
    let odd = Odd { r, salt: ctx.rng.u64(), tabsize: 16. };
    let alpha = ctx.rng.rf(0., 3.);
    let gauss = ctx.rng.chance(0.35);
    let mk = || if gauss { Film::new(Point2u::new(w, h), GaussianFilter::new(r, alpha)) } else { Film::new(Point2u::new(w, h), odd.clone()) };
    // reference table straight from the filter
    let table: Vec<Vec<f64>> = (0..16).map(|y| (0..16).map(|x| {
        let (px, py) = ((x as f64 + 0.5) * r as f64 / 16., (y as f64 + 0.5) * r as f64 / 16.);
        if gauss {
            let g = |d: f64| ((-(alpha as f64) * d * d).exp() - (-(alpha as f64) * (r as f64).powi(2)).exp()).max(0.);
            g(px) * g(py)
        } else { odd.evaluate(Point2f::new(px as f32, py as f32)) as f64 }
    }).collect()).collect();
    let film = mk();
    let sb = film.sample_bbox();
    let (sx, sy) = (sb.max.x - sb.min.x, sb.max.y - sb.min.y);
    if sx <= 0 || sy <= 0 { ctx.count("empty_area"); return; }
    let n = match ctx.rng.below(4) { 0 => 1, 1 => 5, 2 => 60, _ => 300 };
    let mut samples: Vec<S> = vec![];
    for k in 0..n {
        let px = sb.min.x + ctx.rng.below(sx as usize) as i32;
        let py = sb.min.y + ctx.rng.below(sy as usize) as i32;
        let u = |rng: &mut Rng| -> f32 { if exact { rng.below(64) as f32 / 64. } else { match rng.below(12) { 0 => 0., 1 => 1. - f32::EPSILON, 2 => 0.5, _ => rng.f32() } } };
        let x = px as f32 + u(&mut ctx.rng);
        let y = py as f32 + u(&mut ctx.rng);
        // distinct colours make misattribution visible
        let c = [(1 + k % 97) as f32, ctx.rng.rf(0.1, 2.), if ctx.rng.chance(0.3) { 0. } else { 1000. * ctx.rng.f32() }];
        samples.push(S { x, y, c });
    }
    // reference bounds
    let np = (w * h) as usize;
    let (mut lo, mut hi) = (vec![[0f64; 4]; np], vec![[0f64; 4]; np]);
    let mut contributions = 0u64;
    for s in &samples {
        let tol = if exact { 0. } else { 4e-7 * (s.x.abs().max(s.y.abs()) as f64 + r as f64 + 1.) };
        let (bx, by) = (s.x as f64 - 0.5, s.y as f64 - 0.5);
        let rr = r as f64;
        for py in ((by - rr - 1.).floor().max(0.) as i64)..=((by + rr + 1.).ceil().min(h as f64 - 1.) as i64) {
            let (cy, sy) = cands((py as f64 - by).abs(), rr, tol);
            if cy.is_empty() { continue; }
            for px in ((bx - rr - 1.).floor().max(0.) as i64)..=((bx + rr + 1.).ceil().min(w as f64 - 1.) as i64) {
                let (cx, sx) = cands((px as f64 - bx).abs(), rr, tol);
                if cx.is_empty() { continue; }
                let mut wl = f64::INFINITY; let mut wh = 0f64;
                for &iy in &cy { for &ix in &cx { let t = table[iy][ix]; wl = wl.min(t); wh = wh.max(t); } }
                if !(sx && sy) { wl = 0.; }
                contributions += 1;
                let o = (py * w as i64 + px) as usize;
                for i in 0..3 { lo[o][i] += s.c[i] as f64 * wl; hi[o][i] += s.c[i] as f64 * wh; }
                lo[o][3] += wl; hi[o][3] += wh;
            }
        }
    }
    ctx.add("samples", n as u64);
    ctx.add("contributions", contributions);
    if exact { ctx.count("cases_exact_lattice"); }
    let desc = format!("case {} film {}x{} radius {} {} n={} exact={}", idx, w, h, r, if gauss { "gauss" } else { "asymmetric" }, n, exact);
    ctx.sample(|| desc.clone());
    // several ways of splitting and merging
    for mode in 0..4 {
        let film = mk();
        let mut tiles: Vec<(BBox2i, Vec<S>)> = vec![];
        let mut assigned = vec![false; samples.len()];
        match mode {
            0 | 1 | 3 => {
                let mut guard = 0;
                for t in film.iter() {
                    guard += 1;
                    if guard > 10000 { ctx.violate("tiles-unbounded", desc.clone()); return; }
                    let mut v = vec![];
                    for (k, s) in samples.iter().enumerate() {
                        // the pixel a sample was drawn for; rounding may put it onto the next integer
                        let inside = |p: f32, a: i32, b: i32| p >= a as f32 && p <= b as f32;
                        if !assigned[k] && inside(s.x, t.min.x, t.max.x) && inside(s.y, t.min.y, t.max.y) { assigned[k] = true; v.push(*s); }
                    }
                    tiles.push((BBox2i::new(t.min, t.max), v));
                }
            }
            _ => {
                // one tile over the whole sampled area
                tiles.push((film.sample_bbox(), samples.clone()));
                assigned = vec![true; samples.len()];
            }
        }
        if assigned.iter().any(|a| !a) { ctx.violate("sample-without-tile", format!("{}: a sample of the sampled area lies in no tile", desc)); return; }
        if mode == 1 { tiles.reverse(); }
        if mode == 3 {
            // random split: every tile's samples go to two tile buffers over the same box
            let mut more = vec![];
            for (b, v) in tiles.into_iter() {
                let (a, c): (Vec<S>, Vec<S>) = v.into_iter().partition(|_| ctx.rng.chance(0.5));
                more.push((b, a)); more.push((b, c));
            }
            for i in (1..more.len()).rev() { let j = ctx.rng.below(i + 1); more.swap(i, j); }
            tiles = more;
        }
        let conc = mode == 1 || mode == 3;
        if conc && tiles.len() > 1 {
            let nt = ctx.rng.int(2, 8) as usize;
            let q = Mutex::new(tiles);
            let bar = Barrier::new(nt);
            let merged = std::sync::atomic::AtomicU64::new(0);
            std::thread::scope(|sc| for _ in 0..nt { sc.spawn(|| {
                bar.wait();
                loop {
                    let t = q.lock().unwrap().pop();
                    let (b, v) = match t { Some(t) => t, None => break };
                    let mut tile = film.get_film_tile(b);
                    for s in &v { tile.add_sample(Point2f::new(s.x, s.y), Spectrum::new(s.c[0], s.c[1], s.c[2])); }
                    film.merge_film_tile(tile);
                    merged.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            }); });
            ctx.add("tiles_merged_concurrently", merged.load(std::sync::atomic::Ordering::Relaxed));
        } else {
            for (b, v) in &tiles {
                let mut tile = film.get_film_tile(*b);
                for s in v { tile.add_sample(Point2f::new(s.x, s.y), Spectrum::new(s.c[0], s.c[1], s.c[2])); }
                film.merge_film_tile(tile);
                ctx.count("tiles_merged");
            }
        }
        let px = film.verif_pixels();
        if px.len() != np { ctx.violate("pixel-count", format!("{}: {} pixels", desc, px.len())); return; }
        for (o, (c, ws)) in px.iter().enumerate() {
            let got = [c[0] as f64, c[1] as f64, c[2] as f64, *ws as f64];
            for i in 0..4 {
                let t = 2e-5 * hi[o][i] + 1e-6;
                if !(got[i] >= lo[o][i] - t && got[i] <= hi[o][i] + t) {
                    ctx.violate("pixel-sum", format!("{} mode {}: pixel ({},{}) channel {} = {} expected {}..{}", desc, mode, o % w as usize, o / w as usize, i, got[i], lo[o][i], hi[o][i]));
                    return;
                }
                if hi[o][i] - lo[o][i] > 1e-3 * hi[o][i] { ctx.count("pixels_with_undecided_boundary"); } else { ctx.count("pixel_channels_decided"); }
            }
        }
        ctx.eval(if contributions > 0 { Some(hash(&[idx, mode])) } else { None });
    }
}

fn main() {
    run("C11", "random film size, filter (Gaussian or asymmetric lookup), radius and samples (generic, pixel-boundary and dyadic-lattice positions); each case is accumulated 4 ways (row order, reversed concurrent, one tile, random split with random concurrent merge order) and every pixel's sums are bounded by the reference; non-trivial: at least one contribution",
        &["film state is read through the pt_verif_film hook", "an offset within 4e-7 relative of the radius or of a table step may count either way, except on dyadic lattices where arithmetic is exact"],
        |ctx| {
            let n = ctx.n(6000, 150000);
            par(ctx, 1, n, |c, i| case(c, i));
            ctx.require("contributions", 100000);
            ctx.require("tiles_merged_concurrently", 2000);
            ctx.require("cases_exact_lattice", 200);
        });
}
