//! C36: the kd-tree saves the work it exists to save. Shapes count how often they are tested; an allocator counts what
//! the tree takes. Reference: the shapes whose box the ray meets before its first hit.
use pt::verif::bbox::BBox3f;
use pt::verif::container::Container;
use pt::verif::container_kdtree::KdTree;
use pt::verif::interaction::Interaction;
use pt::verif::material::Material;
use pt::verif::ray::Ray;
use pt::verif::shape::Shape;
use pt::verif::vector::Point2f;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Arc;

thread_local! {
    static TESTS: Cell<u64> = const { Cell::new(0) };
    static BOXES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
fn took(n: i64) { let _ = LIVE.try_with(|l| { l.set(l.get() + n); let _ = PEAK.try_with(|p| if l.get() > p.get() { p.set(l.get()) }); }); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { took(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { took(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { took(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { took(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

struct Counted { inner: Arc<dyn Shape> }
fn tick(c: &'static std::thread::LocalKey<Cell<u64>>) { c.with(|t| t.set(t.get() + 1)) }
impl Shape for Counted {
    fn bbox(&self) -> BBox3f { tick(&BOXES); self.inner.bbox() }
    fn area(&self) -> f32 { self.inner.area() }
    fn intersect_p(&self, r: &Ray) -> bool { tick(&TESTS); self.inner.intersect_p(r) }
    fn intersect(&self, r: &Ray) -> Option<(Interaction, f32)> { tick(&TESTS); self.inner.intersect(r) }
    fn material(&self) -> Arc<dyn Material> { self.inner.material() }
    fn sample(&self, s: Point2f) -> Interaction { self.inner.sample(s) }
}

/// where the ray enters the box, if it does before t
fn enters(lo: V, hi: V, o: V, d: V, t: f64) -> bool {
    let (mut a, mut b) = (0f64, t);
    for k in 0..3 {
        if d[k] == 0. { if o[k] < lo[k] || o[k] > hi[k] { return false; } continue; }
        let (x, y) = ((lo[k] - o[k]) / d[k], (hi[k] - o[k]) / d[k]);
        a = a.max(x.min(y)); b = b.min(x.max(y));
    }
    a <= b
}

pub const KINDS: [&str; 13] = ["scattered", "height_field", "ball_mesh", "clusters", "lattice", "row", "stadium", "plane", "mixed", "stack", "slivers", "overlapping", "large"];
fn world(rng: &mut Rng, kind: usize, n: usize) -> Vec<Geo> {
    let mut g = vec![];
    match kind {
        0 => { let s = 10.; let r = s * 0.7 / (n as f64).cbrt(); for _ in 0..n { let c = pt(rng, s); let k = rng.logu(0.1, 1.) * r; g.push(if rng.chance(0.5) { Geo::sph(c, k) } else { rand_tri(rng, c, k) }); } }
        1 => { let m = ((n as f64 / 2.).sqrt() as usize).max(2); let ax = rng.below(3); let rough = rng.logu(0.01, 1.5);
            let h: Vec<f64> = (0..(m + 1) * (m + 1)).map(|_| rng.range(-rough, rough)).collect();
            let f = |i: usize, j: usize| { let mut q = v(0., 0., 0.); q[ax] = h[i * (m + 1) + j]; q[(ax + 1) % 3] = i as f64; q[(ax + 2) % 3] = j as f64; q };
            for i in 0..m { for j in 0..m { g.push(Geo::tri([f(i, j), f(i + 1, j), f(i + 1, j + 1)])); g.push(Geo::tri([f(i, j), f(i + 1, j + 1), f(i, j + 1)])); } } }
        2 => { let m = ((n as f64 / 4.).sqrt() as usize).max(3); let c = pt(rng, 3.); let r = rng.logu(0.1, 10.);
            let f = |i: usize, j: usize| { let (a, b) = (std::f64::consts::PI * (0.05 + 0.9 * i as f64 / m as f64), std::f64::consts::PI * (j % (2 * m)) as f64 / m as f64); c + v(a.sin() * b.cos(), a.sin() * b.sin(), a.cos()) * r };
            for i in 0..m { for j in 0..2 * m { g.push(Geo::tri([f(i, j), f(i + 1, j), f(i + 1, j + 1)])); g.push(Geo::tri([f(i, j), f(i + 1, j + 1), f(i, j + 1)])); } } }
        3 => { let cl = 2 + rng.below(6); let cs: Vec<(V, f64)> = (0..cl).map(|_| (pt(rng, 50.), rng.logu(0.05, 5.))).collect();
            for k in 0..n { let (c, s) = cs[k % cl]; let r = s * 0.7 / (n as f64 / cl as f64).cbrt(); let q = c + pt(rng, s); g.push(if rng.chance(0.3) { Geo::sph(q, r * 0.5) } else { rand_tri(rng, q, r) }); } }
        4 => { let m = (n as f64).cbrt().ceil() as i64; for i in 0..m { for j in 0..m { for k in 0..m { if g.len() < n { g.push(Geo::sph(v(i as f64, j as f64, k as f64), 0.25)); } } } } }
        5 => { let ax = rng.below(3); for k in 0..n { let mut c = pt(rng, 0.5); c[ax] = k as f64; g.push(if k % 2 == 0 { Geo::sph(c, 0.3) } else { rand_tri(rng, c, 0.3) }); } }
        6 => { for t in cube(v(-100., -100., -100.), v(100., 100., 100.)) { g.push(t); } let c = pt(rng, 60.); while g.len() < n { let d = pt(rng, 1.); g.push(rand_tri(rng, c + d, 0.7 / (n as f64).cbrt())); } }
        7 => { let ax = rng.below(3); let m = ((n as f64 / 2.).sqrt() as i64).max(2); for i in 0..m { for j in 0..m { g.extend(quad(ax, 2., (i as f64, j as f64), (i as f64 + 1., j as f64 + 1.))); } } }
        9 => { let ax = rng.below(3); for k in 0..n / 2 { g.extend(quad(ax, k as f64, (-40., -40.), (40., 40.))); } }
        10 => g = huge(rng, 4, n),
        11 => g = huge(rng, 2, n),
        12 => for _ in 0..n { let c = pt(rng, 5.); g.push(rand_tri(rng, c, 8.)); },
        _ => { for _ in 0..n { let s = 10.; let c = pt(rng, s); let r = rng.logu(0.02, 2.) / (n as f64 / 100.).cbrt().max(1.); g.push(if rng.chance(0.4) { Geo::sph(c, r) } else { rand_tri(rng, c, r) }); } }
    }
    // placement
    let s = 2f64.powi(rng.int(-8, 8) as i32);
    let o = if rng.chance(0.5) { v(0., 0., 0.) } else { pt(rng, 30. * s) };
    g.into_iter().map(|x| match x { Geo::Tri { p, .. } => Geo::tri([p[0] * s + o, p[1] * s + o, p[2] * s + o]), Geo::Sph { c, r } => Geo::sph(c * s + o, r * s) }).collect()
}

/// Yardstick: a plain hierarchy of boxes split at the median, at most eight shapes in a leaf. Counts the shapes of the
/// leaves whose box the ray enters before its first hit.
struct Plain { lo: V, hi: V, n: u64, kids: Option<Box<(Plain, Plain)>> }
impl Plain {
    fn new(b: &mut [(V, V)]) -> Plain {
        let (lo, hi) = (b.iter().map(|x| x.0).reduce(vmin).unwrap(), b.iter().map(|x| x.1).reduce(vmax).unwrap());
        let n = b.len();
        if n <= 8 { return Plain { lo, hi, n: n as u64, kids: None }; }
        let e = hi - lo;
        let k = (0..3).max_by(|i, j| e[*i].total_cmp(&e[*j])).unwrap();
        b.sort_by(|x, y| (x.0[k] + x.1[k]).total_cmp(&(y.0[k] + y.1[k])));
        let (l, r) = b.split_at_mut(n / 2);
        Plain { lo, hi, n: n as u64, kids: Some(Box::new((Plain::new(l), Plain::new(r)))) }
    }
    fn tests(&self, o: V, d: V, far: f64) -> u64 {
        if !enters(self.lo, self.hi, o, d, far) { return 0; }
        match &self.kids { None => self.n, Some(k) => k.0.tests(o, d, far) + k.1.tests(o, d, far) }
    }
}

fn case(c: &mut Ctx, i: u64) {
    let mut rng = c.rng.clone();
    let rng = &mut rng;
    let kind = (i % 13) as usize;
    let n = rng.logu(60., c.n(6000, 40000) as f64) as usize;
    let n = if kind == 5 { n.min(1500) } else { n };
    let mut g = world(rng, kind, n);
    for k in (1..g.len()).rev() { g.swap(k, rng.below(k + 1)); }
    let n = g.len();
    let desc = format!("{} shapes, {}", n, KINDS[kind]);
    if i < 4 { c.sample(|| desc.clone()); }
    let shapes: Vec<Arc<dyn Shape>> = g.iter().map(|x| Arc::new(Counted { inner: x.shape() }) as Arc<dyn Shape>).collect();
    let (b0, l0) = (BOXES.with(|b| b.get()), LIVE.with(|l| l.get()));
    PEAK.with(|p| p.set(l0));
    let boxed = shapes.clone().into_boxed_slice();
    let tree = KdTree::new(boxed, None);
    let boxes = BOXES.with(|b| b.get()) - b0;
    let (live, peak) = (LIVE.with(|l| l.get()) - l0, PEAK.with(|p| p.get()) - l0);
    let lg = (n as f64).log2();
    let (mb, ml, mp) = (boxes as f64 / (n as f64 * lg), live as f64 / n as f64, peak as f64 / n as f64);
    c.maximum(&format!("{}: box queries while building / (n log n)", KINDS[kind]), mb);
    c.maximum(&format!("{}: bytes per shape, built", KINDS[kind]), ml);
    c.maximum(&format!("{}: bytes per shape, while building", KINDS[kind]), mp);
    let (lo, hi) = bounds(&g);
    let lh: Vec<(V, V)> = g.iter().map(|x| (x.lo(), x.hi())).collect();
    let plain = Plain::new(&mut lh.clone());
    let rays = 60;
    let (mut tests, mut ptests, mut need, mut pneed, mut hits, mut otests, mut oneed, mut occluded) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let m = (hi - lo).maxabs();
    for _ in 0..rays {
        // camera-like and bounce-like rays in general position
        let t = g[rng.below(n)].point(rng);
        let o = (if rng.chance(0.5) { (lo + hi) * 0.5 + dir(rng) * (rng.range(0.6, 2.) * m) } else { g[rng.below(n)].point(rng) + dir(rng) * (1e-3 * m) }).q();
        let d = (if rng.chance(0.6) { t - o } else { dir(rng) }).norm().q();
        let mut r = Ray::default(); r.origin = o.p(); r.direction = d.v();
        let t0 = TESTS.with(|t| t.get());
        let hit = tree.intersect(&r);
        tests += TESTS.with(|t| t.get()) - t0;
        let far = match &hit { Some(i) => { hits += 1; let p = v(i.p.x as f64, i.p.y as f64, i.p.z as f64); (p - o).dot(d) * (1. + 1e-5) + 1e-6 * m }, None => f64::INFINITY };
        need += plain.tests(o, d, far);
        // shadow ray to a point of the scene: as far as the end
        let end = if rng.chance(0.5) { t } else { (lo + hi) * 0.5 + dir(rng) * m };
        let d = (end - o).q();
        let mut r = Ray::default(); r.origin = o.p(); r.direction = d.v(); r.t_max = 0.9999;
        let t0 = TESTS.with(|t| t.get());
        let shut = tree.intersect_p(&r);
        let now = TESTS.with(|t| t.get()) - t0;
        ptests += now;
        if shut {
            let hit = tree.intersect(&r);
            let far = match hit { Some(i) => v(i.p.x as f64 - o.x, i.p.y as f64 - o.y, i.p.z as f64 - o.z).dot(d) / d.dot(d) * (1. + 1e-5) + 1e-6, None => 1. };
            occluded += 1; otests += now; oneed += plain.tests(o, d, far);
        }
        pneed += plain.tests(o, d, 0.9999);
    }
    let k = rays as f64;
    let (tests, ptests, need, pneed) = (tests as f64 / k, ptests as f64 / k, need as f64 / k, pneed as f64 / k);
    let (q, qp) = (tests / (need + lg), ptests / (pneed + lg));
    c.maximum(&format!("{}: tests per ray", KINDS[kind]), tests);
    c.maximum(&format!("{}: tests / (yardstick + log n)", KINDS[kind]), q);
    c.maximum(&format!("{}: shadow tests / (yardstick + log n)", KINDS[kind]), qp);
    let wild = kind >= 11; // everything overlaps: no tree helps
    let bound = match kind { 5 => 40., _ => 3. };
    if !wild && q > bound { c.violate("closest-hit-work", format!("{}: {:.1} shapes are tested per ray, a plain hierarchy tests {:.1}", desc, tests, need)); }
    if !wild && qp > bound { c.violate("shadow-work", format!("{}: {:.1} shapes are tested per shadow ray, a plain hierarchy tests at most {:.1}", desc, ptests, pneed)); }
    if occluded > 0 {
        let (t, n) = (otests as f64 / occluded as f64, oneed as f64 / occluded as f64);
        c.maximum(&format!("{}: tests of occluded rays / (yardstick to the first hit + log n)", KINDS[kind]), t / (n + lg));
        if !wild && kind != 5 && t > bound * (n + lg) { c.violate("occluded-work", format!("{}: {:.1} shapes are tested per occluded shadow ray, a plain hierarchy has {:.1} before the first hit", desc, t, n)); }
        c.add("occluded_shadow_rays", occluded);
    }
    let f = if kind >= 10 { 2.5 } else { 1. };
    if mb > 15. * f { c.violate("building-work", format!("{}: {} box queries while building", desc, boxes)); }
    if ml > 900. * f { c.violate("tree-size", format!("{}: the tree takes {} bytes", desc, live)); }
    if mp > 6000. * f { c.violate("building-memory", format!("{}: building takes {} bytes", desc, peak)); }
    c.add("rays", 2 * rays); c.add("rays_that_hit", hits);
    c.add("shapes", n as u64);
    c.count(KINDS[kind]);
    c.eval(if n >= 200 { Some(hash(&[i])) } else { None });
}

fn main() {
    run("C36", "one evaluation: one scene of 60 to 6000 (thorough: 40000) shapes, its tree built and 120 rays traced; non-trivial: at least 200 shapes",
        &["yardstick: a hierarchy of boxes split at the median; three times its work (40 times for shapes in a row, which a tree of slabs cannot enclose tightly) plus three log n is allowed",
          "scenes in which everything overlaps are bounded in size only"], |ctx| {
        let n = ctx.n(3900, 20000);
        par(ctx, 1, n, |c, i| case(c, i));
        for k in KINDS { ctx.require(k, 40); }
        ctx.require("rays_that_hit", 10000);
        ctx.require("occluded_shadow_rays", 5000);
    });
}
