//! C27: whole renders of arbitrary valid scenes: no panic, no endless path, no discarded or broken sample.
use pt::verif::film::Film;
use pt::verif::sampler::Sampler;
use pt::verif::sampler_halton::HaltonSampler;
use pt::verif::sampler_random::RandomSampler;
use pt::verif::spectrum::Spectrum;
use pt::verif::vector::*;
use ptmon::fw::*;
use ptmon::gen::*;
use ptmon::geo::*;
use ptmon::scenes::*;
use ptmon::wild::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

/// filter weights of every pixel after exactly these samples
fn weights(film: &Film, s: &[(f32, f32, u64)], limit: u64) -> Vec<f32> {
    let mut t = film.get_film_tile(film.sample_bbox());
    for p in s { if p.2 < limit { t.add_sample(Point2f::new(p.0, p.1), Spectrum::from(1.)); } }
    film.merge_film_tile(t);
    film.verif_pixels().iter().map(|x| x.1).collect()
}

fn case(c: &mut Ctx, rng: &mut Rng, i: u64) {
    let style = i % WILD_STYLES;
    let w = wild(rng, style, 0.02);
    let big = rng.chance(0.01);
    let res = if big { c.count("large_films"); (rng.int(10, 70) as u32, rng.int(10, 50) as u32) } else { (rng.int(1, 9) as u32, rng.int(1, 7) as u32) };
    let flt = if rng.chance(0.5) { Flt::Flat(0.5) } else { let r = *rng.pick(&[0.5f32, 1., 1.5, 2., 3.3]); if rng.chance(0.5) { Flt::Flat(r) } else { Flt::Gauss(r, 2.) } };
    let mut pr = Probe::new();
    pr.keep = true;
    let p = Arc::new(pr);
    let spp = if big { 1 } else if rng.chance(0.02) { rng.int(20, 300) as u32 } else { rng.int(1, 4) as u32 };
    let simple = rng.chance(0.3);
    let threads = *rng.pick(&[1u8, 1, 1, 2, 3]);
    let mut desc = String::new();
    let cam = if rng.chance(0.4) { c.count("perspective_cameras"); Cam::Persp(persp(rng, &w, res)) } else { c.count("ray_cameras"); Cam::List(Arc::new(w.rays.clone()), res.0) };
    let film = flt.film(res);
    let smp = match rng.below(6) {
        0 => { desc += "zero sampler"; c.count("zero_sampler"); Smp::Zero(1, 0) }
        1 => { desc += "edge sampler"; c.count("edge_sampler"); Smp::Edge(HSampler::new(rng.u64(), spp)) }
        2 | 3 => { desc += "halton sampler"; c.count("halton_sampler"); Smp::Halton(HaltonSampler::new(spp, film.sample_bbox())) }
        4 => { desc += "random sampler"; c.count("random_sampler"); Smp::Random(RandomSampler::new(spp)) }
        _ => { desc += "hash sampler"; c.count("hash_sampler"); Smp::H(HSampler::new(rng.u64(), spp)) }
    };
    let corner = matches!(smp, Smp::Zero(..) | Smp::Halton(_)) && w.objs.iter().any(|o| matches!(o.mat, TMat::Plastic(..)));
    let n = if let Smp::Zero(..) = smp { 1 } else { spp };
    let _ = smp.clone();
    let desc = format!("style {} film {:?} {:?} spp {} simple {} threads {} {}, {:?}", style, res, flt, n, simple, threads, desc, w);
    let sc = w.scene(&p, simple, rng.chance(0.2));
    let bb = film.sample_bbox();
    let expected = bb.area() as u64 * n as u64;
    let (film, err) = shoot(sc, cam, smp, film, threads, &p);
    c.eval(Some(hash(&[i])));
    c.count(&format!("style_{}", style));
    if p.limit.load(SeqCst) > 0 { take_panic(); c.violate("path-limit", format!("a path goes on beyond 64 bounces, {}", desc)); return; }
    if err { take_panic(); let v: Vec<String> = take_all_panics().into_iter().take(3).map(|x| format!("{}: {}", x.0, x.1)).collect(); c.violate("panic", format!("render panicked ({}), {}", v.join("; "), desc)); return; }
    c.maximum("intersections_per_path", p.max_isect.load(SeqCst) as f64);
    c.maximum("shadow_rays_per_path", p.max_p.load(SeqCst) as f64);
    if p.max_isect.load(SeqCst) >= 60 { c.count("paths_of_60_or_more"); }
    let s = p.films.lock().unwrap().clone();
    c.add("samples", s.len() as u64);
    c.add("intersections", p.count(Kind::Isect) + p.count(Kind::IsectP));
    c.add("textures_evaluated", p.count(Kind::Tex));
    c.check(s.len() as u64 == expected, "sample-count", || format!("{} camera rays, expected {}, {}", s.len(), expected, desc));
    let px = film.verif_pixels();
    let want = weights(&flt.film(res), &s, u64::MAX);
    let least = weights(&flt.film(res), &s, LONG);
    for (k, (l, wt)) in px.iter().enumerate() {
        let (l, wt) = ([l.r, l.g, l.b], *wt);
        if l.iter().any(|x| *x > 0.) { c.count("lit_pixels"); }
        let near = |w: f32| (wt - w).abs() <= 2e-5 * w.abs() + 1e-6;
        // known: samples of constant zeros, which the roulette never ends and which gain at every bounce on plastic
        let overflow = corner && !near(want[k]) && wt < want[k] && (wt > least[k] || near(least[k]));
        if overflow { c.count("throughput_overflows"); continue; }
        let ok = c.check(near(want[k]), "dropped-sample", || format!("pixel {}: filter weight {} of the samples arrived, {} expected, {}", k, wt, want[k], desc));
        let ok = c.check(l.iter().all(|x| x.is_finite() && *x >= 0.), "radiance", || format!("pixel {}: {:?}, {}", k, l, desc)) && ok;
        if !ok { break; }
    }
    c.sample(|| format!("{} objects, {} camera rays, longest path {} intersections", w.objs.len(), s.len(), p.max_isect.load(SeqCst)));
}

/// The known finding: Halton's very first sample is zero in every dimension, so that roulette never ends its path.
fn overflow(c: &mut Ctx) {
    let mut rng = Rng::new(27);
    for _ in 0..4000 {
        let (rough, k) = (rng.logu(0.02, 1.) as f32, rng.range(0.02, 0.6));
        let (o, d) = (pt(&mut rng, 0.55), dir(&mut rng));
        let t = |k: f64| Tx { map: Map::Const, a: [k; 3], b: [k; 3] };
        let mut w = Wild::default();
        w.objs.push(WObj { geo: Geo::sph(v(0., 0., 0.), 1.), mat: TMat::Plastic(t(k), t(1. - k), Tx { map: Map::Const, a: rough, b: rough }), le: None });
        let p = Arc::new(Probe::new());
        let film = Flt::Flat(0.5).film((1, 1));
        let smp = Smp::Halton(HaltonSampler::new(1, film.sample_bbox()));
        let cam = Cam::List(Arc::new(vec![(o.q(), d.q())]), 1);
        let (film, err) = shoot(w.scene(&p, true, false), cam, smp, film, 1, &p);
        c.count("plastic_rooms");
        if err { take_panic(); c.violate("panic", format!("render panicked: {:?}", w)); return; }
        if film.verif_pixels()[0].1 == 0. && p.max_isect.load(SeqCst) >= LONG { c.violate("throughput-overflow", format!("no sample arrived, from {:?} towards {:?}, {:?}", o, d, w)); return; }
    }
}

fn main() {
    run("C27", "one evaluation: one render of one random scene (10 styles, awkward and ordinary rays, hostile and real samplers) with every component wrapped; distinct = different scenes",
        &["roughness 0 or at least 0.02, both roughnesses of a material vanish together", "plastic reflects at most what it receives (kd + ks at most 1), rough glass has an index other than 1", "triangles with quality above 1e-5", "overflow checks and debug assertions on", "film state read through the pt_verif_film hook"], |ctx| {
        let n = ctx.n(120000, 1500000);
        par(ctx, 1, n, |c, i| { let mut rng = c.rng.clone(); c.guard(|| format!("case {}", i), |c| case(c, &mut rng, i)); });
        overflow(ctx);
        for k in 0..WILD_STYLES { ctx.require(&format!("style_{}", k), 100); }
        for (k, m) in [("zero_sampler", 200), ("edge_sampler", 200), ("halton_sampler", 200), ("random_sampler", 200), ("perspective_cameras", 500), ("ray_cameras", 500), ("paths_of_60_or_more", 20), ("lit_pixels", 5000), ("textures_evaluated", 10000)] { ctx.require(k, m); }
    });
}
#[allow(unused)] fn f(s: &mut HSampler) { s.get_1d(); }
