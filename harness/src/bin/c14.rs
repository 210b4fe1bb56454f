//! C14: output.ppm after render, under stale contents and storage faults.
use pt::verif::film::Film;
use pt::verif::filter::Filter;
use pt::verif::integrator::Integrator;
use pt::verif::scene::Builder;
use pt::verif::shape::Shape;
use pt::verif::vector::{Point2f, Point2u};
use ptmon::fw::*;
use ptmon::ppm::*;
use ptmon::synth::*;
use std::fs;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::sync::Arc;

extern "C" { fn setrlimit(r: i32, v: *const [u64; 2]) -> i32; fn getrlimit(r: i32, v: *mut [u64; 2]) -> i32; fn signal(s: i32, h: usize) -> usize; fn mkfifo(p: *const u8, m: u32) -> i32; }

struct Flat(f32);
impl Filter for Flat { fn radius(&self) -> f32 { self.0 } fn evaluate(&self, _: Point2f) -> f32 { 1. } }

fn value(salt: u64, x: i64, y: i64) -> [f32; 3] {
    let h = hash(&[salt, x as u64, y as u64]);
    // centred in the rounding interval of an 8-bit code, so the bytes are certain
    let f = |k: u64| srgb_inv((k % 256) as f64 / 255.) as f32;
    [f(h), f(h >> 8), f(h >> 16)]
}
fn code(salt: u64, x: i64, y: i64) -> [u8; 3] { let h = hash(&[salt, x as u64, y as u64]); [h as u8, (h >> 8) as u8, (h >> 16) as u8] }

/// true when the render returned normally
fn render(w: u32, h: u32, salt: u64, threads: u8) -> bool {
    let log = Log::with_fault(0, 0);
    let f: Radiance = Arc::new(move |x, y| value(salt, x.floor() as i64, y.floor() as i64));
    let sh: Arc<dyn Shape> = Arc::new(SShape { log: log.clone(), f });
    let mut b = Builder::new();
    b.add_shape(SShape { log: log.clone(), f: Arc::new(|_, _| [0.; 3]) });
    let l2 = log.clone();
    let scene = b.construct(move |_| SCont { shape: sh, log: l2 });
    let film = Film::new(Point2u::new(w, h), Flat(0.5));
    let integ = Integrator::new(scene, SSampler::new(log.clone(), 1, 0), SCam { log }, film);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| integ.render(threads)));
    take_panic();
    r.is_ok()
}

/// is output.ppm exactly the image?
fn content(w: u32, h: u32, salt: u64, data: Option<Vec<u8>>) -> Result<(), String> {
    let b = match data { Some(d) => d, None => {
        let mut v = vec![];
        let f = fs::File::open("output.ppm").map_err(|e| format!("cannot open output.ppm: {}", e))?;
        f.take(50_000_000).read_to_end(&mut v).map_err(|e| format!("cannot read output.ppm: {}", e))?;
        v
    } };
    let img = parse(&b).map_err(|e| format!("{} ({} bytes)", e, b.len()))?;
    if (img.w, img.h) != (w as usize, h as usize) { return Err(format!("size {}x{}", img.w, img.h)); }
    for y in 0..h as i64 { for x in 0..w as i64 {
        if img.px[(y * w as i64 + x) as usize] != code(salt, x, y) { return Err(format!("pixel ({},{}) is {:?} instead of {:?}", x, y, img.px[(y * w as i64 + x) as usize], code(salt, x, y))); }
    } }
    Ok(())
}

fn listing(d: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = fs::read_dir(d).unwrap().map(|e| e.unwrap()).filter(|e| e.file_name() != "output.ppm")
        .map(|e| (e.file_name().to_string_lossy().to_string(), if e.path().is_file() { fs::read(e.path()).unwrap() } else { vec![] })).collect();
    v.sort();
    v
}

fn limit(n: Option<u64>) { unsafe { let mut c = [0u64; 2]; getrlimit(1, &mut c); setrlimit(1, &[n.unwrap_or(c[1]).min(c[1]), c[1]]); } }

fn main() {
    run("C14", "renders of images from 1x1 to 90x70, 640x520, 30001x3 and 2x66001 with certain bytes into a scratch directory in which output.ppm is absent, shorter, equal, longer, a link, a directory, a full device, a pipe, or limited in size at enumerated thresholds; every outcome is compared with the expected image; distinct counts (fault, size, threshold) combinations",
        &["faults are injected through the file system, RLIMIT_FSIZE, /dev/full and pipes in a scratch directory"],
        |ctx| {
            ctx.extra.push(("level".into(), "\"fault_enumeration\"".into()));
            unsafe { signal(25, 1); }
            let base = std::env::current_dir().unwrap();
            let sizes: Vec<(u32, u32)> = vec![(1, 1), (2, 3), (7, 5), (16, 16), (33, 20), (40, 37), (90, 70), (640, 520), (30001, 3), (2, 66001)];
            let rounds = ctx.n(1, 12);
            let mut id = 0u64;
            for round in 0..rounds { for &(w, h) in &sizes {
                let salt = hash(&[ctx.seed, round, w as u64, 77]);
                let mut kinds: Vec<(String, u64)> = vec![];
                for k in ["absent", "shorter", "equal", "longer-garbage", "longer-image", "much-longer", "link-file", "dangling-link", "directory", "dangling-dir-link", "dev-full", "cwd-removed", "pipe-read", "pipe-closed", "previous-render"] { kinds.push((k.to_string(), 0)); }
                // total length of the expected file is at most
                let total = 15 + (w * h * 12) as u64;
                let steps = if total > 200_000 { ctx.n(10, 30) } else { ctx.n(14, 60) };
                for i in 0..steps { let k = match i { 0 => 0, 1 => 1, 2 => 11, 3 => 8192, 4 => 8191, 5 => 16384, 6 => 65536, 7 => 1 << 20, _ => ctx.rng.below(total as usize) as u64 }; if k < total { kinds.push(("fsize".into(), k)); kinds.push(("fsize-stale".into(), k)); } }
                for (kind, k) in kinds {
                    if ctx.stop() { break; }
                    id += 1;
                    let d: PathBuf = base.join(format!("d{}", id));
                    fs::create_dir(&d).unwrap();
                    fs::write(d.join("output.ppm.bak"), b"keep").unwrap();
                    fs::write(d.join("neighbour.txt"), vec![7u8; 300]).unwrap();
                    // names that belong to somebody else, whatever they look like
                    let others = ["output.tmp", "output.ppm.tmp", "output.ppm~", "output.ppm.new", "output.ppm.part", "output.bak", "output.ppm.old", ".output.ppm", ".output.ppm.tmp", ".output.ppm.swp", "output", "output.ppm.lock", "tmp.ppm", "temp.ppm", "output.txt", "output.png", "output1.ppm", "output.log", "OUTPUT.PPM", "out.ppm", "image.ppm"];
                    for o in others { fs::write(d.join(o), o).unwrap(); }
                    std::env::set_current_dir(&d).unwrap();
                    let desc = format!("{} {} image {}x{}", kind, k, w, h);
                    let threads = ctx.rng.int(1, 4) as u8;
                    let big = vec![b'9'; 400_000.max(2 * total as usize + 10_000)];
                    let mut must_fail = false; // storing completely is impossible
                    let mut may_fail = false;
                    let mut pipe: Option<std::thread::JoinHandle<Vec<u8>>> = None;
                    match kind.as_str() {
                        "absent" => {}
                        "shorter" => fs::write("output.ppm", b"P3").unwrap(),
                        "equal" => { render(w, h, salt ^ 5, 1); }
                        "longer-garbage" => fs::write("output.ppm", &big[..(total as usize + 1 + ctx.rng.below(3000))]).unwrap(),
                        "longer-image" | "previous-render" => { if !render(w + 5, h + 9, salt ^ 9, 2) { ctx.violate("render-failed", format!("{}: first render failed", desc)); } }
                        "much-longer" => fs::write("output.ppm", &big).unwrap(),
                        "link-file" => { fs::create_dir("sub").unwrap(); fs::write("sub/target", &big[..5000]).unwrap(); std::os::unix::fs::symlink("sub/target", "output.ppm").unwrap(); }
                        "dangling-link" => { fs::create_dir("sub").unwrap(); std::os::unix::fs::symlink("sub/target", "output.ppm").unwrap(); }
                        "directory" => { fs::create_dir("output.ppm").unwrap(); must_fail = true; }
                        "dangling-dir-link" => { std::os::unix::fs::symlink("nodir/target", "output.ppm").unwrap(); may_fail = true; }
                        "dev-full" => { std::os::unix::fs::symlink("/dev/full", "output.ppm").unwrap(); may_fail = true; }
                        "cwd-removed" => { for f in ["output.ppm.bak", "neighbour.txt"].iter().chain(others.iter()) { fs::remove_file(f).unwrap(); } fs::remove_dir(&d).unwrap(); must_fail = true; }
                        "pipe-read" | "pipe-closed" => {
                            let p = d.join("output.ppm");
                            let mut c = p.to_str().unwrap().as_bytes().to_vec(); c.push(0);
                            if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 { ctx.count("no_fifo"); std::env::set_current_dir(&base).unwrap(); fs::remove_dir_all(&d).unwrap(); continue; }
                            // a second name for the pipe, in case the render replaces the first
                            fs::hard_link(&p, base.join("pipe")).unwrap();
                            let early = kind == "pipe-closed";
                            may_fail = early;
                            let p2 = p.clone();
                            pipe = Some(std::thread::spawn(move || {
                                let mut v = vec![];
                                let mut f = match fs::File::open(&p2) { Ok(f) => f, Err(_) => return v };
                                if early { return v; }
                                let _ = f.read_to_end(&mut v);
                                v
                            }));
                        }
                        "fsize" | "fsize-stale" => { if kind == "fsize-stale" { fs::write("output.ppm", &big[..(ctx.rng.below(total as usize * 2))]).unwrap(); } may_fail = true; }
                        _ => unreachable!(),
                    }
                    let before = if kind == "cwd-removed" { vec![] } else { listing(&d) };
                    if kind.starts_with("fsize") { limit(Some(k)); }
                    let ok = render(w, h, salt, threads);
                    limit(None);
                    let mut piped = None;
                    if let Some(j) = pipe {
                        // unblock a reader that never got a writer
                        let is_fifo = fs::symlink_metadata(d.join("output.ppm")).map(|m| !m.is_file()).unwrap_or(false);
                        let _ = fs::OpenOptions::new().read(true).write(true).open(base.join("pipe"));
                        let _ = fs::remove_file(base.join("pipe"));
                        let v = j.join().unwrap();
                        if is_fifo { piped = Some(v); }
                    }
                    if ok {
                        ctx.count("returned_normally");
                        if kind == "cwd-removed" || kind == "directory" {
                            ctx.violate("lost-image", format!("{}: render returned normally although the image cannot be stored", desc));
                        } else if kind == "pipe-closed" && piped.is_some() {
                            // a pipe whose reader left early: small images may fit the pipe buffer before it closes
                            ctx.count("pipe_closed_returned");
                        } else if let Err(e) = content(w, h, salt, piped) {
                            ctx.violate(if kind.starts_with("fsize") || kind == "dev-full" { "truncated-image" } else { "wrong-content" }, format!("{}: render returned normally but output.ppm is not the image: {}", desc, e));
                        }
                    } else {
                        ctx.count("reported_failure");
                        if !must_fail && !may_fail { ctx.violate("render-failed", format!("{}: render failed although the image can be stored", desc)); }
                        ctx.count("faults_hit");
                    }
                    if kind != "cwd-removed" {
                        let mut after = listing(&d);
                        if kind == "dangling-link" || kind == "link-file" { after.retain(|x| x.0 != "target"); }
                        if before != after { ctx.violate("other-files", format!("{}: other files changed: {:?} -> {:?}", desc, before.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>(), after.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>())); }
                    }
                    ctx.eval(Some(hash(&[w as u64, h as u64, k, kind.bytes().fold(0, |a, b| mix(a ^ b as u64))])));
                    ctx.sample(|| format!("{} -> {}", desc, if ok { "returned" } else { "failed" }));
                    std::env::set_current_dir(&base).unwrap();
                    if d.exists() { fs::remove_dir_all(&d).unwrap(); }
                }
            } }
            ctx.require("returned_normally", 50);
            ctx.require("reported_failure", 20);
        });
}
