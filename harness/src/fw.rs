//! Monitoring framework: deterministic randomness, event counters, verdicts, evidence.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash(parts: &[u64]) -> u64 {
    parts.iter().fold(0xcbf29ce484222325, |h, p| mix(h ^ p.wrapping_mul(0x100000001b3)))
}

pub fn hash_f(parts: &[f32]) -> u64 {
    parts.iter().fold(0x1234567, |h, p| mix(h ^ p.to_bits() as u64))
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed ^ 0xA5A5_5A5A)) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); mix(self.0) }
    pub fn f64(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    /// uniform in [0, 1), 24 bits
    pub fn f32(&mut self) -> f32 { (self.u64() >> 40) as f32 / (1u64 << 24) as f32 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f64() }
    pub fn rf(&mut self, a: f32, b: f32) -> f32 { self.range(a as f64, b as f64) as f32 }
    pub fn int(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as usize) as i64 }
    pub fn chance(&mut self, p: f64) -> bool { self.f64() < p }
    /// log-uniform
    pub fn logu(&mut self, a: f64, b: f64) -> f64 { (self.range(a.ln(), b.ln())).exp() }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

/// keys are hashes already
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl std::hash::Hasher for Ident {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = mix(self.0 ^ *x as u64); } }
    fn write_u64(&mut self, x: u64) { self.0 = x.wrapping_mul(0x9e3779b97f4a7c15); self.0 ^= self.0 >> 32; }
}
pub type KeySet = HashSet<u64, std::hash::BuildHasherDefault<Ident>>;

pub struct Violation { pub sig: String, pub detail: String }

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub counts: BTreeMap<String, u64>,
    pub distinct: KeySet,
    pub evaluations: u64,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub required: Vec<(String, u64)>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: Vec<(String, String)>, // raw json values
    pub start: Instant,
    pub maxima: BTreeMap<String, f64>,
}

thread_local! { static LAST: std::cell::RefCell<Option<(String, String)>> = std::cell::RefCell::new(None); }
/// every panic of the process, for details
pub static ALL_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".to_string() };
        // Index carries the caller's place: a panic inside the library's index is the library's
        let loc = if harness_loc(&loc) && (msg == "explicit panic" || msg.starts_with("index out of bounds")) && raised_in_library() { format!("the library, called at {}", loc) } else { loc };
        let mut g = match ALL_PANICS.lock() { Ok(g) => g, Err(e) => e.into_inner() };
        if g.len() < 10000 { g.push((loc.clone(), msg.clone())); }
        // keep the first panic of a case: later ones are usually its consequences
        let _ = LAST.try_with(|l| { let mut l = l.borrow_mut(); if l.is_none() { *l = Some((loc, msg)); } });
    }));
}

fn raised_in_library() -> bool {
    // the first place outside the standard library, below the panic machinery, decides
    let t = std::backtrace::Backtrace::force_capture().to_string();
    let at: Vec<&str> = t.lines().filter_map(|l| l.trim_start().strip_prefix("at ")).collect();
    let std = |s: &str| s.contains("/rustlib/") || s.contains("/rustc/");
    match at.iter().position(|s| s.contains("/panicking.rs")) { Some(k) => at[k + 1..].iter().find(|s| !std(s)).map_or(false, |s| !s.contains("/harness/") && !s.starts_with("./src")), None => false }
}

/// location and message of the calling thread's panic
pub fn take_panic() -> Option<(String, String)> { LAST.with(|l| l.borrow_mut().take()) }
pub fn take_all_panics() -> Vec<(String, String)> {
    let mut g = match ALL_PANICS.lock() { Ok(g) => g, Err(e) => e.into_inner() };
    std::mem::take(&mut *g)
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Ctx {
        let ph = prop.bytes().fold(0u64, |a, b| mix(a ^ b as u64));
        Ctx { prop: prop.to_string(), seed, thorough, rng: Rng::new(hash(&[seed, ph])), counts: BTreeMap::new(), distinct: KeySet::default(),
            evaluations: 0, samples: vec![], violations: vec![], required: vec![], rule: String::new(), assumptions: vec![], extra: vec![], start: Instant::now(), maxima: BTreeMap::new() }
    }
    pub fn sub(&self, salt: u64) -> Ctx {
        let mut c = Ctx::new(&self.prop, self.seed, self.thorough);
        c.rng = Rng::new(hash(&[self.seed, salt, self.prop.bytes().fold(0u64, |a, b| mix(a ^ b as u64))]));
        c
    }
    pub fn absorb(&mut self, o: Ctx) {
        for (k, v) in o.counts { *self.counts.entry(k).or_insert(0) += v; }
        for (k, v) in o.maxima { self.maximum(&k, v); }
        if self.distinct.len() < 24_000_000 { self.distinct.extend(o.distinct); }
        self.evaluations += o.evaluations;
        for s in o.samples { if self.samples.len() < 6 { self.samples.push(s); } }
        for v in o.violations { self.violations.push(v); }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
    pub fn count(&mut self, k: &str) { self.add(k, 1); }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) { *v += n; } else { self.counts.insert(k.to_string(), n); }
    }
    pub fn get(&self, k: &str) -> u64 { self.counts.get(k).copied().unwrap_or(0) }
    pub fn maximum(&mut self, k: &str, v: f64) {
        if v.is_nan() { return; }
        if let Some(m) = self.maxima.get_mut(k) { if v > *m { *m = v; } } else { self.maxima.insert(k.to_string(), v); }
    }
    /// one evaluation; `key` identifies the case when it is non-trivial
    pub fn eval(&mut self, key: Option<u64>) {
        self.evaluations += 1;
        if let Some(k) = key { if self.distinct.len() < 32_000_000 { self.distinct.insert(k); } } // a lower bound beyond that
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.samples.len() < 4 { let t = s(); self.samples.push(t); } }
    pub fn violate(&mut self, sig: &str, detail: impl Into<String>) {
        let mut d: String = detail.into();
        if d.len() > 6000 { d = d.chars().take(6000).collect::<String>() + "..."; }
        if self.violations.len() < 200 { self.violations.push(Violation { sig: sig.to_string(), detail: d }); }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok { let d = detail(); self.violate(sig, d); }
        ok
    }
    /// Run code under test; a panic raised by it is a violation, one raised by the harness is an error.
    pub fn guard<R>(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        match r {
            Ok(r) => { Some(r) }
            Err(_) => {
                let (loc, msg) = take_panic().unwrap_or_default();
                if harness_loc(&loc) {
                    eprintln!("HARNESS ERROR at {}: {} in {}", loc, msg, desc());
                    std::process::exit(3);
                }
                self.violate("panic", format!("panic at {}: {} in {}", loc, msg, desc()));
                None
            }
        }
    }
    pub fn require(&mut self, k: &str, n: u64) { self.required.push((k.to_string(), n)); }
    pub fn stop(&self) -> bool { self.violations.len() >= 20 }
}

static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Ends the process when for a long time no piece of work was begun or finished: code under test that does not return.
/// Pieces take seconds at most; waiting on timers inside the harness counts as work done by it.
fn watch_for_hangs(limit: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
            if p != last { last = p; since = Instant::now(); }
            else if since.elapsed().as_secs() > limit { eprintln!("NO PROGRESS: the code under test has not returned for {} s", limit); std::process::exit(4); }
        }
    });
}

/// Run `n` independent chunks on 8 threads; chunk results are deterministic in (seed, chunk).
pub fn par(ctx: &mut Ctx, salt: u64, n: u64, f: impl Fn(&mut Ctx, u64) + Sync) {
    let next = std::sync::atomic::AtomicU64::new(0);
    let nv = std::sync::atomic::AtomicU64::new(0);
    let base = &*ctx;
    let block = (n / 1024).clamp(1, 64);
    // chunks are merged in order as they become available, so that the result does not depend on scheduling
    let done: Mutex<(u64, BTreeMap<u64, Ctx>, Ctx)> = Mutex::new((0, BTreeMap::new(), base.sub(salt)));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let b = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if b * block >= n || nv.load(std::sync::atomic::Ordering::SeqCst) >= 20 { break; }
                let mut sum = base.sub(salt);
                for i in b * block..(b * block + block).min(n) {
                    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let mut c = base.sub(hash(&[salt, i]));
                    let mut cc = &mut c;
                    if let Err(_) = catch_unwind(AssertUnwindSafe(|| f(&mut cc, i))) {
                        let (loc, msg) = take_panic().unwrap_or_default();
                        if harness_loc(&loc) {
                            eprintln!("HARNESS ERROR at {}: {} in chunk {}", loc, msg, i);
                            std::process::exit(3);
                        }
                        c.violate("panic", format!("panic at {}: {} (chunk {} salt {})", loc, msg, i, salt));
                    }
                    nv.fetch_add(c.violations.len() as u64, std::sync::atomic::Ordering::SeqCst);
                    sum.absorb(c);
                    if nv.load(std::sync::atomic::Ordering::SeqCst) >= 20 { break; }
                }
                let mut g = done.lock().unwrap();
                let (at, wait, acc) = &mut *g;
                wait.insert(b, sum);
                while let Some(x) = wait.remove(at) { acc.absorb(x); *at += 1; }
            });
        }
    });
    let (_, wait, acc) = done.into_inner().unwrap();
    ctx.absorb(acc);
    for (_, c) in wait { ctx.absorb(c); }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

pub fn jnum(v: f64) -> String { if v.is_finite() { format!("{:e}", v) } else { "null".to_string() } }

/// Simple known-findings reader: lines "known: property=<id> sig=<sig>".
pub fn known(path: &str) -> Vec<(String, String, String)> {
    let mut r = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.trim().strip_prefix("known: property=") {
            if let Some((id, rest)) = rest.split_once(" sig=") {
                let (sig, what) = rest.split_once(' ').unwrap_or((rest, ""));
                r.push((id.to_string(), sig.to_string(), what.to_string()));
            }
        }
    }
    r
}

/// Entry point of every check binary.
/// Exit codes: 0 held, 1 violated, 2 inconclusive, 3 harness error.
pub fn run(prop: &str, rule: &str, assumptions: &[&str], f: impl FnOnce(&mut Ctx)) -> ! {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let thorough = tier == "thorough";
    let root = std::env::var("PTMON_ROOT").unwrap_or_else(|_| "/verif".into());
    install_panic_hook();
    if !cfg!(miri) { watch_for_hangs(if thorough { 900 } else { 240 }); }
    let mut ctx = Ctx::new(prop, seed, thorough);
    ctx.rule = rule.to_string();
    ctx.assumptions = assumptions.iter().map(|s| s.to_string()).collect();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
    if r.is_err() {
        let (loc, msg) = take_panic().unwrap_or_default();
        if harness_loc(&loc) {
            eprintln!("HARNESS ERROR at {}: {}", loc, msg);
            std::process::exit(3);
        }
        ctx.violate("panic", format!("panic at {}: {}", loc, msg));
    }
    let kn = known(&format!("{}/known_findings.txt", root));
    let mut fresh = vec![];
    let mut seen_known = vec![];
    for v in &ctx.violations {
        if let Some(k) = kn.iter().find(|k| k.0 == prop && k.1 == v.sig) {
            if !seen_known.contains(&k.1) {
                seen_known.push(k.1.clone());
                println!("KNOWN-FINDING: property={} {} {}", prop, k.1, k.2);
            }
        } else { fresh.push(v); }
    }
    let wall = ctx.start.elapsed().as_secs_f64();
    let missing: Vec<String> = ctx.required.iter().filter(|(k, n)| ctx.get(k) < *n)
        .map(|(k, n)| format!("{}={} (need {})", k, ctx.get(k), n)).collect();
    // evidence
    let counts: Vec<String> = ctx.counts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let maxima: Vec<String> = ctx.maxima.iter().map(|(k, v)| format!("{}: {}", js(k), jnum(*v))).collect();
    let samples: Vec<String> = ctx.samples.iter().map(|s| js(s)).collect();
    let extra: String = ctx.extra.iter().map(|(k, v)| format!(", {}: {}", js(k), v)).collect();
    let viol: Vec<String> = fresh.iter().take(20).map(|v| format!("{{\"sig\": {}, \"detail\": {}}}", js(&v.sig), js(&v.detail))).collect();
    let level = ctx.extra.iter().find(|x| x.0 == "level").map(|x| x.1.trim_matches('"').to_string()).unwrap_or("exploration".into());
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"wall_s\": {:.2}, \"violations\": {}, \"assumptions\": [{}],\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}],\n \"observed\": {{{}}},\n \"maxima\": {{{}}}{}}},\n \"violation_details\": [{}]}}\n",
        js(prop), js(if thorough { "thorough" } else { "quick" }), seed, js(&level), wall, fresh.len(),
        ctx.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        ctx.evaluations, ctx.distinct.len(), js(&ctx.rule), samples.join(", "), counts.join(", "), maxima.join(", "), extra, viol.join(", "));
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let evp = format!("{}/evidence/{}.json", root, prop);
    if let Err(e) = std::fs::write(&evp, ev) { eprintln!("cannot write {}: {}", evp, e); std::process::exit(3); }
    println!("{}: {} evaluations, {} distinct, {:.1}s, {} violation(s)", prop, ctx.evaluations, ctx.distinct.len(), wall, fresh.len());
    for (k, v) in &ctx.counts { println!("  {} = {}", k, v); }
    for (k, v) in &ctx.maxima { println!("  max {} = {:e}", k, v); }
    if !fresh.is_empty() {
        let rp = format!("evidence/{}.replay.txt", prop);
        let mut t = format!("property={} VERIF_SEED={} VERIF_TIER={}\nreplay: VERIF_SEED={} VERIF_TIER={} python3 check.py {}\n", prop, seed, if thorough { "thorough" } else { "quick" }, seed, if thorough { "thorough" } else { "quick" }, prop);
        for v in fresh.iter().take(50) { t += &format!("[{}] {}\n", v.sig, v.detail); }
        let _ = std::fs::write(format!("{}/{}", root, rp), t);
        let mut sigs: Vec<&str> = vec![];
        for v in fresh.iter() { if sigs.len() < 6 && !sigs.contains(&&v.sig[..]) { sigs.push(&v.sig); println!("  [{}] {:.400}", v.sig, v.detail); } }
        println!("VIOLATION property={} replay={}", prop, rp);
        std::process::exit(1);
    }
    if !missing.is_empty() {
        println!("INCONCLUSIVE: observed too little: {}", missing.join(", "));
        std::process::exit(2);
    }
    std::process::exit(0);
}

pub fn harness_loc(loc: &str) -> bool { loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("harness/") }
