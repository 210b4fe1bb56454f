# C30: the same workload under ThreadSanitizer, AddressSanitizer and Miri. Executed by check.py.
import concurrent.futures, re
T0 = time.time()
thorough = tier == "thorough"
seed = int(env["VERIF_SEED"])
FLAGS = "--cfg pt_verif --cfg pt_verif_film -Awarnings"
TRIPLE = "x86_64-unknown-linux-gnu"
scratch = tempfile.mkdtemp(prefix="ptmon-c30-")
reports, observed, problems = [], [], []

def note(what, text):
    reports.append("[%s]\n%s" % (what, text[:6000]))

def seen(out):
    for l in out.splitlines():
        if l.startswith("C30-OBSERVED "):
            observed.append(json.loads(l[len("C30-OBSERVED "):]))
            return True
    return False

def cargo(args, flags, target, extra=None, timeout=800):
    e = dict(env)
    e["RUSTFLAGS"] = FLAGS + " " + flags
    e.update(extra or {})
    return subprocess.run(["cargo", "+nightly"] + args + ["--target-dir", target], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")

def fatal_signal(rc, err):
    return rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE) or (rc == -signal.SIGABRT and "unsafe precondition" in err)

def sanitizer(mode, rounds, n, budget):
    t = time.time()
    args = ["build", "--offline", "--quiet", "--bin", "c30", "--target", TRIPLE] + (["-Zbuild-std"] if mode == "tsan" else [])
    r = cargo(args, "-Zsanitizer=%s" % {"tsan": "thread", "asan": "address"}[mode], os.path.join(TARGET, mode))
    if r.returncode != 0:
        problems.append("%s build failed: %s" % (mode, r.stderr[-1500:]))
        return
    print("build %s: %.1fs" % (mode, time.time() - t), flush=True)
    exe = os.path.join(TARGET, mode, TRIPLE, "debug", "c30")
    for k in range(rounds):
        if time.time() - T0 > budget:
            break
        d = os.path.join(scratch, "%s%d" % (mode, k))
        os.makedirs(d)
        e = dict(env)
        e["TSAN_OPTIONS"] = "halt_on_error=0 exitcode=66 report_thread_leaks=0 report_signal_unsafe=0 history_size=4"
        e["ASAN_OPTIONS"] = "detect_leaks=0 halt_on_error=1 exitcode=67 abort_on_error=0"
        try:
            p = subprocess.run([exe, mode, str(seed * 1000 + k), str(n)], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=900 if thorough else 300, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            problems.append("%s run %d timed out" % (mode, k))
            continue
        err = p.stderr
        m = re.search(r"(WARNING: ThreadSanitizer: (?!thread leak)|ERROR: AddressSanitizer|==ERROR: ThreadSanitizer)", err)
        if m:
            note("%s, seed %d" % (mode, seed * 1000 + k), err[m.start():])
            return
        if fatal_signal(p.returncode, err) or "unsafe precondition(s) violated" in err:
            note("%s died with %d, seed %d" % (mode, p.returncode, seed * 1000 + k), err[-3000:])
            return
        if p.returncode != 0 or not seen(p.stdout):
            problems.append("%s run %d ended with %d: %s" % (mode, k, p.returncode, err[-800:]))

def miri_run(k, n):
    d = os.path.join(scratch, "miri%d" % k)
    os.makedirs(d, exist_ok=True)
    flags = "-Zmiri-disable-isolation -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (seed * 1000 + k, ["0.01", "0.05", "0.2"][k % 3])
    try:
        p = subprocess.run(
            ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", "c30", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", os.path.join(TARGET, "miri"), "--", "miri", str(seed * 1000 + k), str(n)],
            cwd=d, env=dict(env, RUSTFLAGS=FLAGS, MIRIFLAGS=flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return ("timeout", "", "")
    return (p.returncode, p.stdout, p.stderr)

def miri(runs, n, budget):
    def judge(k, r):
        rc, out, err = r
        if rc == "timeout":
            problems.append("miri run %d timed out" % k)
        elif re.search(r"error: Undefined Behavior|Data race detected|unsafe precondition", err):
            m = re.search(r"error: |unsafe precondition", err)
            note("miri, seed %d" % (seed * 1000 + k), err[m.start():])
        elif rc != 0 or not seen(out):
            problems.append("miri run %d ended with %s: %s" % (k, rc, err[-800:]))
    t = time.time()
    judge(0, miri_run(0, n))
    print("first miri run: %.1fs" % (time.time() - t), flush=True)
    if problems or reports:
        return
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        ks = list(range(1, runs))
        for lo in range(0, len(ks), 7):
            if time.time() - T0 > budget or reports:
                break
            for k, r in zip(ks[lo:lo + 7], ex.map(lambda k: miri_run(k, n), ks[lo:lo + 7])):
                judge(k, r)

try:
    if thorough:
        sanitizer("tsan", 12, 60, 1500)
        sanitizer("asan", 4, 60, 2000)
        miri(120, 1, 3200)
    else:
        sanitizer("tsan", 3, 14, 300)
        if not reports:
            sanitizer("asan", 1, 14, 400)
        if not reports:
            miri(8, 1, 420)
finally:
    shutil.rmtree(scratch, ignore_errors=True)

by = {}
for o in observed:
    b = by.setdefault(o["mode"], {"runs": 0})
    b["runs"] += 1
    for k, v in o.items():
        if k != "mode":
            b[k] = b.get(k, 0) + v
total = sum(b.get("renders", 0) for b in by.values())
evd = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - T0, 2), "violations": len(reports),
       "assumptions": ["ThreadSanitizer and Miri see the interleavings that happened; nothing but pt.rs synchronises the workers of one render"],
       "coverage": {"evaluations": total, "distinct_nontrivial": total, "rule": "one evaluation: one multi-threaded render of one random scene under ThreadSanitizer, AddressSanitizer or Miri; distinct = different scenes and schedules (seeds)",
                    "samples": [json.dumps(o) for o in observed[:4]] + problems[:3], "observed": by}}
json.dump(evd, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
print("C30: %s, %.1fs" % (json.dumps(by), time.time() - T0), flush=True)
if reports:
    rp = "evidence/%s.replay.txt" % prop
    with open(os.path.join(ROOT, rp), "w") as f:
        f.write("property=%s VERIF_SEED=%s VERIF_TIER=%s\n%s\n" % (prop, env["VERIF_SEED"], tier, "\n\n".join(reports)))
    print("\n".join(r[:600] for r in reports[:2]))
    print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    sys.exit(1)
for p in problems:
    print("PROBLEM: " + p[:1000])
ok = all(by.get(m, {}).get("renders", 0) >= k for m, k in (("tsan", 20), ("asan", 8), ("miri", 4)))
if problems or not ok:
    print("INCONCLUSIVE")
    sys.exit(2)
sys.exit(0)
