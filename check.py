#!/usr/bin/env python3
"""Build the monitor of one property against /repo's working tree and run it.
usage: check.py <property> [quick|thorough]
exit 0: held on everything observed; 1 + VIOLATION line: broken; anything else: no verdict."""
import json, os, subprocess, sys, time, shutil, tempfile, signal

ROOT = os.path.dirname(os.path.abspath(__file__))
prop = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
os.environ.setdefault("VERIF_SEED", "1")
tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
os.environ["VERIF_TIER"] = tier
ev = os.path.join(ROOT, "evidence")
os.makedirs(ev, exist_ok=True)
for f in (prop + ".json", prop + ".replay.txt"):
    p = os.path.join(ev, f)
    if os.path.exists(p):
        os.remove(p)

env = dict(os.environ)
env["CARGO_NET_OFFLINE"] = "true"
env["CARGO_TERM_COLOR"] = "never"
env["PTMON_ROOT"] = ROOT
env["RUST_BACKTRACE"] = "0"
env.pop("CARGO_TARGET_DIR", None)
FILM = ("C11", "C15", "C16", "C17", "C25", "C26", "C27", "C32", "C33", "C34", "C38")
env["RUSTFLAGS"] = "--cfg pt_verif -Awarnings" + (" --cfg pt_verif_film" if prop in FILM else "")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")

def build(binname, extra=(), target=TARGET, toolchain=None, rustflags=None, timeout=800):
    e = dict(env)
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline", "--quiet", "--bin", binname, "--target-dir", target] + list(extra)
    t = time.time()
    r = subprocess.run(cmd, cwd=HARNESS, env=e, timeout=timeout)
    print("build %s: %.1fs" % (binname, time.time() - t), flush=True)
    if r.returncode != 0:
        print("BUILD FAILED", flush=True)
        sys.exit(2)

def violation(detail):
    rp = "evidence/%s.replay.txt" % prop
    with open(os.path.join(ROOT, rp), "w") as f:
        f.write("property=%s VERIF_SEED=%s VERIF_TIER=%s\n%s\n" % (prop, env["VERIF_SEED"], tier, detail))
    json.dump({"property": prop, "tier": tier, "seed": int(env["VERIF_SEED"]), "level": "exploration", "wall_s": 0.0, "violations": 1,
               "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended abnormally", "samples": [detail[:300]]}},
              open(os.path.join(ev, prop + ".json"), "w"))
    print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    sys.exit(1)

def run(binpath, timeout, e=None, args=()):
    """Run a monitor inside a scratch directory; abnormal death of the code under test is a violation."""
    scratch = tempfile.mkdtemp(prefix="ptmon-")
    p = subprocess.Popen([binpath] + list(args), cwd=scratch, env=e or env, stderr=subprocess.PIPE, start_new_session=True)
    try:
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            print("INCONCLUSIVE: watchdog after %ds" % timeout, flush=True)
            return 2, ""
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    err = err.decode("utf-8", "replace")
    lines = [l for l in err.splitlines() if not l.startswith("Invalid radiance")]
    sys.stderr.write("\n".join(lines[-40:]) + ("\n" if lines else ""))
    return p.returncode, err

def finish(rc, err):
    if rc in (0, 1):
        sys.exit(rc)
    if rc == 4:
        violation("[no-answer] the monitored code does not return: " + err[-2000:])
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE) or (rc == -signal.SIGABRT and "memory allocation" not in err):
        violation("monitored process died with signal %d\n%s" % (-rc, err[-2000:]))
    sys.exit(rc if rc in (2, 3) else 2)

if __name__ == "__main__":
    special = os.path.join(ROOT, "tools", "run_%s.py" % prop.lower())
    if os.path.exists(special):
        exec(compile(open(special).read(), special, "exec"))
    else:
        b = prop.lower()
        build(b)
        rc, err = run(os.path.join(TARGET, "debug", b), 3000 if tier == "thorough" else 600)
        finish(rc, err)
