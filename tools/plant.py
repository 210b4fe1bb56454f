#!/usr/bin/env python3
"""Builds planted bugs from a definition file.

usage: plant.py DEFS.py [ID...] [--nocheck] [--force]

DEFS.py calls P(id, prop, [(file, old, new[, nth])], demo, needs, breaks): textual edits of /repo's sources and a
demonstration (the body of a Rust program, see prelude.rs).  The edit is confirmed in a scratch copy: the stable tests
pass with it, the demonstration passes without and fails with it.  It is then kept in /verif/seeded/<id>, and the
quick check of its property is run against it in /repo (which is put back afterwards).  No check uses this.
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BASE = 'e2db561'
DEMO_SH = '''#!/bin/bash
# usage: run in the repository's root; exit 0: the property held, otherwise it was broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d /tmp/pt-demo.XXXXXX)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/run"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pt = { path = "$repo" }
[profile.dev]
opt-level = 2
debug-assertions = true
overflow-checks = true
EOF
cd "$work"
export CARGO_TARGET_DIR="$work/target" RUSTFLAGS="--cfg pt_verif --cfg pt_verif_film -Awarnings"
cargo build --offline --quiet || exit 3
cd "$work/run"
timeout 250 "$work/target/debug/demo"
'''
PL = {}

def P(id, prop, edits, demo, needs, breaks, extra=None):
    assert id not in PL, id
    PL[id] = (prop, edits, demo, needs, breaks)

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def apply(root, edits):
    for e in edits:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = os.path.join(root, f)
        s = open(p).read()
        n = s.count(old)
        if nth is None:
            assert n == 1, f'{f}: {n} matches of {old!r}'
            s = s.replace(old, new)
        elif nth == 'all':
            assert n >= 1
            s = s.replace(old, new)
        else:
            assert n > nth, f'{f}: {n} matches of {old!r}'
            i = -1
            for _ in range(nth + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, 'w').write(s)

def original(diff):
    """number of removed lines that the base commit has"""
    n, cur = 0, None
    for l in diff.splitlines():
        if l.startswith('--- '):
            cur = l[6:]
            r = sh(['git', 'show', f'{BASE}:{cur}'], REPO)
            lines = set(r.stdout.splitlines())
        elif l.startswith('-'):
            n += l[1:] in lines and l[1:].strip() not in ('', '}', '{')
    return n

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = {a for a in sys.argv[1:] if a.startswith('--')}
    prelude = open(os.path.join(HERE, 'prelude.rs')).read()
    exec(compile(open(args[0]).read(), args[0], 'exec'), {'P': P})
    ids = args[1:] or list(PL)
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    for id in ids:
        prop, edits, demo, needs, breaks = PL[id]
        out = os.path.join(VERIF, 'seeded', id)
        if os.path.exists(os.path.join(out, 'patch.diff')) and '--force' not in opts:
            print(f'{id}: kept already', flush=True)
        else:
            scratch = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
            try:
                root = os.path.join(scratch, 'repo')
                sh(['git', 'clone', '-q', REPO, root], '/')
                for d in ('Cargo.lock',):
                    if os.path.exists(f'{REPO}/{d}') and not os.path.exists(f'{root}/{d}'):
                        shutil.copy(f'{REPO}/{d}', f'{root}/{d}')
                ex = os.path.join(scratch, 'demo'); os.mkdir(ex)
                text = demo if 'fn main' in demo else demo + '\n'
                open(os.path.join(ex, 'main.rs'), 'w').write(prelude + '\n' + text)
                open(os.path.join(ex, 'demo.sh'), 'w').write(DEMO_SH)
                os.chmod(os.path.join(ex, 'demo.sh'), 0o755)
                r = sh(['bash', os.path.join(ex, 'demo.sh')], root)
                if r.returncode != 0:
                    print(f'{id}: DEMO FAILS ON CLEAN rc={r.returncode}\n' + (r.stdout + r.stderr)[-3000:], flush=True); continue
                try:
                    apply(root, edits)
                except AssertionError as e:
                    print(f'{id}: EDIT {e}', flush=True); continue
                t = sh('cargo test --offline 2>&1', root)
                m = re.search(r'test result: (\w+)\. (\d+) passed; (\d+) failed', t.stdout)
                if not m or m.group(1) != 'ok' or int(m.group(2)) < 10:
                    print(f'{id}: TESTS {m and m.group(0)}\n' + t.stdout[-2500:], flush=True); continue
                r = sh(['bash', os.path.join(ex, 'demo.sh')], root)
                if r.returncode in (0, 3):
                    print(f'{id}: DEMO rc={r.returncode} WITH PATCH\n' + (r.stdout + r.stderr)[-2000:], flush=True); continue
                diff = sh(['git', 'diff'], root).stdout
                n = original(diff)
                if n == 0:
                    print(f'{id}: NO ORIGINAL LINE CHANGED', flush=True); continue
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                for f in ('main.rs', 'demo.sh'):
                    shutil.copy(os.path.join(ex, f), os.path.join(out, f))
                json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
                print(f'{id}: kept ({n} original lines, demo rc={r.returncode}: {(r.stdout + r.stderr).strip()[-160:]!r})', flush=True)
            finally:
                shutil.rmtree(scratch)
        if '--nocheck' in opts:
            continue
        run_check(id, prop)

def run_check(id, prop, seed='1'):
    out = os.path.join(VERIF, 'seeded', id)
    a = sh(['git', 'apply', os.path.join(out, 'patch.diff')], REPO)
    if a.returncode:
        print(f'{id}: DOES NOT APPLY {a.stderr}', flush=True); return None
    try:
        import time
        t0 = time.time()
        c = subprocess.run(['python3', 'check.py', prop, 'quick'], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER='quick'))
        viol = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        sig = ''
        rp = os.path.join(VERIF, 'evidence', f'{prop}.replay.txt')
        if c.returncode == 1 and os.path.exists(rp):
            sig = ' '.join(sorted(set(re.findall(r'^\[([^\]]*)\]', open(rp).read(), re.M))))[:200]
        verdict = 'CAUGHT' if c.returncode == 1 and viol else 'MISSED' if c.returncode == 0 else f'RC={c.returncode}'
        print(f'   {id}: {prop} {verdict} {time.time() - t0:.0f}s {sig}', flush=True)
        if c.returncode not in (0, 1): print((c.stdout + c.stderr)[-1500:])
        return verdict
    finally:
        sh(['git', 'checkout', '--', '.'], REPO)

if __name__ == '__main__':
    main()
