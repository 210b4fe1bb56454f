#!/usr/bin/env python3
"""Edits that keep the behaviour: apply each diff to a scratch copy of the crate and run the quick checks of a scratch copy
of /verif on it; all of them have to stay quiet.  A development aid; no check uses it.
usage: quiet.py WORKDIR DIFF... [-- CHECK...]"""
import os, subprocess, sys, shutil
a = sys.argv[2:]
checks = a[a.index('--') + 1:] if '--' in a else ['C%02d' % i for i in range(1, 40)]
diffs = a[:a.index('--')] if '--' in a else a
work = sys.argv[1]
repo, ver = work + '/repo', work + '/verif'
os.makedirs(work, exist_ok=True)
def copy(src, dst, skip):
    os.makedirs(dst, exist_ok=True)
    subprocess.call(['find', dst, '-mindepth', '1', '-maxdepth', '1', '!', '-name', 'target', '-exec', 'rm', '-rf', '{}', '+'])
    subprocess.check_call('cd %s && tar cf - %s . | tar xf - -C %s' % (src, ' '.join('--exclude=./' + s for s in skip), dst), shell=True)
def export(dst):
    os.makedirs(dst, exist_ok=True)
    subprocess.call(['find', dst, '-mindepth', '1', '-maxdepth', '1', '!', '-name', 'target', '-exec', 'rm', '-rf', '{}', '+'])
    subprocess.check_call('git -C /repo archive HEAD | tar xf - -C %s' % dst, shell=True)
    for x in ['Cargo.lock']:
        if os.path.exists('/repo/' + x) and not os.path.exists(dst + '/' + x): shutil.copy('/repo/' + x, dst)
copy('/verif', ver, ['target', 'evidence', '.git', 'seeded'])
subprocess.check_call("grep -rl '\"/repo\"' %s --include=*.toml --include=*.py --include=*.sh | xargs sed -i 's#\"/repo\"#\"%s\"#g'" % (ver, repo), shell=True)
for d in diffs:
    export(repo)
    if subprocess.call(['patch', '-s', '-p1', '-i', os.path.abspath(d)], cwd=repo): print(d, 'does not apply'); continue
    bad = []
    for c in checks:
        try: r = subprocess.run(['python3', 'check.py', c, 'quick'], cwd=ver, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, text=True, errors='replace'); rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, out = 'timeout', ''
        if rc != 0:
            f = ver + '/evidence/%s.replay.txt' % c
            bad.append(c)
            print('  %s %s rc=%s %s' % (os.path.basename(d), c, rc, [l[:300] for l in open(f) if l.startswith('[')][:2] if os.path.exists(f) and rc == 1 else out[-300:]), flush=True)
    print(os.path.basename(d), 'quiet' if not bad else 'ALARMS ' + ' '.join(bad), flush=True)
