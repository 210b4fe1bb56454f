#!/usr/bin/env python3
"""Systematic small changes: apply one mutant at a time to a scratch copy of the crate and run the quick checks on it
from a scratch copy of /verif, until one reports a violation.  A development aid; no check uses it.
usage: mutate.py WORKDIR OUT.jsonl COUNT SEED [FILE...]
       mutate.py WORKDIR OUT.jsonl redo IN.jsonl [CHECK...]    the survivors of an earlier run again"""
import json, os, random, re, shutil, subprocess, sys
redo = sys.argv[3] == 'redo'
work, out, count, seed = sys.argv[1], sys.argv[2], 0 if redo else int(sys.argv[3]), 0 if redo else int(sys.argv[4])
only = [] if redo else sys.argv[5:]
REL = {
 'axis': 'C01 C06', 'bbox': 'C12 C06 C01 C31 C07 C37', 'bxdf_lambertian_reflection': 'C19 C18 C20 C25', 'bxdf_microfacet_reflection': 'C29 C19 C39 C18 C21 C20',
 'bxdf_microfacet_transmission': 'C29 C19 C39 C18 C21 C20', 'bxdf_specular_reflection': 'C22 C19 C20', 'bxdf_specular_transmission': 'C22 C19 C20',
 'camera': 'C08 C27 C33', 'common': 'C06 C10 C12 C22 C29 C04 C09 C13 C28 C03 C18 C37', 'container_kdtree': 'C01 C02 C06 C24 C27 C34 C36', 'container_simple': 'C01 C02 C06', 'film': 'C11 C12 C13 C15 C14 C16 C17 C35',
 'filter': 'C11 C12', 'fresnel': 'C22 C29 C20 C21', 'integrator': 'C15 C26 C25 C16 C17 C14 C27 C10 C35', 'interaction': 'C05 C04 C24 C25 C26 C31',
 'light': 'C23 C24 C25 C31 C02', 'material_glass': 'C28 C22 C29 C19 C20', 'material_lambertian_reflection': 'C28 C20 C19', 'material_metal': 'C28 C22 C29 C20', 'material_mirror': 'C28 C22 C20',
 'material_plastic': 'C28 C29 C22 C20 C19', 'matrix': 'C07 C08 C37', 'microfacet': 'C29 C39 C18 C21 C19', 'ray': 'C01 C05 C07 C03', 'reflection': 'C19 C39 C18 C22 C29 C21 C20',
 'sampler': 'C10 C09', 'sampler_halton': 'C09 C10 C16', 'sampler_random': 'C10 C15', 'sampling': 'C18 C23 C10 C25 C29', 'scene': 'C31 C24', 'shape': 'C23 C06 C31', 'shape_sphere': 'C03 C04 C02 C05 C06 C23',
 'shape_triangle': 'C03 C04 C02 C05 C06 C23 C31 C34', 'spectrum': 'C25 C13 C22 C29 C11 C26 C20 C37', 'texture': 'C28', 'transform': 'C07 C08 C06', 'vector': 'C07 C03 C04 C06 C08 C11 C12 C37', 'vector_macro': 'C07 C03 C04 C06 C12 C11 C22 C37', 'api': '', 'lib': '', 'material': '', 'container': ''}
ALL = ['C%02d' % i for i in range(1, 40)]
def ops(line):
    r = []
    def sub(pat, rep, name):
        for m in re.finditer(pat, line):
            new = line[:m.start()] + m.expand(rep) + line[m.end():]
            if new != line: r.append((name, new))
    sub(r' < ', ' <= ', 'lt'); sub(r' <= ', ' < ', 'le'); sub(r' > ', ' >= ', 'gt'); sub(r' >= ', ' > ', 'ge')
    sub(r' < ', ' > ', 'lt-gt'); sub(r' > ', ' < ', 'gt-lt')
    sub(r' == ', ' != ', 'eq'); sub(r' != ', ' == ', 'ne'); sub(r' && ', ' || ', 'and'); sub(r' \|\| ', ' && ', 'or')
    sub(r' \+ ', ' - ', 'add'); sub(r' - ', ' + ', 'sub'); sub(r' \* ', ' / ', 'mul'); sub(r' / ', ' * ', 'div')
    sub(r' \+= ', ' -= ', 'addas'); sub(r' -= ', ' += ', 'subas'); sub(r' \*= ', ' /= ', 'mulas'); sub(r' \+= ', ' = ', 'addset'); sub(r' \*= ', ' = ', 'mulset')
    sub(r'!(?=[a-z(])', '', 'not'); sub(r'\.min\(', '.max(', 'min'); sub(r'\.max\(', '.min(', 'max')
    sub(r'\.abs\(\)', '', 'abs'); sub(r'(?<=[ (,])-(?=[a-z(])', '', 'neg'); sub(r'\.floor\(\)', '.ceil()', 'floor'); sub(r'\.ceil\(\)', '.floor()', 'ceil')
    sub(r'\btrue\b', 'false', 'true'); sub(r'\bfalse\b', 'true', 'false')
    sub(r'(?<![\w.])0\.(?![\w.])', '1.', 'zero'); sub(r'(?<![\w.])1\.(?![\w.])', '2.', 'one'); sub(r'(?<![\w.])2\.(?![\w.])', '3.', 'two')
    sub(r'(?<![\w.])0(?![\w.])', '1', 'i0'); sub(r'(?<![\w.])1(?![\w.])', '2', 'i1'); sub(r'(?<![\w.])2(?![\w.])', '1', 'i2')
    sub(r'\.x\b(?!\()', '.y', 'x'); sub(r'\.y\b(?!\()', '.z', 'y'); sub(r'\.z\b(?!\()', '.x', 'z'); sub(r'\.y\b(?!\()', '.x', 'y2')
    sub(r'\bsin\b', 'cos', 'sin'); sub(r'\bcos\b', 'sin', 'cos')
    m = re.match(r'(\s*)((?:else )?if )([^{]*[^{ ]) \{\s*$', line)
    if m and ' let ' not in line: r += [('if-true', '%s%strue || (%s) {\n' % (m[1], m[2], m[3])), ('if-false', '%s%sfalse && (%s) {\n' % (m[1], m[2], m[3]))]
    if re.match(r'\s*[a-z_][\w.\[\]()*]*( [-+*/]?= |\().*;\s*$', line) and not re.match(r'\s*(let|return|use|mod|pub)\b', line): r.append(('drop', '//' + line))
    if re.match(r'\s*(continue|break);', line): r.append(('drop-jump', '//' + line))
    return r
rng = random.Random(seed)
src = work + '/orig/src'   # a frozen copy of the committed tree
shutil.rmtree(work + '/orig', True); os.makedirs(work + '/orig')
subprocess.check_call('git -C /repo archive HEAD | tar xf - -C %s/orig' % work, shell=True)
if os.path.exists('/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', work + '/orig')
muts = []
for f in sorted(os.listdir(src)):
    base = f[:-3]
    if base in ('lib', 'api', 'material', 'container'): continue
    if only and base not in only: continue
    lines = open(os.path.join(src, f)).readlines()
    if base == 'sampler_halton': skip = set(i for i, l in enumerate(lines) if re.match(r'\s*[\d, ]+$', l) or 'static' in l or 'const' in l or '=> radical_inverse(' in l)
    else: skip = set()
    fm = []
    hook = False
    for i, l in enumerate(lines):
        if 'cfg(test)' in l: break
        if i in skip or l.strip().startswith(('//', '#', 'use ', 'assert', 'debug_assert', 'pub use', 'impl', 'fn ', 'pub fn', 'mod ')) or 'pt_verif' in l: continue
        if i and 'pt_verif' in ''.join(lines[max(0, i - 3):i]): continue
        for n, new in ops(l): fm.append((f, i, n, new))
    rng.shuffle(fm)
    muts.append(fm)
# spread over the files in proportion to the square root of what they offer
todo = []
w = [len(x) ** 0.6 for x in muts]
if redo:
    todo = [(d['file'], d['line'] - 1, d['op'], d['new']) for d in map(json.loads, open(sys.argv[4])) if d['verdict'] == 'survived']
else:
  for fm, x in zip(muts, w): todo += fm[:max(1, round(count * x / sum(w)))]
if not redo: rng.shuffle(todo)
print(sum(map(len, muts)), 'possible,', len(todo), 'to run', flush=True)
repo, ver = work + '/repo', work + '/verif'
os.makedirs(work, exist_ok=True)
shutil.rmtree(repo, True); shutil.copytree(work + '/orig', repo)
if os.path.exists(ver): subprocess.call('find %s -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +' % ver, shell=True)
os.makedirs(ver, exist_ok=True)
subprocess.check_call('cd /verif && tar cf - --exclude=./target --exclude=./evidence --exclude=./.git --exclude=./seeded --exclude=./harness/target . | tar xf - -C %s' % ver, shell=True)
subprocess.check_call("grep -rl '\"/repo\"' %s --include=*.toml --include=*.py --include=*.sh | xargs sed -i 's#\"/repo\"#\"%s\"#g'" % (ver, repo), shell=True)
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['file'], d['line'], d['op'], d['new']))
for f, i, n, new in todo:
    if n.startswith('drop') and redo and not new.startswith('//'): new = '//' + new
    if (f, i + 1, n, new.strip()) in done: continue
    base = f[:-3]
    p = os.path.join(repo, 'src', f)
    orig = open(os.path.join(src, f)).read()
    lines = orig.splitlines(True)
    old = lines[i]; lines[i] = new if new.endswith('\n') else new + '\n'
    open(p, 'w').write(''.join(lines))
    rec = {'file': f, 'line': i + 1, 'op': n, 'old': old.strip(), 'new': new.strip(), 'runs': []}
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--target-dir', work + '/t'], cwd=repo, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode != 0: rec['verdict'] = 'no-build'
    else:
        order = sys.argv[5:] if redo and sys.argv[5:] else REL.get(base, '').split()
        order += [c for c in ALL if c not in order] if os.environ.get('MUT_ALL') else []
        rec['verdict'] = 'survived'
        for c in order:
            try:
                r = subprocess.run(['python3', 'check.py', c, 'quick'], cwd=ver, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, text=True, errors='replace')
                rc = r.returncode
            except subprocess.TimeoutExpired: rc = 'timeout'
            rec['runs'].append([c, rc])
            if rc == 1 and 'VIOLATION' in r.stdout: rec['verdict'] = c; break
    open(p, 'w').write(orig)
    open(out, 'a').write(json.dumps(rec) + '\n')
    print(rec['verdict'], f, i + 1, n, new.strip()[:100], rec['runs'][-3:], flush=True)
