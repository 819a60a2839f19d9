#!/usr/bin/env python3
"""Builds corpus/theorems.json: theorems, with the modes in which the current tree proves each of them quickly in
every one of several runs (loaded machine, 1 and 8 processors).  Run by hand; checks only read the result."""
import json, os, random, re, sys, tempfile
VD = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VD + '/lib')
import fol, probs, theorems as T, run as R, build
from fol import *

b = build.Builder()
g = b.goeland()
r = random.Random(20260101)
C = []   # (name, family, text, eq?)
for n, (ax, cj) in sorted(probs.THEOREMS.items()): C.append((n, 'lib', problem(ax, cj), False))
for n, (ax, cj) in sorted(probs.EQ_THEOREMS.items()): C.append((n, 'eqlib', problem(ax, cj), True))
for i in range(160): C.append(('equiv%d' % i, 'equiv', problem(*T.equivalence(r)), False))
for i in range(60): C.append(('eqequiv%d' % i, 'eqequiv', problem(*T.equivalence(r, 0.5)), True))
for i in range(120): C.append(('chain%d' % i, 'chain', problem(*T.chain(r)), False))
for i in range(80): C.append(('ground%d' % i, 'ground', problem(*T.ground(r)), False))
for i in range(60): C.append(('eqground%d' % i, 'eqground', problem(*T.ground(r, 0.5)), True))
for i in range(120):
    x = T.rand_unsat(r)
    if x: C.append(('unsat%d' % i, 'unsat', problem(*x), False))
for i in range(60):
    x = T.rand_unsat(r, 0.5)
    if x: C.append(('equnsat%d' % i, 'equnsat', problem(*x), True))
for i in range(100): C.append(('eqchain%d' % i, 'eqchain', problem(*T.eqchain(r)), True))
for i, x in enumerate(T.mutant_theorems(r, probs.THEOREMS, 120)): C.append(('mut%d' % i, 'mut', problem(*x), False))
for i, x in enumerate(T.mutant_theorems(r, probs.EQ_THEOREMS, 60)): C.append(('eqmut%d' % i, 'eqmut', problem(*x), True))
# the project's own annotated problems
for d in ('devtools/test-suite/basic', 'devtools/test-suite/bugs', '.github/soundness'):
    for f in sorted(os.listdir(os.path.join('/repo', d))):
        if not f.endswith('.p'): continue
        t = open(os.path.join('/repo', d, f)).read()
        if 'include(' in t or 'args' in t[:200]: continue
        if re.search(r'result: VALID', t) or re.search(r'Status *: *(Theorem|Unsatisfiable)', t):
            C.append(('suite-' + f[:-2], 'suite', t, '=' in re.sub(r'[<]?=>|<=|!=', '=', t) and '=' in re.sub(r'<=>|=>|<=', '', t)))
print(len(C), 'candidates')
MODES = ['', '-inner', '-preinner', '-completeness', '-eagereq', '-sateq', '-flatten', '-noeq', '-dmt', '-dmt -polarized', '-dmt -preinner', '-proof', '-vec']
jobs = []
for i, (n, fam, txt, eq) in enumerate(C):
    p = os.path.join(b.dir, 'c%d.p' % i)
    open(p, 'w').write(txt)
    for m in MODES:
        if m == '-noeq' and eq: continue
        jobs.append((i, m, p))
ok = {(i, m): [] for i, m, _ in jobs}
for rnd, (workers, env) in enumerate([(8, {}), (16, {}), (8, {'GOMAXPROCS': '1'}), (8, {'GOMAXPROCS': '2'}), (24, {})]):
    live = [j for j in jobs if all(x is not None for x in ok[j[:2]])]
    def go(j):
        o = R.run(g, j[1].split() + [j[2]], timeout=1.0 if rnd == 0 else 2.0, env=env)
        return (o.verdict(), o.wall)
    for j, (v, w) in zip(live, R.pmap(go, live, workers)):
        if v == 'VALID' and w < 0.5 * (1 if rnd == 0 else 3): ok[j[:2]].append(round(w, 3))
        else:
            ok[j[:2]].append(None)
            if v not in ('VALID', 'TIMEOUT'): print('odd', C[j[0]][0], j[1], v)
    print('round', rnd, 'live', len(live))
out = []
for i, (n, fam, txt, eq) in enumerate(C):
    ms = [m for m in MODES if (i, m) in ok and all(x is not None for x in ok[(i, m)])]
    if ms: out.append({'name': n, 'family': fam, 'eq': eq, 'modes': ms, 'text': txt})
from collections import Counter
print(len(out), Counter(m for x in out for m in x['modes']), Counter(x['family'] for x in out))
json.dump(out, open(VD + '/corpus/theorems.json', 'w'), indent=0)
b.close()
