"""Quantifier-free problems are decided: the verdict is compared with z3's on random ground problems."""
import random
import fol, probs, run as R
from fol import *
from verdicts import write

MODES = ['', '-inner', '-preinner', '-eagereq', '-completeness', '-sateq', '-flatten', '-proof', '-sateq -preinner', '-increq']
SIGS = [(dict(p=0, q=0, t=0, u=0), {}), (dict(p=1, q=1), dict(a=0, b=0)), (dict(p=1, q=2), dict(a=0, b=0, f=1)), (dict(p=2), dict(a=0, b=0, c=0, f=1)),
        (dict(q=3, p=1), dict(a=0, b=0)), (dict(p=1), dict(a=0, g=2))]


def gen(r):
    eq = r.choice([0, 0, 0.3, 0.6, 0.8])
    preds, funs = r.choice(SIGS) if not eq else r.choice(SIGS[1:])
    g = Gen(r, preds, funs, eq=eq, depth=r.choice([1, 2, 2, 3]), qprob=0, tb=0.03, tdepth=2)
    while True:
        fs = [g.form() for _ in range(r.choice([1, 2, 3, 4, 5]))]
        if sum(map(size, fs)) <= (16 if eq else 30): break
    if r.random() < 0.3: return fs, None
    return fs[:-1], fs[-1]


def check(ctx):
    ctx.rule = ('random quantifier-free problems (with and without equality), status computed by z3 (EUF, a decision procedure); the verdict must be '
                'VALID exactly on the theorems. Non-trivial: an answered (mode, problem) pair.')
    r = random.Random(ctx.seed + 4000)
    g = ctx.b.goeland()
    jobs = []
    want = {'unsat': 0, 'sat': 0}
    total = ctx.n(2400, 16000)
    for _ in range(total * 20):
        if sum(want.values()) >= total or ctx.left() < ctx.budget * 0.5: break
        ax, cj = gen(r)
        st = fol.z3_status(ax + ([Not(cj)] if cj is not None else []), 2000)
        if st == 'unknown' or want[st] > total * 0.55: continue
        want[st] += 1
        txt = fol.problem(ax, cj)
        jobs.append((txt, write(ctx, 'g%d.p' % len(jobs), txt), st == 'unsat', r.choice(MODES)))
    ctx.count('theorems', want['unsat']); ctx.count('non-theorems', want['sat'])
    def go(j):
        if ctx.left() < 20: return None
        return R.run(g, j[3].split() + [j[1]], timeout=1.0)
    for (txt, path, un, mode), o in zip(jobs, R.pmap(go, jobs)):
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev(); v = o.verdict()
        ctx.count('%s answered %s' % ('theorem' if un else 'non-theorem', v))
        exp = 'VALID' if un else 'NOT VALID'
        if v in ('VALID', 'NOT VALID'):
            ctx.nt((mode, txt))
            ctx.sample({'problem': txt, 'mode': mode, 'verdict': v}, 3)
            if v != exp:
                ctx.violation('ground:%s:%s' % (mode, R.digest(txt)), 'goeland %s answers %s on a ground problem that z3 decides as %s' % (mode, v, exp),
                              'goeland %s problem.p\n\n%s\n\n%s' % (mode, txt, o.out[-2000:]))
        else: ctx.inconclusive += 1
