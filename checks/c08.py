"""No data race, deadlock or runtime failure: the -race build of goeland on branching problems."""
import os, random, re
import fol, probs, theorems as T, run as R
from fol import *
from verdicts import write

MODES = ['', '-inner', '-preinner', '-completeness', '-eagereq', '-sateq', '-dmt', '-dmt -polarized', '-dmt -preinner', '-proof', '-otptp', '-orocq -context',
         '-osctptp', '-olp', '-flatten', '-dmt -sateq', '-sateq -inner', '-vec', '-proof -preinner', '-increq', '-dmt -presko', '-dmt -dmt_before_eq', '-core_limit 3']


def races(o):
    """one signature per race report: the two innermost goeland functions involved"""
    out = {}
    for rep in re.findall(r'WARNING: DATA RACE\n(.*?)\n={6,}', o.err + '\n' + o.out, re.S):
        fr = re.findall(r'(?:Write|Read|Previous write|Previous read) at .*?:\n  (\S+?)\(', rep)
        src = re.findall(r'github.com/GoelandProver/Goeland/([\w./*()]+)', rep)
        sig = ' / '.join(sorted(set(x.replace('github.com/GoelandProver/Goeland/', '') for x in fr))) or (src[0] if src else '?')
        out[sig] = rep
    return out


def check(ctx):
    ctx.rule = ('branching problems (disjunctions, shared metavariables, equality, axioms for DMT, proofs) run by the -race build with 2, 4 or 8 processors; the '
                'oracle is the race detector plus the Go runtime (panics, fatal errors, "all goroutines are asleep"). Non-trivial: a run in which at least '
                'four concurrent branches are possible (two or more disjunctions) ended with a verdict.')
    ctx.level = 'exploration'
    r = random.Random(ctx.seed + 8000)
    g = ctx.b.goeland(race=True)
    probl = []
    for n, (ax, cj) in sorted({**probs.THEOREMS, **probs.EQ_THEOREMS}.items()): probl.append(fol.problem(ax, cj))
    for i in range(ctx.n(140, 1500)):
        eq = r.choice([0, 0, 0.4])
        k = r.random()
        if k < 0.3: ax, cj, _ = probs.planted(r, eq)
        elif k < 0.6: ax, cj, _ = probs.planted_clauses(r, eq)
        elif k < 0.75: ax, cj = T.chain(r)
        elif k < 0.85: ax, cj = T.eqchain(r)
        else: ax, cj = T.equivalence(r, eq)
        probl.append(fol.problem(ax, cj))
    jobs = []
    for i, t in enumerate(probl):
        p = write(ctx, 'r%d.p' % i, t)
        for m in r.sample(MODES, 2 if ctx.quick else 4):
            lim = [] if m in ('-vec', '-completeness') or r.random() < 0.25 else ['-one_step', '-l', str(r.choice([2, 3, 4]))]
            jobs.append((t, p, m.split() + lim, r.choice(['2', '4', '8'])))
    def go(j):
        if ctx.left() < 20: return None
        return R.run(g, j[2] + [j[1]], timeout=2.5, env={'GOMAXPROCS': j[3], 'GORACE': 'halt_on_error=0 exitcode=66 atexit_sleep_ms=0'})
    for j, o in zip(jobs, R.pmap(go, jobs, 6)):
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev(); ctx.count(o.verdict() if not o.verdict().startswith('RC') else 'no verdict')
        if o.timeout: ctx.inconclusive += 1
        elif j[0].count('|') + j[0].count('=>') + j[0].count('&') >= 2 and o.res(): ctx.nt((j[0], j[2]))
        cmd = 'GOMAXPROCS=%s goeland(-race) %s problem.p' % (j[3], ' '.join(j[2]))
        for sig, rep in races(o).items():
            ctx.count('race reports')
            ctx.violation('race:' + sig, 'data race between %s (%s)' % (sig, cmd), '%s\n\n%s\n\n%s' % (cmd, j[0], rep[:6000]))
        m = re.search(r'^(fatal error: .*|panic: .*)$', o.err + '\n' + o.out, re.M)
        if m:
            msg = m.group(1)
            kind = 'deadlock' if 'asleep' in msg else 'map' if 'concurrent map' in msg else re.sub(r'0x[0-9a-f]+|\d+', 'N', msg)[:80]
            ctx.violation('runtime:' + kind, '%s: %s' % (cmd, msg), '%s\n\n%s\n\n%s\n%s' % (cmd, j[0], o.out[-1500:], o.err[:6000]))
        if ctx.samples.__len__() < 3 and o.res(): ctx.sample({'cmd': cmd, 'problem': j[0], 'verdict': o.verdict()})
