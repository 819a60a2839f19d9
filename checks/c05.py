"""Theorems that the fair search reaches within milliseconds are proved, in every mode that proves them."""
import json, os, random, time
import run as R
from harness import VERIF
from verdicts import write

CORPUS = os.path.join(VERIF, 'corpus', 'theorems.json')


def check(ctx):
    ctx.rule = ('corpus of theorems (classical, random z3-refuted, equivalences, Horn chains, equational), each with the modes in which it is proved in '
                'milliseconds whatever the schedule; it must be answered VALID (Theorem/Unsatisfiable). Non-trivial: a proved (mode, problem) pair.')
    r = random.Random(ctx.seed + 5000)
    g = ctx.b.goeland()
    jobs = []
    for x in json.load(open(CORPUS)):
        path = write(ctx, '%s_%s.p' % (x['name'], R.digest(x['text'])[:4]), x['text'])
        ms = list(x['modes'])
        if ctx.quick: ms = ([ms[0]] if '' in ms and r.random() < 0.5 else []) + r.sample(ms, min(2, len(ms)))
        for m in sorted(set(ms)): jobs.append((x, m, path))
    r.shuffle(jobs)
    bad = []
    def go(j, t=8):
        if ctx.left() < 20 or len(bad) > 12: return None
        o = R.run(g, j[1].split() + [j[2]], timeout=t)
        if o.verdict() != 'VALID': bad.append(j)
        return o
    redo = []
    for j, o in zip(jobs, R.pmap(go, jobs)):
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev(); ctx.count(o.verdict()); ctx.count('family ' + j[0]['family'])
        if o.verdict() == 'VALID':
            ctx.nt((j[1], j[0]['text'])); ctx.sample({'mode': j[1], 'problem': j[0]['text'], 'wall_s': round(o.wall, 3)}, 3)
        else: redo.append((j, o))
    # a failure counts only when it repeats with the machine to itself and far more time
    for j, o in redo[:6]:
        outs = [R.run(g, j[1].split() + [j[2]], timeout=30) for _ in range(2)]
        if any(x.verdict() == 'VALID' for x in outs):
            if all(x.verdict() != 'NOT VALID' for x in outs + [o]): ctx.inconclusive += 1; continue
        vs = [x.verdict() for x in [o] + outs]
        ctx.violation('unproved:%s:%s' % (j[1], j[0]['name']), 'theorem %s is not proved by goeland %s: %s (calibrated: proved in < 0.5 s in every run)' % (j[0]['name'], j[1], vs),
                      'goeland %s problem.p\n\n%s\n\n%s\n%s' % (j[1], j[0]['text'], o.out[-2000:], o.err[-1500:]))
        if len(ctx.violations) >= 3: break
