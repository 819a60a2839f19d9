"""Verdict oracles shared by the soundness checks: goeland is run on problems whose status is known
from outside it, and its RES/SZS lines are compared with that status."""
import random
import fol, probs, run as R


def args_of(mode): return mode.split()


def write(ctx, name, text):
    p = ctx.tmp('p', name)
    with open(p, 'w') as f: f.write(text)
    return p


def countermodel_cases(ctx, r, eq, n_planted, n_clauses, n_near, lib, n_wide=0, n_witness=0):
    cases = []
    for _ in range(n_planted): cases.append(('planted',) + probs.planted(r, eq if r.random() < 0.8 else eq / 3))
    for _ in range(n_clauses): cases.append(('clauses',) + probs.planted_clauses(r, eq))
    for _ in range(n_wide): cases.append(('wide',) + probs.planted_wide(r, eq / 3))
    for _ in range(n_witness): cases.append(('witness',) + probs.planted_witness(r, eq / 2))
    for x in probs.near_misses(r, lib, n_near): cases.append(('near',) + x)
    return cases


def soundness(ctx, modes, cases, theorems, timeout=0.6, limits=(2, 3, 4, 5), per_case=2):
    """No run may answer VALID on a problem with a countermodel."""
    r = random.Random(ctx.seed * 7919 + 17)
    g = ctx.b.goeland()
    jobs = []
    for i, (kind, ax, cj, M) in enumerate(cases):
        txt = fol.problem(ax, cj)
        path = write(ctx, 'c%d.p' % i, txt)
        ms = r.sample(modes, min(per_case, len(modes)))
        if kind == 'witness': ms = [m for m in ms if 'preinner' not in m][:1] + [m for m in modes if m == '-preinner']
        if kind == 'wide': ms = ['-flatten'] + [m for m in ms[:1] if m != '-flatten']
        for mode in ms:
            lim = ['-one_step', '-l', str(r.choice(limits))] if r.random() < 0.9 else []
            jobs.append((kind, txt, path, args_of(mode) + lim, mode, M, ax, cj))
    def go(j):
        if ctx.left() < 15: return None
        return R.run(g, j[3] + [j[2]], timeout=timeout)
    for j, o in zip(jobs, R.pmap(go, jobs)):
        kind, txt, path, args, mode, M, ax, cj = j
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev()
        v = o.verdict()
        ctx.count('%s %s' % (kind, v))
        if v == 'TIMEOUT': ctx.inconclusive += 1
        elif v == 'NOT VALID': ctx.nt((mode, txt))
        if v == 'VALID' or any(s[0] in ('Theorem', 'Unsatisfiable') for s in o.szs()):
            assert all(M.ev(f) for f in ax) and (cj is None or not M.ev(cj))
            ctx.violation('unsound:%s:%s' % (mode, R.digest(txt)),
                          'goeland %s answers VALID on a problem with a countermodel: %s' % (' '.join(args), M),
                          'goeland %s problem.p, where problem.p is\n\n%s\ncountermodel (all axioms true, conjecture false): %s\n\noutput:\n%s' % (
                              ' '.join(args), txt, M, o.out[-3000:]))
        elif len(ctx.samples) < 4 and v == 'NOT VALID' and kind != 'planted':
            ctx.sample({'kind': kind, 'args': args, 'problem': txt, 'countermodel': str(M), 'verdict': v})
    # the same monitor on theorems: shows that VALID answers are observable at all
    jobs = []
    for name, (ax, cj) in sorted(theorems.items()):
        txt = fol.problem(ax, cj)
        path = write(ctx, 'th_%s.p' % name, txt)
        for mode in modes: jobs.append((name, mode, path, txt))
    for (name, mode, path, txt), o in zip(jobs, R.pmap(lambda j: R.run(g, args_of(j[1]) + [j[2]], timeout=3) if ctx.left() > 10 else None, jobs)):
        if o is None: continue
        ctx.ev(); ctx.count('theorem ' + o.verdict())
        if o.verdict() == 'VALID': ctx.nt((mode, txt))
