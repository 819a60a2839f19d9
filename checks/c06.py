"""C06: many-sorted and polymorphic problems: only theorems are proved."""
import random
import typed as T, run as R
from verdicts import write

MODES = ['', '', '-inner', '-preinner', '-eagereq', '-completeness', '-sateq', '-noeq', '-flatten', '-increq', '-proof', '-dmt']

BARE = '''tff(s_ty, type, s: $tType).
tff(t_ty, type, t: $tType).
tff(b_ty, type, b: t).
tff(c_ty, type, c: t).
tff(p_ty, type, p: t > $o).
tff(one, axiom, ! [X: s, Y: s] : X = Y).
tff(goal, conjecture, p(b) => p(c)).
'''


def case(r):
    poly = r.random() < 0.55
    sig = T.Sig(r, poly)
    M = T.Model(r, sig)
    # an equation with a bare variable on one side and several sorts: recorded finding, see DESIGN.md
    g = T.Gen(r, sig, eq=r.choice([0, 0, 0.2, 0.4]), bare=len(sig.sorts) == 1 and not poly, depth=r.choice([1, 2, 2, 3]), qprob=r.choice([0.2, 0.4]), poly=poly)
    def one(want, lim=10):
        for _ in range(200):
            f = g.statement()
            if T.size(f) > lim or not f: continue
            v = M.ev(f)
            if v == want: return f
            if f[0] != 'tall' : return ('not', f)
            if not want: continue
        return ('true',) if want else ('false',)
    ax = [one(True) for _ in range(r.choice([0, 1, 2, 3, 4]))]
    cj = one(False)
    if cj[0] == 'tall' and r.random() < 0.5: pass
    if r.random() < 0.2: ax.append(('not', cj) if cj[0] != 'tall' else ('true',)); cj = None if cj[0] != 'tall' else cj
    assert all(M.ev(f) for f in ax) and (cj is None or not M.ev(cj))
    return sig, M, ax, cj, poly


def clauses(r):
    """polymorphic clauses whose type variables all have the same names, and unit clauses at given types"""
    sig = T.Sig(r, r.random() < 0.5)
    for n in list(sig.pred): del sig.pred[n]
    names = ['u%d' % i for i in range(r.choice([3, 4, 5]))]
    eq = r.choice([0, 0, 0.3, 0.5])
    for n in names:
        sig.pred[n] = r.choice([(['A'], [], None), (['A'], [], None), (['A'], [('tv', 'A')], None), (['A', 'B'], [], None)] +
                               ([(['A'], [sig.sorts[0]], None)] * 3 + [(['A', 'B'], [sig.sorts[0], ('tv', 'A')], None)] if eq else []))
    M = T.Model(r, sig)
    g = T.Gen(r, sig)
    def lit(tvs, env, only=None):
        for _ in range(30):
            if r.random() < eq * (0.5 if tvs else 1):
                ty = r.choice([sig.sorts[0], ('tv', r.choice(tvs)) if tvs else sig.types(r, []), sig.types(r, tvs)])
                ts = [g.term(ty, env, tvs, 1, True) for _ in '12']
                if None in ts or ts[0] == ts[1]: continue
                f = ('eq', ty, ts[0], ts[1])
                return ('not', f) if r.random() < 0.3 else f
            n = r.choice(names)
            tv, args, _ = sig.pred[n]
            tys = [('tv', r.choice(tvs)) if tvs and r.random() < 0.8 else sig.types(r, tvs) for _ in tv]
            ts = [g.term(T.tsub(a, dict(zip(tv, tys))), env, tvs, 1) for a in args]
            if None not in ts:
                f = ('p', n, tuple(tys), tuple(ts))
                return ('not', f) if r.random() < 0.5 else f
        return ('true',)
    def clause():
        tvs = ['A', 'B'][:r.choice([1, 1, 2])]
        env = [('X', ('tv', 'A'))] if r.random() < 0.5 else []
        f = ('or', [lit(tvs, env) for _ in range(r.choice([2, 2, 3]))])
        return ('tall', tvs, ('all', env, f) if env else f)
    def unit():
        f = lit([], [])
        return f if M.ev(f) else f[1] if f[0] == 'not' else ('not', f)
    ax = [unit() for _ in range(r.choice([2, 3, 4, 5]))]
    for _ in range(60):
        f = clause()
        if M.ev(f): ax.append(f)
        if len(ax) > 9: break
    r.shuffle(ax)
    cj = None
    if r.random() < 0.5: cj = ('not', unit())
    assert all(M.ev(f) for f in ax) and (cj is None or not M.ev(cj))
    return sig, M, ax, cj, True


def theorem(r):
    """the conjecture is an axiom, written again with other bound variables and one of the axioms strengthened"""
    poly = r.random() < 0.55
    sig = T.Sig(r, poly)
    g = T.Gen(r, sig, eq=0, depth=r.choice([1, 2]), qprob=0.4, poly=poly)
    f = g.statement()
    h = ('or', [f, g.form()]) if f[0] != 'tall' else f
    return sig, [f], h


def check(ctx):
    ctx.rule = ('random many-sorted and polymorphic problems (type constructors, symbols with type arguments, axioms quantified over types, equality) that a random finite model over a finite '
                'universe of types refutes; any VALID is wrong. Typed tautological consequences show that VALID is observable. Non-trivial: a distinct (mode, problem) answered.')
    ctx.assumptions = ['equations with a bare variable on one side are only generated with one sort: see the recorded finding of C06 in DESIGN.md']
    r = random.Random(ctx.seed + 6000)
    g = ctx.b.goeland()
    jobs = []
    for i in range(ctx.n(3500, 40000)):
        if ctx.left() < ctx.budget * 0.6: break
        sig, M, ax, cj, poly = clauses(r) if i % 4 == 3 else case(r)
        text = T.problem(sig, ax, cj, r)
        path = write(ctx, 't%d.p' % i, text)
        for mode in r.sample(MODES, 2): jobs.append((text, path, mode, ['-one_step', '-l', str(r.choice([2, 3, 4]))], M, poly))
    for i in range(ctx.n(300, 2000)):
        sig, ax, cj = theorem(r)
        text = T.problem(sig, ax, cj, r)
        jobs.append((text, write(ctx, 'th%d.p' % i, text), r.choice(MODES), [], None, None))
    for mode in ('', '-sateq'):
        o = R.run(g, mode.split() + ['-one_step', '-l', '3', write(ctx, 'bare.p', BARE)], timeout=10)
        if o.verdict() == 'VALID': ctx.violation('bare-variable-equation', 'goeland %s answers VALID on a problem whose only equation is about another sort' % mode, BARE)
    def go(j): return R.run(g, j[2].split() + j[3] + [j[1]], timeout=1.0) if ctx.left() > 15 else None
    for j, o in zip(jobs, R.pmap(go, jobs)):
        text, path, mode, lim, M, poly = j
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev(); v = o.verdict()
        ctx.count('%s %s' % ('theorem' if M is None else 'polymorphic' if poly else 'many-sorted', v))
        if v not in ('VALID', 'NOT VALID'): ctx.inconclusive += 1; continue
        if M is None:
            if v == 'VALID': ctx.nt((mode, text))
            continue
        if v == 'VALID':
            ctx.violation('unsound:%s:%s' % (mode, R.digest(text)), 'goeland %s answers VALID on a typed problem with a countermodel: %s' % (' '.join(mode.split() + lim), M),
                          'goeland %s problem.p, where problem.p is\n\n%s\ncountermodel: %s\n\n%s' % (' '.join(mode.split() + lim), text, M, o.out[-3000:]))
        else:
            ctx.nt((mode, text)); ctx.sample({'mode': mode, 'problem': text, 'countermodel': str(M)[:600], 'verdict': v}, 3)
