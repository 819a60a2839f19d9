"""Problem families with known status.  planted(): non-theorems, with the finite countermodel they were
built from.  THEOREMS / NONTHEOREMS: classical problems.  mutate(): neighbours of a theorem."""
import random, itertools
import fol
from fol import *


def random_model(r, n, preds, funs):
    pred = {}
    for p, k in preds.items():
        dens = r.choice([0.3, 0.5, 0.7])
        pred[p] = {t for t in itertools.product(range(n), repeat=k) if r.random() < dens}
    fun = {f: {t: r.randrange(n) for t in itertools.product(range(n), repeat=k)} for f, k in funs.items()}
    return Model(n, pred, fun)


SIGS = [
    (dict(p=1, q=1), dict(a=0, b=0)),
    (dict(p=1, q=1, r=2, s=0), dict(a=0, b=0, f=1)),
    (dict(p=2, q=2), dict(a=0, f=1)),
    (dict(p=1, r=2), dict(a=0, b=0, g=2)),
    (dict(p=2), dict(a=0, b=0, c=0)),
    (dict(p=3, q=1), dict(a=0, f=1)),
    (dict(p=0, q=0, t=0, u=1), dict(a=0)),
    (dict(p=2, q=1), dict(a=0, g=2, h=3)),
]


def force(r, f, M, want):
    """A formula with value `want` in M, close to f."""
    if M.ev(f) == want: return f
    c = r.random()
    if c < 0.35:
        for g in mutants(f, r, 6):
            if M.ev(g) == want: return g
    return f[1] if f[0] == 'not' else Not(f)


def planted(r, eq=0.0, sig=None, depth=None, size_=None, maxsize=26):
    """axioms, conjecture (or None), model in which all axioms hold and the conjecture fails"""
    preds, funs = sig or r.choice(SIGS)
    n = size_ or r.choice([1, 2, 2, 3])
    M = random_model(r, n, preds, funs)
    g = Gen(r, preds, funs, eq=eq, depth=depth or r.choice([2, 3, 3, 4]), qprob=r.choice([0.2, 0.4, 0.5]), tdepth=r.choice([1, 2]))
    def one(want):
        while True:
            f = g.form()
            if size(f) <= maxsize: return force(r, f, M, want)
    ax = [one(True) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    cj = one(False) if (not ax or r.random() < 0.85) else None
    assert all(M.ev(f) for f in ax) and (cj is None or not M.ev(cj))
    return ax, cj, M


def planted_clauses(r, eq=0.0, sig=None):
    """Horn-ish/clausal problems: many small universally quantified disjunctions that hold in a model and a
    goal that does not: they force several instances, shared rigid variables and branching."""
    preds, funs = sig or r.choice(SIGS[:6])
    preds = {p: k for p, k in preds.items() if k > 0} or dict(p=1)
    n = r.choice([2, 2, 3])
    M = random_model(r, n, preds, funs)
    g = Gen(r, preds, funs, eq=eq, tb=0.0, tdepth=r.choice([1, 1, 2]))
    def lit(vs):
        a = g.atom(vs)
        return Not(a) if r.random() < 0.5 else a
    ax = []
    for _ in range(r.choice([2, 3, 4, 5])):
        for _t in range(30):
            vs = r.choice([(), ('X',), ('X',), ('X', 'Y')])
            m = r.choice([1, 1, 2, 2, 3])
            body = Or(*[lit(vs) for _ in range(m)]) if m > 1 else lit(vs)
            f = All(vs, body) if vs else body
            if r.random() < 0.15 and vs: f = Ex(vs, body)
            if M.ev(f): ax.append(f); break
    for _t in range(60):
        vs = r.choice([(), ('X',), ('X', 'Y')])
        m = r.choice([1, 1, 2, 3])
        ls = [lit(vs) for _ in range(m)]
        body = (And(*ls) if r.random() < 0.6 else Or(*ls)) if m > 1 else ls[0]
        f = (r.choice(['ex', 'all']), vs, body) if vs else body
        if not M.ev(f): return ax, f, M
    return ax, FALSE, M


def planted_wide(r, eq=0.0):
    """Few wide disjunctions over shared rigid variables and many units: each disjunct can be closed on its own, by
    instances that differ from one disjunct to the next, so soundness rests on the branches agreeing."""
    preds = r.choice([dict(p=1), dict(p=1, q=1), dict(p=1, q=1, s=2), dict(p=2), dict(p=2, q=1), dict(p=1, q=2)])
    funs = r.choice([dict(a=0, b=0), dict(a=0, b=0, c=0), dict(a=0, b=0, f=1), dict(a=0, b=0, c=0, f=1)])
    n = r.choice([2, 2, 3, 3, 4])
    M = random_model(r, n, preds, funs)
    g = Gen(r, preds, funs, eq=eq, tb=0.0, tdepth=1)
    def lit(vs):
        a = g.atom(vs)
        return Not(a) if r.random() < 0.5 else a
    ax = []
    for _ in range(r.choice([1, 1, 2])):
        for _t in range(40):
            vs = r.choice([('X',), ('X',), ('X', 'Y'), ('X', 'Y', 'Z')])
            ls = [lit(vs) for _ in range(r.choice([3, 3, 4, 5]))]
            if r.random() < 0.4: ls.append(r.choice(ls)); r.shuffle(ls)
            f = All(vs, Or(*ls))
            if M.ev(f): ax.append(f); break
    for _ in range(r.choice([2, 3, 4, 5])):
        for _t in range(40):
            vs = r.choice([(), (), (), ('Y',)])
            f = lit(vs)
            f = All(vs, f) if vs else f
            if M.ev(f): ax.append(f); break
    r.shuffle(ax)
    if r.random() < 0.5:
        for _t in range(40):
            vs = r.choice([(), ('X',)])
            ls = [lit(vs) for _ in range(r.choice([1, 3, 4]))]
            body = And(*ls) if len(ls) > 1 else ls[0]
            f = ('ex', vs, body) if vs else body
            if not M.ev(f): return ax, f, M
    return ax, None, M


def planted_witness(r, eq=0.0):
    """Existential statements of the same shape, whose variables are permuted or merged, and a goal that holds when one
    witness serves for two of them or when a witness does not depend on the variables before it."""
    preds = r.choice([dict(p=2), dict(p=2), dict(p=2, q=1), dict(p=1, q=2), dict(p=3), dict(p=2, q=2)])
    funs = r.choice([dict(), dict(f=1), dict(f=1, a=0), dict(g=2)])
    n = r.choice([2, 2, 3])
    M = random_model(r, n, preds, funs)
    g = Gen(r, preds, funs, eq=eq, tb=0.0, tdepth=1)
    def sub(t, m):
        if t[0] == 'v': return ('v', m.get(t[1], t[1]))
        return t[:2] + (tuple(sub(a, m) for a in t[2]),)
    def ren(f, m):
        k = f[0]
        if k == 'p': return f[:2] + (tuple(sub(a, m) for a in f[2]),)
        if k in ('eq', 'neq'): return (k, sub(f[1], m), sub(f[2], m))
        if k == 'not': return Not(ren(f[1], m))
        return (k, tuple(ren(x, m) for x in f[1]))
    for _ in range(200):
        vs = r.choice([('X', 'Y'), ('X', 'Y'), ('X', 'Y', 'Z')])
        qs = ['ex'] + [r.choice(['all', 'all', 'ex']) for _ in vs[1:]]
        outer = r.random() < 0.4
        def body():
            ls = [g.atom(vs + (('U',) if outer else ())) for _ in range(r.choice([1, 1, 2]))]
            ls = [Not(l) if r.random() < 0.4 else l for l in ls]
            return ls[0] if len(ls) == 1 else r.choice([And, Or])(*ls)
        b1 = body()
        b2 = ren(b1, {v: r.choice(vs) for v in vs}) if r.random() < 0.8 else body()
        def close(f, k):
            for q, v in reversed(list(zip(qs, vs))[k:]): f = (q, (v,), f)
            return f
        out = (lambda f: All('U', f)) if outer else (lambda f: f)
        neg = (lambda f: Not(Not(f))) if r.random() < 0.2 else (lambda f: f)
        ax = [out(neg(close(b1, 0))), out(close(b2, 0))]
        c = r.random()
        if c < 0.6: cj = out(Ex('X', And(close(b1, 1), close(b2, 1))))
        elif outer: cj = Ex('X', All('U', close(b1, 1)))
        else: cj = ('all', (vs[1],), Ex('X', b1)) if len(vs) == 2 and qs[1] == 'ex' else Ex('X', And(close(b2, 1), close(b1, 1)))
        if r.random() < 0.3: ax = ax[::-1]
        if r.random() < 0.2: ax = [And(*ax)]
        for _t in range(12):
            M = random_model(r, n, preds, funs)
            if all(M.ev(f) for f in ax) and not M.ev(cj): return ax, cj, M
    return [TRUE], FALSE, M


# ---------------------------------------------------------------- mutations
def positions(f, path=()):
    yield path, f
    k = f[0]
    if k == 'not': yield from positions(f[1], path + (1,))
    elif k in ('and', 'or'):
        for i, x in enumerate(f[1]): yield from positions(x, path + (1, i))
    elif k in ('all', 'ex'): yield from positions(f[2], path + (2,))
    elif k in ('imp', 'iff', 'rimp', 'xor', 'nor', 'nand'):
        yield from positions(f[1], path + (1,)); yield from positions(f[2], path + (2,))


def replace_at(f, path, g):
    if not path: return g
    l = list(f)
    if len(path) > 1 and isinstance(f[path[0]], tuple) and f[0] in ('and', 'or'):
        xs = list(f[1]); xs[path[1]] = replace_at(xs[path[1]], path[2:], g); l[1] = tuple(xs)
    else: l[path[0]] = replace_at(f[path[0]], path[1:], g)
    return tuple(l)


def scope(f, path):
    """variables bound above path"""
    vs = []
    i = 0
    cur = f
    while i < len(path):
        if cur[0] in ('all', 'ex'): vs += list(cur[1])
        if cur[0] in ('and', 'or'): cur = cur[1][path[i + 1]]; i += 2
        else: cur = cur[path[i]]; i += 1
    return vs


def mutants(f, r, k):
    ps = list(positions(f))
    for _ in range(k):
        path, g = r.choice(ps)
        vs = scope(f, path)
        kind = g[0]
        h = None
        if kind in ('all', 'ex'):
            c = r.random()
            if c < 0.5: h = ('ex' if kind == 'all' else 'all', g[1], g[2])
            elif g[2][0] in ('all', 'ex'): h = (g[2][0], g[2][1], (kind, g[1], g[2][2]))
            else: h = (kind, g[1], Not(g[2]))
        elif kind in ('and', 'or'):
            c = r.random()
            if c < 0.5: h = ('or' if kind == 'and' else 'and', g[1])
            elif len(g[1]) > 2: h = (kind, g[1][1:])
            else: h = g[1][r.randrange(len(g[1]))]
        elif kind == 'imp': h = r.choice([Imp(g[2], g[1]), Iff(g[1], g[2]), Or(g[1], g[2])])
        elif kind == 'iff': h = r.choice([Imp(g[1], g[2]), Imp(g[2], g[1]), ('xor', g[1], g[2])])
        elif kind == 'not': h = g[1]
        elif kind in ('p', 'eq', 'neq'):
            args = list(g[2]) if kind == 'p' else [g[1], g[2]]
            if args and r.random() < 0.75:
                i = r.randrange(len(args))
                cand = [V(v) for v in vs] + [a for a in args if a[0] == 'f' and not a[2]] + list(args)
                args[i] = r.choice(cand) if cand else args[i]
                h = P(g[1], *args) if kind == 'p' else (kind, args[0], args[1])
            else: h = Not(g)
        else: h = r.choice([TRUE, FALSE])
        if h != g: yield replace_at(f, path, h)


# ---------------------------------------------------------------- classical problems
def _lib():
    x, y, z, u, w = V('X'), V('Y'), V('Z'), V('U'), V('W')
    p = lambda *a: P('p', *a)
    q = lambda *a: P('q', *a)
    rr = lambda *a: P('r', *a)
    s = lambda *a: P('s', *a)
    t = lambda *a: P('t', *a)
    a, b, c = F('a'), F('b'), F('c')
    f = lambda v: F('f', v)
    L = {}
    L['pel1'] = ([], Iff(Imp(p(), q()), Imp(Not(q()), Not(p()))))
    L['pel2'] = ([], Iff(Not(Not(p())), p()))
    L['pel3'] = ([], Imp(Not(Imp(p(), q())), Imp(q(), p())))
    L['pel5'] = ([], Imp(Imp(Or(p(), q()), Or(p(), rr())), Or(p(), Imp(q(), rr()))))
    L['pel8'] = ([], Imp(Imp(Imp(p(), q()), p()), p()))
    L['pel9'] = ([], Imp(And(Or(p(), q()), Or(Not(p()), q()), Or(p(), Not(q()))), Not(Or(Not(p()), Not(q())))))
    L['pel10'] = ([Imp(q(), rr()), Imp(rr(), And(p(), q())), Imp(p(), Or(q(), rr()))], Iff(p(), q()))
    L['pel12'] = ([], Iff(Iff(Iff(p(), q()), rr()), Iff(p(), Iff(q(), rr()))))
    L['pel17'] = ([], Iff(Imp(And(p(), Imp(q(), rr())), s()), And(Or(Not(p()), q(), s()), Or(Not(p()), Not(rr()), s()))))
    L['pel18'] = ([], Ex('Y', All('X', Imp(p(y), p(x)))))
    L['pel19'] = ([], Ex('X', All(('Y', 'Z'), Imp(Imp(p(y), q(z)), Imp(p(x), q(x))))))
    L['pel20'] = ([], Imp(All(('X', 'Y'), Ex('Z', All('W', Imp(And(p(x), q(y)), And(rr(z), s(w)))))) , TRUE))
    L['pel20b'] = ([All(('X', 'Y'), Ex('Z', All('W', Imp(And(p(x), q(y)), And(rr(z), s(w))))))],
                   Imp(Ex(('X', 'Y'), And(p(x), q(y))), Ex('Z', rr(z))))
    L['pel21'] = ([Ex('X', Imp(t(), p(x))), Ex('X', Imp(p(x), t()))], Ex('X', Iff(t(), p(x))))
    L['pel22'] = ([], Imp(All('X', Iff(t(), p(x))), Iff(t(), All('X', p(x)))))
    L['pel24'] = ([Not(Ex('X', And(s(x), q(x)))), All('X', Imp(p(x), Or(q(x), rr(x)))), Imp(Not(Ex('X', p(x))), Ex('X', q(x))),
                   All('X', Imp(Or(q(x), rr(x)), s(x)))], Ex('X', And(p(x), rr(x))))
    L['pel25'] = ([Ex('X', p(x)), All('X', Imp(q(x), And(Not(s(x)), rr(x)))), All('X', Imp(p(x), And(s(x), q(x))))],
                  Ex('X', And(q(x), p(x))))
    L['pel27'] = ([Ex('X', And(p(x), Not(q(x)))), All('X', Imp(p(x), rr(x))), All('X', Imp(And(s(x), t(x)), p(x))),
                   Imp(Ex('X', And(rr(x), Not(q(x)))), All('X', Imp(s(x), Not(rr(x)))))], All('X', Imp(s(x), Not(t(x)))))
    L['pel28'] = ([Imp(All('X', p(x)), All('X', q(x))), Imp(All('X', Or(q(x), rr(x))), Ex('X', And(q(x), s(x)))),
                   Imp(Ex('X', s(x)), All('X', Imp(t(x), u_(x))))], TRUE) if False else ([], Or(p(), Not(p())))
    L['pel29'] = ([Ex('X', p(x)), Ex('X', q(x))],
                  Iff(And(All('X', Imp(p(x), rr(x))), All('X', Imp(q(x), s(x)))), All(('X', 'Y'), Imp(And(p(x), q(y)), And(rr(x), s(y))))))
    L['pel30'] = ([All('X', Imp(Or(p(x), q(x)), Not(rr(x)))), All('X', Imp(Imp(q(x), Not(s(x))), And(p(x), rr(x))))], All('X', s(x)))
    L['pel32'] = ([All('X', Imp(And(p(x), Or(q(x), rr(x))), s(x))), All('X', Imp(And(s(x), rr(x)), t(x))), All('X', Imp(P('k', x), rr(x)))],
                  All('X', Imp(And(p(x), P('k', x)), t(x))))
    L['pel35'] = ([], Ex(('X', 'Y'), Imp(p(x, y), All(('X', 'Y'), p(x, y)))))
    L['pel36'] = ([All('X', Ex('Y', p(x, y))), All('X', Ex('Y', q(x, y))),
                   All(('X', 'Y'), Imp(Or(p(x, y), q(x, y)), All('Z', Imp(Or(p(y, z), q(y, z)), rr(x, z)))))], All('X', Ex('Y', rr(x, y))))
    L['pel39'] = ([], Not(Ex('X', All('Y', Iff(p(y, x), Not(p(y, y)))))))
    L['pel40'] = ([], Imp(Ex('Y', All('X', Iff(p(x, y), p(x, x)))), Not(All('X', Ex('Y', All('Z', Iff(p(z, y), Not(p(z, x)))))))))
    L['pel41'] = ([All('Z', Ex('Y', All('X', Iff(p(x, y), And(p(x, z), Not(p(x, x)))))))], Not(Ex('Z', All('X', p(x, z)))))
    L['pel44'] = ([All('X', Imp(p(x), And(Ex('Y', And(q(y), rr(x, y))), Ex('Y', And(q(y), Not(rr(x, y))))))),
                   Ex('X', And(s(x), All('Y', Imp(q(y), rr(x, y)))))], Ex('X', And(s(x), Not(p(x)))))
    L['shift'] = ([Ex('Y', All('X', rr(x, y)))], All('X', Ex('Y', rr(x, y))))
    L['drinker2'] = ([], Ex('X', Imp(p(x), All('Y', p(y)))))
    L['succ2'] = ([p(a), All('X', Imp(p(x), p(f(x))))], p(f(f(f(a)))))
    L['trans'] = ([All(('X', 'Y', 'Z'), Imp(And(rr(x, y), rr(y, z)), rr(x, z))), rr(a, b), rr(b, c)], rr(a, c))
    L['two_inst'] = ([All('X', Or(p(x), q(x))), Not(p(a)), Not(q(b))], And(q(a), p(b)))
    L['case'] = ([Or(p(a), p(b))], Ex('X', p(x)))
    L['case2'] = ([All('X', Or(p(x), q(x))), All('X', Imp(p(x), rr(x))), All('X', Imp(q(x), rr(x)))], rr(a))
    L['unsat_ax'] = ([All('X', p(x)), Ex('X', Not(p(x)))], None)
    L['distr'] = ([], Iff(All('X', And(p(x), q(x))), And(All('X', p(x)), All('X', q(x)))))
    L['exor'] = ([], Iff(Ex('X', Or(p(x), q(x))), Or(Ex('X', p(x)), Ex('X', q(x)))))
    return {k: (list(v[0]), v[1]) for k, v in L.items()}


THEOREMS = _lib()


def _eqlib():
    x, y, z = V('X'), V('Y'), V('Z')
    p = lambda *a: P('p', *a)
    q = lambda *a: P('q', *a)
    a, b, c, d = F('a'), F('b'), F('c'), F('d')
    f = lambda v: F('f', v)
    g = lambda u, v: F('g', u, v)
    L = {}
    L['refl'] = ([], Eq(a, a))
    L['reflx'] = ([], All('X', Eq(x, x)))
    L['sym'] = ([Eq(a, b)], Eq(b, a))
    L['trans'] = ([Eq(a, b), Eq(b, c)], Eq(a, c))
    L['cong'] = ([Eq(a, b)], Eq(f(a), f(b)))
    L['cong2'] = ([Eq(a, b), Eq(c, d)], Eq(g(a, c), g(b, d)))
    L['leib'] = ([Eq(a, b), p(a)], p(b))
    L['leibf'] = ([Eq(f(a), b), p(f(f(a)))], p(f(b)))
    L['fff'] = ([Eq(f(f(f(a))), a), Eq(f(f(a)), a)], Eq(f(a), a))
    L['alleq'] = ([All('X', Eq(f(x), x)), p(f(f(a)))], p(a))
    L['exeq'] = ([], Ex('X', Eq(x, a)))
    L['neq'] = ([p(a), Not(p(b))], ('neq', a, b))
    L['caseq'] = ([Or(Eq(a, b), Eq(a, c)), p(b), p(c)], p(a))
    L['ident'] = ([All('X', Eq(g(x, a), x)), All('X', Eq(g(b, x), x))], Eq(a, b))
    L['dom1'] = ([All(('X', 'Y'), Eq(x, y))], Eq(a, b))
    L['injinv'] = ([All('X', Eq(F('h', f(x)), x)), Eq(f(a), f(b))], Eq(a, b))
    L['uniq'] = ([Ex('X', And(p(x), All('Y', Imp(p(y), Eq(y, x))))), p(a), p(b)], Eq(a, b))
    L['repl'] = ([All(('X', 'Y'), Imp(Eq(x, y), Eq(f(x), y)))], Eq(f(a), a))
    return {k: (list(v[0]), v[1]) for k, v in L.items()}


EQ_THEOREMS = _eqlib()


def near_misses(r, lib, count):
    """mutants of theorems that have a finite countermodel, with that model"""
    out = []
    names = sorted(lib)
    tries = 0
    while len(out) < count and tries < count * 6:
        tries += 1
        ax, cj = lib[r.choice(names)]
        fs = list(ax) + ([cj] if cj is not None else [])
        i = r.randrange(len(fs))
        m = list(mutants(fs[i], r, 1))
        if not m: continue
        fs[i] = m[0]
        if cj is not None: ax2, cj2 = fs[:-1], fs[-1]
        else: ax2, cj2 = fs, None
        if r.random() < 0.25 and len(ax2) > 1: del ax2[r.randrange(len(ax2))]
        M = find_model(ax2 + ([Not(cj2)] if cj2 is not None else []), (1, 2, 3), 800)
        if M: out.append((ax2, cj2, M))
    return out
