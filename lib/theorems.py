"""Generators of theorems (problems whose conjecture follows from the axioms, by construction or by z3)."""
import random
import fol, probs
from fol import *


def nnf(f, pos=True):
    f = core(f)
    k = f[0]
    if k == 'not': return nnf(f[1], not pos)
    if k == 'true': return TRUE if pos else FALSE
    if k == 'false': return FALSE if pos else TRUE
    if k in ('p', 'eq'): return f if pos else Not(f)
    if k in ('and', 'or'):
        return ((k if pos else ('or' if k == 'and' else 'and')), tuple(nnf(x, pos) for x in f[1]))
    if k == 'imp': return Or(nnf(f[1], False), nnf(f[2])) if pos else And(nnf(f[1]), nnf(f[2], False))
    if k == 'iff':
        if pos: return And(Or(nnf(f[1], False), nnf(f[2])), Or(nnf(f[1]), nnf(f[2], False)))
        return And(Or(nnf(f[1]), nnf(f[2])), Or(nnf(f[1], False), nnf(f[2], False)))
    return ((k if pos else ('ex' if k == 'all' else 'all')), f[1], nnf(f[2], pos))


def subst(f, s):
    """capture is avoided by always renaming bound variables first (see fresh)"""
    k = f[0]
    def t(x):
        if x[0] == 'v': return s.get(x[1], x)
        return ('f', x[1], tuple(t(a) for a in x[2]))
    if k == 'p': return ('p', f[1], tuple(t(a) for a in f[2]))
    if k in ('eq', 'neq'): return (k, t(f[1]), t(f[2]))
    if k in ('true', 'false'): return f
    if k == 'not': return Not(subst(f[1], s))
    if k in ('and', 'or'): return (k, tuple(subst(x, s) for x in f[1]))
    if k in ('all', 'ex'): return (k, f[1], subst(f[2], {v: x for v, x in s.items() if v not in f[1]}))
    return (k, subst(f[1], s), subst(f[2], s))


def fresh(f, ctr=None):
    """alpha-renames so that every quantifier binds different variables"""
    ctr = ctr if ctr is not None else [0]
    k = f[0]
    if k in ('p', 'eq', 'neq', 'true', 'false'): return f
    if k == 'not': return Not(fresh(f[1], ctr))
    if k in ('and', 'or'): return (k, tuple(fresh(x, ctr) for x in f[1]))
    if k in ('all', 'ex'):
        m = {}
        for v in f[1]:
            ctr[0] += 1
            m[v] = 'V%d' % ctr[0]
        return (k, tuple(m[v] for v in f[1]), subst(fresh(f[2], ctr), {v: V(n) for v, n in m.items()}))
    return (k, fresh(f[1], ctr), fresh(f[2], ctr))


def sugared(f, r):
    """an equivalent formula written with other connectives"""
    f = core(f)
    k = f[0]
    if k in ('p', 'true', 'false'): return f if r.random() < 0.9 else Not(Not(f))
    if k == 'eq': return ('eq', f[2], f[1]) if r.random() < 0.5 else f
    if k == 'not':
        g = f[1]
        if g[0] == 'eq': return ('neq', g[1], g[2])
        if g[0] == 'iff' and r.random() < 0.7: return ('xor', sugared(g[1], r), sugared(g[2], r))
        if g[0] in ('and', 'or') and len(g[1]) == 2 and r.random() < 0.6:
            return ('nand' if g[0] == 'and' else 'nor', sugared(g[1][0], r), sugared(g[1][1], r))
        if g[0] in ('all', 'ex') and r.random() < 0.6: return ('ex' if g[0] == 'all' else 'all', g[1], sugared(Not(g[2]), r))
        return Not(sugared(g, r))
    if k in ('and', 'or'):
        xs = [sugared(x, r) for x in f[1]]
        r.shuffle(xs)
        c = r.random()
        if c < 0.25: return Not((('or' if k == 'and' else 'and'), tuple(Not(x) for x in xs)))
        if c < 0.45 and len(xs) > 2: return (k, (xs[0], (k, tuple(xs[1:]))))
        return (k, tuple(xs))
    if k == 'imp':
        a, b = sugared(f[1], r), sugared(f[2], r)
        return r.choice([Imp(a, b), ('rimp', b, a), Or(Not(a), b), Imp(Not(b), Not(a))])
    if k == 'iff':
        a, b = sugared(f[1], r), sugared(f[2], r)
        return r.choice([Iff(b, a), And(Imp(a, b), Imp(b, a)), Not(('xor', a, b))])
    b = sugared(f[2], r)
    if len(f[1]) > 1 and r.random() < 0.5: return (k, f[1][:1], (k, f[1][1:], b)) if len(set(f[1])) == len(f[1]) else (k, f[1], b)
    return (k, f[1], b) if r.random() < 0.7 else Not(('ex' if k == 'all' else 'all', f[1], Not(b)))


def equivalence(r, eq=0.0, depth=None):
    """a formula and an equivalent one"""
    preds, funs = r.choice(probs.SIGS)
    g = Gen(r, preds, funs, eq=eq, depth=depth or r.choice([2, 3, 3]), shadow=0.1)
    while True:
        f = g.form()
        if 2 <= size(f) <= 9: break
    h = sugared(f, r)
    if r.random() < 0.4: h = nnf(h)
    if r.random() < 0.5: h = fresh(h)
    c = r.random()
    if c < 0.4: return [], Iff(f, h)
    if c < 0.7: return [f], h
    if c < 0.85: return [h], f
    return [f, Not(h)], None


def fol_taut(f): return f[0] == 'iff' or (f[0] == 'not' and f[1][0] == 'iff')


def repeated(r):
    """an equivalence, or a propositionally valid formula, over very few subformulas, so that rules meet the same formula twice"""
    X = fol.V('X') if hasattr(fol, 'V') else ('v', 'X')
    pool = [('p', 'q', ()), ('p', 'p', (('f', 'a', ()),)), ('all', ('X',), ('imp', ('p', 'p', (('f', 'f', (X,)),)), ('p', 'p', (X,)))),
            ('ex', ('X',), ('and', (('p', 'p', (X,)), ('not', ('p', 'r', (X, X))))))]
    pool = r.sample(pool, r.choice([1, 2, 2]))
    def gen(d):
        if d == 0 or r.random() < 0.15: return r.choice(pool)
        k = r.choice(['not', 'not', 'and', 'or', 'imp', 'iff', 'iff'])
        if k == 'not': return ('not', gen(d - 1))
        a = gen(d - 1)
        b = a if r.random() < 0.3 else gen(d - 1)
        if r.random() < 0.3: a = ('not', a)
        if r.random() < 0.3: b = ('not', b)
        return (k, (a, b)) if k in ('and', 'or') else (k, a, b)
    f = gen(r.choice([1, 2, 2, 3]))
    while size(f) > 8: f = gen(2)
    h = sugared(f, r)
    if r.random() < 0.3: h = nnf(h)
    noise = []
    while r.random() < 0.6:
        x = r.choice(pool)
        noise.append(r.choice([('not', ('iff', x, ('not', x))), ('not', ('iff', ('not', x), x)), ('not', ('iff', ('not', x), x)), ('iff', x, x), ('or', (x, x)), ('not', ('and', (x, x))), ('imp', ('not', x), x)]))
        if not fol_taut(noise[-1]): noise[-1] = ('or', (noise[-1], ('not', x))) if r.random() < 0.5 else ('or', (('not', noise[-1]), noise[-1]))
    c = r.random()
    if c < 0.4: return noise, Iff(f, h)
    if c < 0.7: return noise + [f], h
    return [h] + noise, f


def chain(r, eq=0.0):
    """Horn clauses and a goal obtained by forward chaining"""
    funs = dict(a=0, b=0, c=0, f=1, g=2)
    preds = dict(p=1, q=1, r=2, s=2)
    consts = [F('a'), F('b'), F('c')]
    def gt(d=1):
        if d and r.random() < 0.35: return F('f', gt(d - 1))
        return r.choice(consts)
    facts = []
    for _ in range(r.choice([2, 3])):
        n = r.choice(list(preds)); facts.append(P(n, *[gt() for _ in range(preds[n])]))
    ax = list(facts)
    cur = list(facts)
    rules = []
    for _ in range(r.choice([2, 3, 4, 5])):
        body = r.sample(cur, min(len(cur), r.choice([1, 1, 2])))
        m = {}
        def gen(t):
            """generalise the terms of the body to variables"""
            if t not in m and r.random() < 0.7 and len(m) < 4: m[t] = V('XYZW'[len(m)])
            if t in m: return m[t]
            if t[2]: return ('f', t[1], tuple(gen(x) for x in t[2]))
            return t
        b2 = [('p', x[1], tuple(gen(t) for t in x[2])) for x in body]
        n = r.choice(list(preds))
        inv = {v[1]: t for t, v in m.items()}
        args = []
        for _ in range(preds[n]):
            c = r.random()
            if m and c < 0.6: x = r.choice(list(m.values()))
            elif m and c < 0.75: x = F('f', r.choice(list(m.values())))
            else: x = r.choice(consts)
            args.append(x)
        head = P(n, *args)
        inst = subst(head, inv)
        used = [v[1] for v in m.values() if v[1] in repr((b2, head))]
        vs = sorted({v for v in used})
        rule = Imp(And(*b2) if len(b2) > 1 else b2[0], head)
        if r.random() < 0.3: rule = Or(*([Not(x) for x in b2] + [head]))
        ax.append(All(vs, rule) if vs else rule)
        cur.append(inst)
    goal = cur[-1]
    if r.random() < 0.4:
        args = list(goal[2]); i = r.randrange(len(args)); args[i] = V('X')
        goal = Ex('X', P(goal[1], *args))
    r.shuffle(ax)
    return ax, goal


def ground(r, eq=0.0):
    """random ground problem decided by z3; only the theorems are returned"""
    preds, funs = r.choice([(dict(p=0, q=0, t=0, u=0), {}), (dict(p=1, q=1), dict(a=0, b=0)), (dict(p=1, q=2), dict(a=0, b=0, f=1))])
    for _ in range(200):
        g = Gen(r, preds, funs, eq=eq if funs else 0, depth=r.choice([2, 3]), qprob=0)
        fs = [g.form() for _ in range(r.choice([1, 2, 3, 4]))]
        if sum(map(size, fs)) > 22: continue
        if fol.z3_unsat(fs, 300): return fs, None


def rand_unsat(r, eq=0.0):
    for _ in range(400):
        preds, funs = r.choice(probs.SIGS)
        g = Gen(r, preds, funs, eq=eq, depth=r.choice([2, 3]), qprob=0.45, tdepth=1)
        fs = [g.form() for _ in range(r.choice([2, 3, 4]))]
        if sum(map(size, fs)) > 20 or any(size(f) < 2 for f in fs): continue
        if probs.find_model(fs, (1,), 200): continue
        if fol.z3_unsat(fs, 300):
            if r.random() < 0.5: return fs, None
            return fs[:-1], Not(fs[-1])
    return None


def eqchain(r):
    """ground/universal equations and an instance that follows by replacing equals"""
    consts = [F(c) for c in 'abcd']
    f = lambda t: F('f', t)
    def gt(d):
        if d and r.random() < 0.5: return f(gt(d - 1))
        return r.choice(consts)
    def pairs(t):
        yield t
        for x in t[2]: yield from pairs(x)
    def repl(t, s, u):
        if t == s: return u
        return ('f', t[1], tuple(repl(x, s, u) for x in t[2]))
    eqs = [(gt(2), gt(1)) for _ in range(r.choice([1, 2, 3]))]
    t0 = t = gt(3)
    for _ in range(r.choice([1, 2, 3])):
        l, rr = r.choice(eqs)
        if r.random() < 0.5: l, rr = rr, l
        t = repl(t, l, rr)
    ax = [Eq(l, rr) for l, rr in eqs]
    c = r.random()
    if c < 0.4: return ax, Eq(t0, t)
    if c < 0.8: return ax + [P('p', t0)], P('p', t)
    return ax + [All('X', Or(P('p', V('X')), P('q', V('X')))), Not(P('p', t0))], P('q', t)


def mutant_theorems(r, lib, count):
    out = []
    names = sorted(lib)
    for _ in range(count * 8):
        if len(out) >= count: break
        ax, cj = lib[r.choice(names)]
        fs = list(ax) + ([cj] if cj is not None else [])
        i = r.randrange(len(fs))
        m = list(probs.mutants(fs[i], r, 1))
        if not m: continue
        fs[i] = m[0]
        ax2, cj2 = (fs[:-1], fs[-1]) if cj is not None else (fs, None)
        neg = ax2 + ([Not(cj2)] if cj2 is not None else [])
        if fol.z3_unsat(neg, 300): out.append((ax2, cj2))
    return out
