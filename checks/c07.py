"""Deduction modulo theory: axioms turned into rewrite rules must not prove more than the axioms say."""
import itertools, random
import fol, probs
from fol import V, F, P, Not, And, Or, Imp, Iff, All
from verdicts import *

MODES = ['-dmt', '-dmt -polarized', '-dmt -presko', '-dmt -polarized -presko', '-dmt -inner', '-dmt -polarized -preinner', '-dmt -eagereq', '-dmt -completeness', '-dmt -polarized -sateq', '-dmt -presko -preinner']


def defined(r, M, name, k, gen, ax):
    """interpret name/k in M by a random definition over what is there already; the axioms define it, in a shape that
    the rewriting may pick up"""
    vs = ['X', 'Y', 'Z'][:k]
    body = gen.form(vs, r.choice([1, 2, 2, 3]))
    n = M.n
    M.pred[name] = {t for t in itertools.product(range(n), repeat=k) if M.ev(body, dict(zip(vs, t)))}
    lhs = P(name, *map(V, vs))
    c = r.random()
    q = lambda f: All(vs, f) if k else f
    if c < 0.35: ax.append(q(Iff(lhs, body)))
    elif c < 0.45: ax.append(q(Iff(body, lhs)))
    elif c < 0.6: ax.append(q(Iff(Not(lhs), Not(body))))
    elif c < 0.7: ax.append(q(Iff(Not(body), Not(lhs))) if r.random() < 0.5 else q(Iff(lhs, Not(Not(body)))))
    elif c < 0.8: ax.append(q(Imp(lhs, body)))
    elif c < 0.9: ax.append(q(Imp(body, lhs)))
    else: ax += [q(Imp(lhs, body)), q(Imp(Not(lhs), Not(body)))]
    return lhs


def case(r, eq):
    preds, funs = r.choice(probs.SIGS[:6])
    n = r.choice([1, 2, 2, 3])
    M = probs.random_model(r, n, preds, funs)
    ax = []
    preds = dict(preds)
    for i in range(r.choice([1, 1, 2, 3])):
        g = fol.Gen(r, preds, funs, eq=eq, depth=3, qprob=r.choice([0.1, 0.3]), tdepth=1)
        k = r.choice([0, 1, 1, 1, 2])
        name = 'd%d' % i
        defined(r, M, name, k, g, ax)
        preds[name] = k
    g = fol.Gen(r, preds, funs, eq=eq, depth=r.choice([2, 3]), qprob=r.choice([0.2, 0.4]), tdepth=r.choice([1, 2]))
    # rules with argument patterns: true in the model by construction
    for _ in range(r.choice([0, 0, 1, 2])):
        p = r.choice([x for x in preds if preds[x]] or list(preds))
        vs = ['X', 'Y']
        atom = P(p, *[g.term(vs, 1) for _ in range(preds[p])])
        body = g.form(vs, r.choice([0, 1, 2]))
        used = [v for v in vs if occurs(v, atom) or occurs(v, body)]
        for f in r.sample([Iff(atom, body), Imp(atom, body), Imp(body, atom), Imp(Not(atom), body), Imp(body, Not(atom)), atom, Not(atom), Iff(Not(atom), body)], 8):
            f = All(used, f) if used else f
            if M.ev(f): ax.append(f); break
    def one(want):
        while True:
            f = g.form()
            if fol.size(f) <= 16: return probs.force(r, f, M, want)
    for _ in range(r.choice([0, 0, 1, 1, 2])): ax.append(one(True))
    cj = one(False)
    r.shuffle(ax)
    if any(fol.size(f) > 30 for f in ax): return case(r, eq)
    return ax, cj, M


def occurs(v, f): return repr(V(v)) in repr(f)


def check(ctx):
    ctx.rule = ('problems whose axioms define predicates (equivalences and implications with an atomic side, negated, with argument patterns), true in a '
                'finite model in which the conjecture is false, run with the axioms turned into rewrite rules. Non-trivial: the run answered, on a distinct (mode, problem).')
    r = random.Random(ctx.seed + 7000)
    cases = [('def',) + case(r, 0.0) for _ in range(ctx.n(900, 9000))] + [('defeq',) + case(r, 0.3) for _ in range(ctx.n(500, 5000))]
    cases += countermodel_cases(ctx, r, 0.3, ctx.n(150, 1500), ctx.n(200, 2000), ctx.n(250, 2000), {**probs.THEOREMS, **probs.EQ_THEOREMS})
    soundness(ctx, MODES, cases, THEOREMS, timeout=0.6)


x, y = V('X'), V('Y')
p = lambda *a: P('p', *a)
q = lambda *a: P('q', *a)
m = lambda *a: P('m', *a)
s = lambda *a: P('s', *a)
a, b = F('a'), F('b')
THEOREMS = {
    'dmt_subset': ([All(['X', 'Y'], Iff(s(x, y), All(['Z'], Imp(m(V('Z'), x), m(V('Z'), y)))))], All(['X'], s(x, x))),
    'dmt_trans': ([All(['X', 'Y'], Iff(s(x, y), All(['Z'], Imp(m(V('Z'), x), m(V('Z'), y)))))], Imp(And(s(a, b), s(b, F('c'))), s(a, F('c')))),
    'dmt_def': ([All(['X'], Iff(p(x), q(x))), q(a)], p(a)),
    'dmt_neg': ([All(['X'], Iff(Not(p(x)), And(q(x), m(x)))), q(a), m(a)], Not(p(a))),
    'dmt_imp': ([All(['X'], Imp(p(x), And(q(x), m(x)))), p(a)], m(a)),
}
