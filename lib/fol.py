"""First-order formulas, TPTP printing, random generation, exact evaluation and
finite (counter)model search.  Everything here is independent of Goeland."""
import random, itertools

# terms:    ('v', name) | ('f', name, (args...))
# formulas: ('p', name, (args...)) | ('eq', s, t) | ('not', f) | ('and', (fs...)) | ('or', (fs...))
#           | ('imp', a, b) | ('iff', a, b) | ('all', (vars...), f) | ('ex', (vars...), f) | ('true',) | ('false',)
#           printing-only variants: ('rimp', a, b) a <= b, ('xor', a, b), ('nor', a, b), ('nand', a, b), ('neq', s, t)

TRUE, FALSE = ('true',), ('false',)


def V(n): return ('v', n)
def F(n, *a): return ('f', n, tuple(a))
def P(n, *a): return ('p', n, tuple(a))
def Not(f): return ('not', f)
def And(*fs): return ('and', tuple(fs))
def Or(*fs): return ('or', tuple(fs))
def Imp(a, b): return ('imp', a, b)
def Iff(a, b): return ('iff', a, b)
def All(vs, f): return ('all', tuple(vs), f)
def Ex(vs, f): return ('ex', tuple(vs), f)
def Eq(s, t): return ('eq', s, t)


def core(f):
    """Removes printing-only connectives."""
    k = f[0]
    if k in ('p', 'eq', 'true', 'false'): return f
    if k == 'neq': return ('not', ('eq', f[1], f[2]))
    if k == 'not': return ('not', core(f[1]))
    if k in ('and', 'or'): return (k, tuple(core(x) for x in f[1]))
    if k in ('imp', 'iff'): return (k, core(f[1]), core(f[2]))
    if k == 'rimp': return ('imp', core(f[2]), core(f[1]))
    if k == 'xor': return ('not', ('iff', core(f[1]), core(f[2])))
    if k == 'nor': return ('not', ('or', (core(f[1]), core(f[2]))))
    if k == 'nand': return ('not', ('and', (core(f[1]), core(f[2]))))
    if k in ('all', 'ex'): return (k, f[1], core(f[2]))
    raise ValueError(k)


def term_str(t):
    if t[0] == 'v': return t[1]
    if not t[2]: return t[1]
    return t[1] + '(' + ','.join(map(term_str, t[2])) + ')'


_BIN = {'imp': '=>', 'iff': '<=>', 'rimp': '<=', 'xor': '<~>', 'nor': '~|', 'nand': '~&'}


def fstr(f):
    """Fully parenthesised TPTP."""
    k = f[0]
    if k == 'true': return '$true'
    if k == 'false': return '$false'
    if k == 'p': return f[1] if not f[2] else f[1] + '(' + ','.join(map(term_str, f[2])) + ')'
    if k == 'eq': return '(%s = %s)' % (term_str(f[1]), term_str(f[2]))
    if k == 'neq': return '(%s != %s)' % (term_str(f[1]), term_str(f[2]))
    if k == 'not': return '~ (%s)' % fstr(f[1])
    if k in ('and', 'or'):
        if len(f[1]) == 0: return '$true' if k == 'and' else '$false'
        if len(f[1]) == 1: return fstr(f[1][0])
        return '(' + (' & ' if k == 'and' else ' | ').join(map(fstr, f[1])) + ')'
    if k in _BIN: return '(%s %s %s)' % (fstr(f[1]), _BIN[k], fstr(f[2]))
    if k in ('all', 'ex'):
        return '(%s [%s] : %s)' % ('!' if k == 'all' else '?', ','.join(f[1]), fstr(f[2]))
    raise ValueError(k)


def problem(axioms, conj, extra=''):
    s = extra
    for i, a in enumerate(axioms):
        s += 'fof(ax%d, axiom, %s).\n' % (i, fstr(a))
    if conj is not None:
        s += 'fof(goal, conjecture, %s).\n' % fstr(conj)
    return s


def symbols(fs):
    preds, funs = {}, {}
    def t(x):
        if x[0] == 'f':
            funs[x[1]] = len(x[2])
            for a in x[2]: t(a)
    def g(f):
        k = f[0]
        if k == 'p':
            preds[f[1]] = len(f[2])
            for a in f[2]: t(a)
        elif k in ('eq', 'neq'): t(f[1]); t(f[2])
        elif k == 'not': g(f[1])
        elif k in ('and', 'or'):
            for x in f[1]: g(x)
        elif k in ('all', 'ex'): g(f[2])
        elif k in ('true', 'false'): pass
        else: g(f[1]); g(f[2])
    for f in fs: g(f)
    return preds, funs


# ---------------------------------------------------------------- evaluation
class Model:
    """dom: size; pred[name]: set of tuples; fun[name]: dict tuple -> element"""
    def __init__(self, n, pred, fun): self.n, self.pred, self.fun = n, pred, fun

    def term(self, t, env):
        if t[0] == 'v': return env[t[1]]
        return self.fun[t[1]][tuple(self.term(a, env) for a in t[2])]

    def ev(self, f, env=None):
        env = env or {}
        k = f[0]
        if k == 'true': return True
        if k == 'false': return False
        if k == 'p': return tuple(self.term(a, env) for a in f[2]) in self.pred[f[1]]
        if k == 'eq': return self.term(f[1], env) == self.term(f[2], env)
        if k == 'not': return not self.ev(f[1], env)
        if k == 'and': return all(self.ev(x, env) for x in f[1])
        if k == 'or': return any(self.ev(x, env) for x in f[1])
        if k == 'imp': return (not self.ev(f[1], env)) or self.ev(f[2], env)
        if k == 'iff': return self.ev(f[1], env) == self.ev(f[2], env)
        if k in ('all', 'ex'):
            gen = (self.ev(f[2], {**env, **dict(zip(f[1], vs))})
                   for vs in itertools.product(range(self.n), repeat=len(f[1])))
            return all(gen) if k == 'all' else any(gen)
        return self.ev(core(f), env)

    def __str__(self):
        return 'domain=%d pred=%s fun=%s' % (self.n, {k: sorted(v) for k, v in self.pred.items()}, self.fun)


def find_model(fs, sizes=(1, 2, 3), timeout_ms=4000):
    """A finite model of all formulas (re-evaluated naively before being returned) or None."""
    import z3
    fs = [core(f) for f in fs]
    preds, funs = symbols(fs)
    for n in sizes:
        if any(n ** a > 64 for a in list(preds.values()) + list(funs.values())): continue
        s = z3.Solver(); s.set('timeout', timeout_ms)
        D = range(n)
        pv = {p: {a: z3.Bool('%s%s' % (p, a)) for a in itertools.product(D, repeat=k)} for p, k in preds.items()}
        fv = {}
        for f, k in funs.items():
            fv[f] = {}
            for a in itertools.product(D, repeat=k):
                bs = [z3.Bool('%s%s=%d' % (f, a, d)) for d in D]
                fv[f][a] = bs
                s.add(z3.Or(bs))
                for i in D:
                    for j in range(i): s.add(z3.Or(z3.Not(bs[i]), z3.Not(bs[j])))
        cache = {}
        def term(t, env):
            """list of (cond, value)"""
            if t[0] == 'v': return [(None, env[t[1]])]
            res = {}
            for combo in itertools.product(*[term(a, env) for a in t[2]]):
                conds = [c for c, _ in combo if c is not None]
                args = tuple(v for _, v in combo)
                for d in D:
                    res.setdefault(d, []).append(z3.And(conds + [fv[t[1]][args][d]]))
            return [(z3.Or(v), d) for d, v in res.items()]
        def enc(f, env):
            k = f[0]
            if k == 'true': return z3.BoolVal(True)
            if k == 'false': return z3.BoolVal(False)
            if k == 'p':
                alts = []
                for combo in itertools.product(*[term(a, env) for a in f[2]]):
                    conds = [c for c, _ in combo if c is not None]
                    alts.append(z3.And(conds + [pv[f[1]][tuple(v for _, v in combo)]]))
                return z3.Or(alts)
            if k == 'eq':
                a, b = term(f[1], env), term(f[2], env)
                return z3.Or([z3.And([c for c in (x[0], y[0]) if c is not None]) for x in a for y in b if x[1] == y[1]])
            if k == 'not': return z3.Not(enc(f[1], env))
            if k == 'and': return z3.And([enc(x, env) for x in f[1]])
            if k == 'or': return z3.Or([enc(x, env) for x in f[1]])
            if k == 'imp': return z3.Implies(enc(f[1], env), enc(f[2], env))
            if k == 'iff': return enc(f[1], env) == enc(f[2], env)
            if k in ('all', 'ex'):
                xs = [enc(f[2], {**env, **dict(zip(f[1], vs))}) for vs in itertools.product(D, repeat=len(f[1]))]
                return z3.And(xs) if k == 'all' else z3.Or(xs)
            raise ValueError(k)
        for f in fs: s.add(enc(f, {}))
        if s.check() == z3.sat:
            m = s.model()
            pred = {p: {a for a, b in tab.items() if z3.is_true(m.eval(b, True))} for p, tab in pv.items()}
            fun = {}
            ok = True
            for f, tab in fv.items():
                fun[f] = {}
                for a, bs in tab.items():
                    vals = [d for d in D if z3.is_true(m.eval(bs[d], True))]
                    if len(vals) != 1: ok = False; break
                    fun[f][a] = vals[0]
            if not ok: continue
            M = Model(n, pred, fun)
            if all(M.ev(f) for f in fs): return M
            raise RuntimeError('model finder and evaluator disagree')
    return None


def z3_unsat(fs, timeout_ms=2000):
    """True when z3 refutes the conjunction over an arbitrary non-empty domain."""
    return z3_status(fs, timeout_ms) == 'unsat'


def z3_status(fs, timeout_ms=2000):
    """'sat', 'unsat' or 'unknown'"""
    import z3
    fs = [core(f) for f in fs]
    U = z3.DeclareSort('U')
    preds, funs = symbols(fs)
    pd = {p: z3.Function('p_' + p, *([U] * k + [z3.BoolSort()])) if k else z3.Bool('p_' + p) for p, k in preds.items()}
    fd = {f: z3.Function('f_' + f, *([U] * (k + 1))) if k else z3.Const('f_' + f, U) for f, k in funs.items()}
    def term(t, env):
        if t[0] == 'v': return env[t[1]]
        return fd[t[1]](*[term(a, env) for a in t[2]]) if t[2] else fd[t[1]]
    ctr = itertools.count()
    def enc(f, env):
        k = f[0]
        if k == 'true': return z3.BoolVal(True)
        if k == 'false': return z3.BoolVal(False)
        if k == 'p': return pd[f[1]](*[term(a, env) for a in f[2]]) if f[2] else pd[f[1]]
        if k == 'eq': return term(f[1], env) == term(f[2], env)
        if k == 'not': return z3.Not(enc(f[1], env))
        if k == 'and': return z3.And([enc(x, env) for x in f[1]])
        if k == 'or': return z3.Or([enc(x, env) for x in f[1]])
        if k == 'imp': return z3.Implies(enc(f[1], env), enc(f[2], env))
        if k == 'iff': return enc(f[1], env) == enc(f[2], env)
        vs = [z3.Const('%s_%d' % (v, next(ctr)), U) for v in f[1]]
        b = enc(f[2], {**env, **dict(zip(f[1], vs))})
        return z3.ForAll(vs, b) if k == 'all' else z3.Exists(vs, b)
    s = z3.Solver(); s.set('timeout', timeout_ms); s.set('random_seed', 0)
    for f in fs: s.add(enc(f, {}))
    return str(s.check())


# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, rnd, preds=None, funs=None, eq=0.0, depth=4, qprob=0.35, maxvars=3, sugar=0.15, tb=0.03,
                 shadow=0.15, tdepth=2):
        self.r = rnd
        self.preds = preds if preds is not None else {'p': 1, 'q': 1, 'r': 2, 's': 0}
        self.funs = funs if funs is not None else {'a': 0, 'b': 0, 'f': 1}
        self.eq, self.depth, self.qprob, self.maxvars = eq, depth, qprob, maxvars
        self.sugar, self.tb, self.shadow, self.tdepth = sugar, tb, shadow, tdepth

    def term(self, vs, d=None):
        d = self.tdepth if d is None else d
        r = self.r
        cst = [f for f, k in self.funs.items() if k == 0]
        fn = [f for f, k in self.funs.items() if k > 0]
        if vs and (r.random() < 0.65 or not (cst or fn)): return V(r.choice(vs))
        if fn and d > 0 and (r.random() < 0.4 or not cst):
            f = r.choice(fn)
            return F(f, *[self.term(vs, d - 1) for _ in range(self.funs[f])])
        if cst: return F(r.choice(cst))
        return V(r.choice(vs)) if vs else F('a')

    def atom(self, vs):
        r = self.r
        if r.random() < self.tb: return r.choice([TRUE, FALSE])
        if self.eq and r.random() < self.eq:
            k = 'neq' if r.random() < 0.3 else 'eq'
            return (k, self.term(vs), self.term(vs))
        p = r.choice(list(self.preds))
        return P(p, *[self.term(vs) for _ in range(self.preds[p])])

    def form(self, vs=(), d=None):
        d = self.depth if d is None else d
        r = self.r
        vs = list(vs)
        if d <= 0 or r.random() < 0.08: return self.atom(vs)
        if r.random() < self.qprob and (len(set(vs)) < self.maxvars or r.random() < self.shadow):
            k = r.choice(['all', 'ex'])
            n = 1 if r.random() < 0.75 else 2
            new = []
            for _ in range(n):
                pool = ['X', 'Y', 'Z', 'W']
                free = [x for x in pool if x not in vs and x not in new]
                if vs and r.random() < self.shadow: cand = [x for x in vs if x not in new] or free
                else: cand = free or [x for x in pool if x not in new]
                new.append(r.choice(cand))
            return (k, tuple(new), self.form([v for v in vs if v not in new] + new, d - 1))
        x = r.random()
        if x < 0.2: return Not(self.form(vs, d - 1))
        if x < 0.42: return ('and', tuple(self.form(vs, d - 1) for _ in range(r.choice([2, 2, 3]))))
        if x < 0.64: return ('or', tuple(self.form(vs, d - 1) for _ in range(r.choice([2, 2, 3]))))
        if r.random() < self.sugar:
            k = r.choice(['rimp', 'xor', 'nor', 'nand'])
        else:
            k = 'imp' if x < 0.85 else 'iff'
        return (k, self.form(vs, d - 1), self.form(vs, d - 1))


def size(f):
    k = f[0]
    if k in ('p', 'eq', 'neq', 'true', 'false'): return 1
    if k == 'not': return 1 + size(f[1])
    if k in ('and', 'or'): return 1 + sum(map(size, f[1]))
    if k in ('all', 'ex'): return 1 + size(f[2])
    return 1 + size(f[1]) + size(f[2])
