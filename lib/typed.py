"""Many-sorted and rank-1 polymorphic problems (TFF/TF1): signatures, well-typed random formulas, finite models, TPTP text.

types     ('c', name, args)   |  ('tv', name)
terms     ('v', name, type)   |  ('f', name, tyargs, args, type)
formulas  ('p', name, tyargs, args)  ('eq', type, s, t)  ('not', f)  ('and'|'or', fs)  ('imp'|'iff', f, g)
          ('all'|'ex', [(name, type)], f)   ('tall', [name], f)   ('true',) ('false',)
A symbol: (tyvars, argument types, result type or None for a predicate).
"""
import itertools, random


def C(n, *a): return ('c', n, tuple(a))


def tsub(t, s):
    if t[0] == 'tv': return s.get(t[1], t)
    return ('c', t[1], tuple(tsub(a, s) for a in t[2]))


class Sig:
    def __init__(self, r, poly=False):
        self.cons = {}
        n = r.choice([1, 2, 2, 3])
        self.sorts = [C('s%d' % i) for i in range(n)]
        if r.random() < 0.3: self.sorts.append(C('$i'))
        for s in self.sorts:
            if s[1] != '$i': self.cons[s[1]] = 0
        self.tycons = []
        if poly:
            self.cons['box'] = 1; self.tycons.append(('box', 1))
            if r.random() < 0.4: self.cons['pr'] = 2; self.tycons.append(('pr', 2))
        self.fun, self.pred = {}, {}
        for i, s in enumerate(self.sorts):
            for j in range(r.choice([1, 2])): self.fun['c%d%d' % (i, j)] = ([], [], s)
        S = lambda: r.choice(self.sorts)
        for i in range(r.choice([1, 2, 3])):
            self.fun['f%d' % i] = ([], [S() for _ in range(r.choice([1, 1, 2]))], S())
        for i in range(r.choice([1, 2, 3])):
            self.pred['p%d' % i] = ([], [S() for _ in range(r.choice([0, 1, 1, 2]))], None)
        for i, s in enumerate(self.sorts):
            if r.random() < 0.7: self.pred['q%d' % i] = ([], [s], None)
        if poly:
            A, B = ('tv', 'A'), ('tv', 'B')
            self.fun['mk'] = (['A'], [A], C('box', A))
            if r.random() < 0.7: self.fun['nil'] = (['A'], [], C('box', A))
            if r.random() < 0.5: self.fun['get'] = (['A'], [C('box', A)], A)
            if r.random() < 0.5: self.fun['idf'] = (['A'], [A], A)
            if 'pr' in self.cons: self.fun['mkp'] = (['A', 'B'], [A, B], C('pr', A, B))
            self.pred['pp'] = (['A'], [A], None)
            if r.random() < 0.6: self.pred['mem'] = (['A'], [A, C('box', A)], None)
            if r.random() < 0.3: self.pred['flag'] = (['A'], [], None)

    def types(self, r, tvs, d=1):
        if tvs and r.random() < 0.4: return ('tv', r.choice(tvs))
        if d > 0 and self.tycons and r.random() < 0.35:
            n, k = r.choice(self.tycons)
            return C(n, *[self.types(r, tvs, d - 1) for _ in range(k)])
        return r.choice(self.sorts)

    def decls(self, r=None):
        out = []
        for n, k in self.cons.items():
            out.append('tff(%s_ty, type, %s: %s).' % (n, n, '$tType' if k == 0 else '%s > $tType' % ('$tType' if k == 1 else '(' + ' * '.join(['$tType'] * k) + ')')))
        syms = []
        for d in (self.fun, self.pred):
            for n, (tv, args, res) in d.items():
                o = tystr(res) if res is not None else '$o'
                t = o if not args else '%s > %s' % (tystr(args[0]) if len(args) == 1 else '(' + ' * '.join(map(tystr, args)) + ')', o)
                if tv: t = '!>[%s]: %s' % (', '.join(v + ': $tType' for v in tv), '(' + t + ')' if args else t)
                syms.append('tff(%s_ty, type, %s: %s).' % (n, n, t))
        if r: r.shuffle(syms)
        return out + syms


def tystr(t):
    if t[0] == 'tv': return t[1]
    return t[1] if not t[2] else '%s(%s)' % (t[1], ','.join(map(tystr, t[2])))


def tstr(t):
    if t[0] == 'v': return t[1]
    a = list(map(tystr, t[2])) + list(map(tstr, t[3]))
    return t[1] if not a else '%s(%s)' % (t[1], ','.join(a))


def fstr(f):
    k = f[0]
    if k == 'true': return '$true'
    if k == 'false': return '$false'
    if k == 'p':
        a = list(map(tystr, f[2])) + list(map(tstr, f[3]))
        return f[1] if not a else '%s(%s)' % (f[1], ','.join(a))
    if k == 'eq': return '(%s = %s)' % (tstr(f[2]), tstr(f[3]))
    if k == 'neq': return '(%s != %s)' % (tstr(f[2]), tstr(f[3]))
    if k == 'not': return '(~ (%s))' % fstr(f[1])
    if k in ('and', 'or'): return '(' + {'and': ' & ', 'or': ' | '}[k].join(map(fstr, f[1])) + ')'
    if k in ('imp', 'iff'): return '(%s %s %s)' % (fstr(f[1]), {'imp': '=>', 'iff': '<=>'}[k], fstr(f[2]))
    if k in ('all', 'ex'): return '(%s [%s] : %s)' % ('!' if k == 'all' else '?', ', '.join('%s: %s' % (n, tystr(t)) for n, t in f[1]), fstr(f[2]))
    if k == 'tall': return '(! [%s] : %s)' % (', '.join(v + ': $tType' for v in f[1]), fstr(f[2]))
    raise ValueError(k)


class Gen:
    def __init__(self, r, sig, eq=0.3, bare=False, depth=3, qprob=0.3, poly=False):
        self.r, self.sig, self.eq, self.bare, self.depth, self.qprob, self.poly = r, sig, eq, bare, depth, qprob, poly
        self.n = 0

    def fresh(self, p='X'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def match(self, pat, ty, s):
        if pat[0] == 'tv':
            if pat[1] in s: return s[pat[1]] == ty
            s[pat[1]] = ty; return True
        return ty[0] == 'c' and pat[1] == ty[1] and all(self.match(a, b, s) for a, b in zip(pat[2], ty[2]))

    def term(self, ty, env, tvs, d, novar=False):
        """None when no term of that type can be built"""
        r = self.r
        vs = [n for n, t in env if t == ty]
        if vs and not novar and (d <= 0 or r.random() < 0.5): return ('v', r.choice(vs), ty)
        cands = []
        for n, (tv, args, res) in self.sig.fun.items():
            s = {}
            if self.match(res, ty, s):
                for v in tv: s.setdefault(v, self.sig.types(r, tvs))
                cands.append((n, tuple(s[v] for v in tv), [tsub(a, s) for a in args]))
        r.shuffle(cands)
        if d <= 0: cands.sort(key=lambda c: len(c[2]))
        for n, tya, args in cands[:3]:
            if d < -2 and args: break
            ts = []
            for a in args:
                t = self.term(a, env, tvs, d - 1)
                if t is None: break
                ts.append(t)
            else: return ('f', n, tya, tuple(ts), ty)
        if vs and not novar: return ('v', r.choice(vs), ty)
        return None

    def atom(self, env, tvs, d=1):
        r = self.r
        for _ in range(20):
            if r.random() < self.eq:
                ty = self.sig.types(r, tvs)
                s, t = self.term(ty, env, tvs, d, not self.bare), self.term(ty, env, tvs, d, not self.bare)
                if s and t: return ('eq', ty, s, t)
                continue
            n = r.choice(list(self.sig.pred))
            tv, args, _ = self.sig.pred[n]
            s = {v: self.sig.types(r, tvs) for v in tv}
            ts = [self.term(tsub(a, s), env, tvs, d) for a in args]
            if None not in ts: return ('p', n, tuple(s[v] for v in tv), tuple(ts))
        return ('true',)

    def form(self, env=(), tvs=(), d=None):
        r = self.r
        d = self.depth if d is None else d
        env, tvs = list(env), list(tvs)
        if d <= 0: return self.atom(env, tvs)
        x = r.random()
        if x < self.qprob:
            vs = [(self.fresh(), self.sig.types(r, tvs)) for _ in range(r.choice([1, 1, 2]))]
            return (r.choice(['all', 'ex']), vs, self.form(env + vs, tvs, d - 1))
        k = r.choice(['not', 'and', 'or', 'imp', 'iff', 'atom', 'atom'])
        if k == 'atom': return self.atom(env, tvs)
        if k == 'not': return ('not', self.form(env, tvs, d - 1))
        if k in ('and', 'or'): return (k, [self.form(env, tvs, d - 1) for _ in range(r.choice([2, 2, 3]))])
        return (k, self.form(env, tvs, d - 1), self.form(env, tvs, d - 1))

    def statement(self):
        if self.poly and self.r.random() < 0.6:
            tvs = [self.fresh('T') for _ in range(self.r.choice([1, 1, 2]))]
            vs = [(self.fresh(), self.sig.types(self.r, tvs)) for _ in range(self.r.choice([0, 1, 2]))]
            f = self.form(vs, tvs)
            return ('tall', tvs, ('all', vs, f) if vs else f)
        return self.form()


def size(f):
    k = f[0]
    if k in ('p', 'eq', 'neq', 'true', 'false'): return 1
    if k == 'not': return size(f[1])
    if k in ('and', 'or'): return sum(map(size, f[1]))
    if k in ('imp', 'iff'): return size(f[1]) + size(f[2])
    return size(f[2])


class Model:
    """a finite universe of types, closed under the type constructors; every type is a finite non-empty set"""

    def __init__(self, r, sig):
        self.r, self.sig = r, sig
        names = [s[1] for s in sig.sorts]
        # different sorts may denote the same type of the universe, but mostly do not
        self.u = list(range(len(names) if r.random() < 0.8 else max(1, len(names) - 1)))
        self.dom = [r.choice([1, 2, 2, 3]) for _ in self.u]
        self.tcon = {n: {(): self.u[i % len(self.u)]} for i, n in enumerate(names)}
        for n, k in sig.tycons: self.tcon[n] = {t: r.choice(self.u) for t in itertools.product(self.u, repeat=k)}
        self.f = {}

    def ty(self, t, te):
        if t[0] == 'tv': return te[t[1]]
        return self.tcon[t[1]][tuple(self.ty(a, te) for a in t[2])]

    def app(self, n, tys, args):
        key = (n, tys, args)
        if key not in self.f:
            tv, ats, res = (self.sig.fun.get(n) or self.sig.pred.get(n))
            if res is None: self.f[key] = self.r.random() < 0.5
            else: self.f[key] = self.r.randrange(self.dom[self.ty(res, dict(zip(tv, tys)))])
        return self.f[key]

    def tm(self, t, e, te):
        if t[0] == 'v': return e[t[1]]
        return self.app(t[1], tuple(self.ty(a, te) for a in t[2]), tuple(self.tm(a, e, te) for a in t[3]))

    def ev(self, f, e=None, te=None):
        e, te = e or {}, te or {}
        k = f[0]
        if k == 'true': return True
        if k == 'false': return False
        if k == 'p': return self.app(f[1], tuple(self.ty(a, te) for a in f[2]), tuple(self.tm(a, e, te) for a in f[3]))
        if k == 'eq': return self.tm(f[2], e, te) == self.tm(f[3], e, te)
        if k == 'neq': return self.tm(f[2], e, te) != self.tm(f[3], e, te)
        if k == 'not': return not self.ev(f[1], e, te)
        if k == 'and': return all([self.ev(x, e, te) for x in f[1]])
        if k == 'or': return any([self.ev(x, e, te) for x in f[1]])
        if k == 'imp': return (not self.ev(f[1], e, te)) | self.ev(f[2], e, te)
        if k == 'iff': return self.ev(f[1], e, te) == self.ev(f[2], e, te)
        if k == 'tall': return all([self.ev(f[2], e, dict(te, **dict(zip(f[1], us)))) for us in itertools.product(self.u, repeat=len(f[1]))])
        vals = [self.ev(f[2], dict(e, **dict(zip([n for n, _ in f[1]], xs))), te)
                for xs in itertools.product(*[range(self.dom[self.ty(t, te)]) for _, t in f[1]])]
        return all(vals) if k == 'all' else any(vals)

    def __str__(self):
        return 'type universe %s with %s elements, constructors %s, %s' % (self.u, self.dom, self.tcon, {'%s%s%s' % k: v for k, v in self.f.items()})


def problem(sig, ax, cj, r=None, extra=()):
    out = sig.decls(r) + list(extra)
    for i, f in enumerate(ax): out.append('tff(ax%d, axiom, %s).' % (i, fstr(f)))
    if cj is not None: out.append('tff(goal, conjecture, %s).' % fstr(cj))
    return '\n'.join(out) + '\n'
