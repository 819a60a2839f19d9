"""C16: exactly the well-typed problems are accepted."""
import random
import typed as T, run as R
from verdicts import write


def paths(f, pre=()):
    """(path, node) of every sub-formula and sub-term; a path is a tuple of indices in nested tuples/lists"""
    yield pre, f
    k = f[0]
    if k == 'not': yield from paths(f[1], pre + (1,))
    elif k in ('and', 'or'):
        for i, x in enumerate(f[1]): yield from paths(x, pre + (1, i))
    elif k in ('imp', 'iff'): yield from paths(f[1], pre + (1,)); yield from paths(f[2], pre + (2,))
    elif k in ('all', 'ex', 'tall'): yield from paths(f[2], pre + (2,))
    elif k in ('p', 'f'):
        for i, x in enumerate(f[3]): yield from paths(x, pre + (3, i))
    elif k == 'eq': yield from paths(f[2], pre + (2,)); yield from paths(f[3], pre + (3,))


def put(f, path, new):
    if not path: return new
    xs = list(f)
    xs[path[0]] = put(xs[path[0]], path[1:], new)
    return tuple(xs) if isinstance(f, tuple) else xs


def scope(f, path):
    """the variables and type variables bound at a path"""
    env, tvs = [], []
    for i in path:
        if isinstance(f, tuple) and f and f[0] in ('all', 'ex'): env += f[1]
        if isinstance(f, tuple) and f and f[0] == 'tall': tvs += f[1]
        f = f[i]
    return env, tvs


def expected(sig, f, path):
    """the type expected at the path of a term"""
    parent = f
    for i in path[:-2]: parent = parent[i]
    if parent[0] in ('p', 'f') and path[-2] == 3:
        tv, args, _ = (sig.fun if parent[0] == 'f' else sig.pred)[parent[1]]
        return T.tsub(args[path[-1]], dict(zip(tv, parent[2])))
    return None


def mutate(r, sig, f):
    """an ill-typed variant (kind, formula), or None"""
    ps = list(paths(f))
    terms = [(p, n) for p, n in ps if n[0] in ('v', 'f')]
    args = [(p, n) for p, n in terms if len(p) >= 2 and p[-2] == 3 and expected_ok(f, p)]
    apps = [(p, n) for p, n in ps if n[0] in ('p', 'f')]
    quants = [(p, n) for p, n in ps if n[0] in ('all', 'ex')]
    kind = r.choice(['sort', 'sort', 'sort', 'few', 'many', 'eq', 'free', 'predterm', 'funform', 'unknown type', 'type args', 'constructor', 'escaped', 'type variable', 'other instance', 'unknown symbol'])
    g = T.Gen(r, sig, depth=1)
    g.n = 1000
    def other(ty, env, tvs):
        for _ in range(10):
            t2 = sig.types(r, tvs)
            if t2 == ty: continue
            t = g.term(t2, env, tvs, r.choice([0, 0, 1]))
            if t: return t
    if kind == 'sort' and args:
        p, n = r.choice(args); env, tvs = scope(f, p)
        t = other(expected(sig, f, p), env, tvs)
        return t and (kind, put(f, p, t))
    if kind == 'few':
        c = [(p, n) for p, n in apps if n[3]]
        if not c: return None
        p, n = r.choice(c); k = r.randrange(len(n[3]))
        return kind, put(f, p, n[:3] + (n[3][:k] + n[3][k + 1:],) + n[4:])
    if kind == 'many' and apps:
        p, n = r.choice(apps); env, tvs = scope(f, p)
        t = g.term(r.choice(sig.sorts), env, tvs, 0)
        return t and (kind, put(f, p, n[:3] + (n[3] + (t,),) + n[4:]))
    if kind == 'eq':
        p, n = r.choice([(p, n) for p, n in ps if n[0] in ('p', 'eq', 'true', 'not', 'and', 'or', 'imp', 'iff', 'all', 'ex')]); env, tvs = scope(f, p)
        ty = sig.types(r, tvs); a = g.term(ty, env, tvs, 1); b = other(ty, env, tvs)
        return a and b and (kind, put(f, p, r.choice([('eq', ty, a, b), ('neq', ty, a, b)])))
    if kind == 'free' and terms:
        p, n = r.choice(terms)
        return kind, put(f, p, ('v', 'Zfree', ('c', 's0', ())))
    if kind == 'escaped':
        # a variable used outside of its quantifier
        if not quants: return None
        p, n = r.choice(quants); v = r.choice(n[1])
        q = [x for x in sig.pred if sig.pred[x][1] == [v[1]] and not sig.pred[x][0]]
        if not q or v in scope(f, p)[0]: return None
        return kind, put(f, p, ('and', [n, ('p', r.choice(q), (), (('v', v[0], v[1]),))]))
    if kind == 'predterm' and terms:
        p, n = r.choice(terms)
        q = [x for x in sig.pred if not sig.pred[x][0] and not sig.pred[x][1]]
        if not q: return None
        return kind, put(f, p, ('f', r.choice(q), (), (), None))
    if kind == 'funform':
        p, n = r.choice([(p, n) for p, n in ps if n[0] in ('p', 'eq', 'true')]); env, tvs = scope(f, p)
        t = g.term(r.choice(sig.sorts), env, tvs, 1, True)
        return t and t[0] == 'f' and (kind, put(f, p, ('p',) + t[1:4]))
    if kind == 'unknown type' and quants:
        p, n = r.choice(quants); vs = list(n[1]); i = r.randrange(len(vs)); vs[i] = (vs[i][0], T.C('nosuch'))
        return kind, put(f, p, (n[0], vs, n[2]))
    if kind == 'constructor' and quants and sig.tycons:
        p, n = r.choice(quants); vs = list(n[1]); i = r.randrange(len(vs)); name, k = r.choice(sig.tycons)
        vs[i] = (vs[i][0], T.C(name, *[r.choice(sig.sorts) for _ in range(r.choice([x for x in (0, 1, 2, 3) if x != k]))]))
        return kind, put(f, p, (n[0], vs, n[2]))
    if kind == 'type args':
        c = [(p, n) for p, n in apps if n[2]]
        if not c: return None
        p, n = r.choice(c)
        tys = n[2][1:] if r.random() < 0.5 else n[2] + (r.choice(sig.sorts),)
        return kind, put(f, p, n[:2] + (tys,) + n[3:])
    if kind == 'other instance':
        c = [(p, n) for p, n in apps if n[2] and n[3]]
        if not c: return None
        p, n = r.choice(c); env, tvs = scope(f, p)
        i = r.randrange(len(n[2])); t2 = sig.types(r, tvs)
        if t2 == n[2][i]: return None
        return kind, put(f, p, n[:2] + (n[2][:i] + (t2,) + n[2][i + 1:],) + n[3:])
    if kind == 'type variable':
        c = [(p, n) for p, n in apps if n[2]]
        if not c: return None
        p, n = r.choice(c)
        return kind, put(f, p, n[:2] + ((('tv', 'Tfree'),) + n[2][1:],) + n[3:])
    if kind == 'unknown symbol':
        # undeclared symbols are functions and predicates of individuals
        c = [(p, n) for p, n in args if expected(sig, f, p) != T.C('$i')]
        if not c: return None
        p, n = r.choice(c)
        return kind, put(f, p, ('f', 'nosuchfun', (), (), None))
    return None


def expected_ok(f, p):
    parent = f
    for i in p[:-2]: parent = parent[i]
    return parent[0] in ('p', 'f')


def case(r):
    sig = T.Sig(r, r.random() < 0.5)
    g = T.Gen(r, sig, eq=r.choice([0, 0.3]), bare=True, depth=r.choice([1, 2, 3]), qprob=0.4, poly=bool(sig.tycons))
    fs = [g.statement() for _ in range(r.choice([1, 1, 2, 3]))]
    sig.pred['zz'] = ([], [], None)
    return sig, fs


def check(ctx):
    ctx.rule = ('random typed problems that hold the contradiction zz & ~zz (zz: $o), so that an accepted problem is answered VALID at once. The problem must be accepted as generated (well-typed), '
                'and rejected (no verdict, exit code 1) after one mutation that makes it ill-typed, of 14 kinds. Non-trivial: a distinct problem judged.')
    r = random.Random(ctx.seed + 16000)
    g = ctx.b.goeland()
    jobs = []
    zz = [('p', 'zz', (), ()), ('not', ('p', 'zz', (), ()))]
    for i in range(ctx.n(6000, 60000)):
        sig, fs = case(r)
        k = r.randrange(len(fs)); m = None
        if r.random() < 0.65:
            m = mutate(r, sig, fs[k])
            if not m: continue
            fs = fs[:k] + [m[1]] + fs[k + 1:]
        ax = fs + zz if r.random() < 0.5 else zz + fs
        cj = None
        if r.random() < 0.5: cj = ax.pop(ax.index(fs[-1])) if fs[-1][0] != 'tall' else None
        text = T.problem(sig, ax, cj, r)
        jobs.append((text, write(ctx, 't%d.p' % i, text), m[0] if m else None, r.choice([1, 2, 8])))
    def go(j): return R.run(g, ['-noeq', j[1]], timeout=10, env={'GOMAXPROCS': str(j[3])}) if ctx.left() > 15 else None
    for (text, path, kind, procs), o in zip(jobs, R.pmap(go, jobs)):
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev(); v = o.verdict()
        ctx.count('%s %s' % (kind or 'well-typed', v))
        if o.timeout: ctx.inconclusive += 1; continue
        if kind is None:
            if v == 'VALID': ctx.nt(text); ctx.sample({'problem': text, 'verdict': v}, 2)
            else: ctx.violation('rejected:' + R.digest(text), 'a well-typed problem is not accepted: %s' % (o.out + o.err)[-600:], text + '\n' + (o.out + o.err)[-3000:])
        elif v in ('VALID', 'NOT VALID') or o.rc == 0:
            ctx.violation('accepted:%s:%s' % (kind, R.digest(text)), 'an ill-typed problem (%s) is accepted: %s' % (kind, v), text + '\n' + (o.out + o.err)[-3000:])
        elif o.rc != 1:
            ctx.violation('crash:%s:%s' % (kind, R.digest(text)), 'an ill-typed problem (%s) stops goeland with exit code %d' % (kind, o.rc), text + '\n' + (o.out + o.err)[-3000:])
        else: ctx.nt(text); ctx.sample({'kind': kind, 'problem': text[-400:], 'message': (o.out + o.err).strip()[-200:]}, 5)
