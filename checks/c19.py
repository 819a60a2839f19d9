"""Without -one_step goeland never gives up on a theorem."""
import os, random, re
import fol, probs, typed as T, theorems as TH, run as R
import c06
from fol import *
from verdicts import write

MODES = ['', '', '', '-inner', '-preinner', '-completeness', '-sateq', '-eagereq', '-flatten', '-dmt', '-vec', '-noeq']


def tower(f, n, t):
    for _ in range(n): t = F(f, t)
    return t


def nest(r):
    """theorems that need several instances of few quantifiers: (name, axioms, conjecture, instances needed)"""
    X, Y, Z = V('X'), V('Y'), V('Z')
    p = lambda t: P('p', t)
    k = r.choice(['succ', 'succ2', 'path', 'some', 'or', 'eqsucc', 'shrink', 'even', 'forall'])
    n = r.choice([1, 2, 3, 3, 4])
    o, s = F(r.choice('abc')), r.choice('fgh')
    if k == 'succ': return k, [p(o), All('X', Imp(p(X), p(F(s, X))))], p(tower(s, n, o)), n
    if k == 'succ2': return k, [P('q', o, o), All(['X', 'Y'], Imp(P('q', X, Y), P('q', F(s, Y), X)))], P('q', tower(s, (n + 1) // 2, o), tower(s, n // 2, o)), n
    if k == 'path':
        cs = [F('c%d' % i) for i in range(n + 2)]
        return k, [P('e', cs[i], cs[i + 1]) for i in range(n + 1)] + [All(['X', 'Y', 'Z'], Imp(And(P('e', X, Y), P('e', Y, Z)), P('e', X, Z)))], P('e', cs[0], cs[-1]), n
    if k == 'some': return k, [], Ex('X', Imp(p(X), p(tower(s, n, X)))), 2
    if k == 'or':
        cs = [F('c%d' % i) for i in range(n + 1)]
        return k, [Or(*[p(c) for c in cs])], Ex('X', p(X)), n + 1
    if k == 'eqsucc': return k, [All('X', Eq(F(s, X), X)), p(tower(s, min(n, 2), o))], p(o), n
    if k == 'shrink': return k, [All('X', Imp(p(F(s, X)), p(X))), p(tower(s, n, o))], p(o), n
    if k == 'even': return k, [p(o), All('X', Imp(p(X), Not(p(F(s, X))))), All('X', Imp(Not(p(X)), p(F(s, X))))], p(tower(s, 2, o)), 2
    cs = [F('c%d' % i) for i in range(n + 1)]
    return k, [All('X', p(X))], And(*[p(c) for c in cs]), n + 1


def typed_nest(r):
    n = r.choice([1, 2, 3])
    o, s = r.choice('abc'), r.choice('fgh')
    t = o
    for _ in range(n): t = '%s(%s)' % (s, t)
    c = r.random() * 1.6
    if c > 1:        # type constructors
        n = r.choice([1, 2])
        d = ["tff(d0,type,nat: $tType).", "tff(d1,type,%s: nat)." % o, "tff(d2,type,list: $tType > $tType).", "tff(d3,type,nil: !>[A: $tType]: list(A)).",
             "tff(d4,type,cons: !>[A: $tType]: ((A * list(A)) > list(A)))."]
        ty, el = 'nat', o
        if r.random() < 0.4: ty, el = 'list(nat)', r.choice(['nil(nat)', 'cons(nat,%s,nil(nat))' % o])
        l = 'nil(%s)' % ty
        for _ in range(n): l = 'cons(%s,%s,%s)' % (ty, el, l)
        if c < 1.2:
            return 'list', d + ["tff(d5,type,p: !>[A: $tType]: (list(A) > $o)).", "tff(x1,axiom,![A: $tType]: p(A,nil(A))).",
                                "tff(x2,axiom,![A: $tType, X: A, L: list(A)]: (p(A,L) => p(A,cons(A,X,L))))."], 'tff(c,conjecture,p(%s,%s)).' % (ty, l), n + 1
        if c < 1.4:
            return 'list arg', d + ["tff(d5,type,e: !>[A: $tType]: (A > $o)).", "tff(x1,axiom,![A: $tType, L: list(A)]: e(list(A),L))."], 'tff(c,conjecture,e(list(%s),%s)).' % (ty, l), 1
        if r.random() < 0.5:
            ls2 = ["tff(d5,type,len: !>[A: $tType]: (list(A) > nat)).", "tff(d6,type,s: nat > nat).", "tff(d7,type,z: nat)."]
            ax = ["tff(x1,axiom,![A: $tType, X: A, L: list(A)]: len(A,cons(A,X,L)) = s(len(A,L))).", "tff(x2,axiom,![A: $tType]: len(A,nil(A)) = z)."]
            r.shuffle(ax)
            e = ['len(%s,%s)' % (ty, l), 's(' * n + 'z' + ')' * n]
            if r.random() < 0.3: e.reverse()
            return 'list eq', d + ls2 + ax, "tff(c,conjecture,%s = %s)." % tuple(e), n + 1
        return 'list only', d + ["tff(d5,type,e: !>[A: $tType,B: $tType]: $o).", "tff(x1,axiom,![A: $tType, B: $tType]: (e(A,list(B)) => e(list(A),B))).",
                                 "tff(x2,axiom,![A: $tType]: e(A,list(list(A))))."], 'tff(c,conjecture,e(list(%s),list(%s))).' % (ty, ty), 2
    if c < 0.4:
        return 'tff nat', ["tff(d0,type,nat: $tType).", "tff(d1,type,%s: nat)." % o, "tff(d2,type,%s: nat > nat)." % s, "tff(d3,type,p: nat > $o).",
                           "tff(x1,axiom,p(%s))." % o, "tff(x2,axiom,![X: nat]: (p(X) => p(%s(X))))." % s], 'tff(c,conjecture,p(%s)).' % t, n
    if c < 0.7:      # the only quantifiers are over types
        return 'tf1', ["tff(d0,type,nat: $tType).", "tff(d1,type,%s: nat)." % o, "tff(d2,type,e: !>[A: $tType]: (A > $o)).",
                       "tff(x1,axiom,![A: $tType, X: A]: e(A,X))."], 'tff(c,conjecture,e(nat,%s)).' % o, 1
    return 'tf1 nat', ["tff(d0,type,nat: $tType).", "tff(d1,type,%s: nat)." % o, "tff(d2,type,%s: !>[A: $tType]: (A > A))." % s, "tff(d3,type,p: !>[A: $tType]: (A > $o)).",
                       "tff(x1,axiom,p(nat,%s))." % o, "tff(x2,axiom,![A: $tType, X: A]: (p(A,X) => p(A,%s(A,X))))." % s], 'tff(c,conjecture,p(nat,%s)).' % re.sub(r'%s\(' % s, '%s(nat,' % s, t), n


def problem(r):
    """(family, [statements before the last], last, needed): a theorem"""
    k = r.random()
    if k < 0.35:
        fam, ax, cj, n = nest(r)
        ls = fol.problem(ax, cj).strip().split('\n')
        return 'nest ' + fam, ls[:-1], ls[-1], n
    if k < 0.5: return typed_nest(r)
    if k < 0.6:
        sig, ax, cj = c06.theorem(r)
        ls = T.problem(sig, ax, cj, r).strip().split('\n')
        return 'typed', ls[:-1], ls[-1], None
    f = r.choice([TH.chain, TH.equivalence, TH.equivalence, TH.eqchain])
    ax, cj = f(r)
    ls = fol.problem(ax, cj).strip().split('\n')
    return f.__name__, ls[:-1], ls[-1], None


def spread(ctx, r, i, ls, last):
    """writes the problem, sometimes with statements in included files (the last one too)"""
    d = os.path.dirname(ctx.tmp('w%d' % i, 'x'))
    os.makedirs(d, exist_ok=True)
    files = {}
    stms = list(ls) + [last]
    if any(not re.match(r'(fof|tff)\(.*\)\.$', x) for x in stms): stms = ['\n'.join(stms)]      # statements over several lines stay together
    if stms[0].startswith('fof(') and r.random() < 0.7: r.shuffle(stms)
    how = r.choice(['one', 'one', 'axioms', 'all', 'two', 'some', 'some'])
    if how == 'axioms' and len(stms) > 1: files['ax.p'] = '\n'.join(stms[:-1]) + '\n'; main = "include('ax.p').\n%s\n" % stms[-1]
    elif how == 'all': files['all.p'] = '\n'.join(stms) + '\n'; main = "include('all.p').\n"
    elif how == 'two' and len(stms) > 1:
        k = r.randrange(1, len(stms))
        files['one.p'] = '\n'.join(stms[:k]) + '\n'; files['two.p'] = "include('one.p').\n" + '\n'.join(stms[k:]) + '\n'; main = "include('two.p').\n"
    elif how == 'some' and len(stms) > 1:
        i, k = sorted(r.sample(range(len(stms) + 1), 2))
        files['some.p'] = '\n'.join(stms[i:k]) + '\n'; main = '\n'.join(stms[:i] + ["include('some.p')."] + stms[k:]) + '\n'
    else: main = '\n'.join(stms) + '\n'
    for n, t in files.items(): open(os.path.join(d, n), 'w').write(t)
    path = os.path.join(d, 'main.p')
    open(path, 'w').write(main)
    return path, main + ''.join('\n%% --- %s\n%s' % x for x in files.items())


def check(ctx):
    ctx.rule = ('theorems whose proof may need more instances than the problem has quantifiers (nested successors, transitive paths, drinkers), quantifiers of a single kind, in an included '
                'file only or over types only, and theorems of the other generators, run without -one_step and with or without a small -l: NOT VALID is a violation, and a theorem needing at most '
                'three instances must be proved. Non-trivial: a proved (options, problem) pair.')
    r = random.Random(ctx.seed + 19000)
    g = ctx.b.goeland()
    jobs = []
    for i in range(ctx.n(1500, 20000)):
        fam, ls, last, need = problem(r)
        path, text = spread(ctx, r, i, ls, last)
        m = r.choice(MODES)
        eq = ' = ' in text or ' != ' in text
        if m == '-noeq' and eq: m = ''
        if fam == 'list eq' and (m not in ('', '-inner', '-eagereq') or need > 2): need = None       # equality reasoning on these may take long
        op = m.split() + (['-l', str(r.choice([1, 1, 2, 3]))] if r.random() < 0.35 else [])
        jobs.append((fam, text, op, path, need if m not in ('-dmt', '-vec') else None))
    def go(j): return R.run(g, j[2] + [j[3]], timeout=0.8) if ctx.left() > 30 else None
    slow = []
    for j, o in zip(jobs, R.pmap(go, jobs)):
        fam, text, op, path, need = j
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev(); v = o.verdict()
        ctx.count('%s %s' % (fam, v))
        if v == 'VALID':
            ctx.nt((tuple(op), text)); ctx.sample({'options': op, 'problem': text[:600], 'instances': need}, 4)
        elif v == 'NOT VALID':
            if 'dmt' in ' '.join(op): ctx.inconclusive += 1; continue       # rewriting is incomplete by design
            ctx.violation('gaveup:%s' % R.digest(text), 'goeland %s answers NOT VALID on a theorem (%s)' % (' '.join(op), fam), 'goeland %s main.p\n\n%s\n\n%s\n%s' % (' '.join(op), text, o.out[-2000:], o.err[-1000:]))
        elif not o.timeout and o.rc != 0:
            ctx.violation('noverdict:%s' % R.digest(text), 'goeland %s ends without a verdict on a theorem (%s)' % (' '.join(op), fam), 'goeland %s main.p\n\n%s\n\n%s\n%s' % (' '.join(op), text, o.out[-2000:], o.err[-1000:]))
        else:
            ctx.inconclusive += 1
            if need is not None and need <= 3: slow.append(j)
    # a small theorem that was not reached is run again, alone and for long
    for j in slow[:12]:
        fam, text, op, path, need = j
        outs = []
        for t in (10, 30):
            if ctx.left() < 35 and outs: break
            outs.append(R.run(g, op + [path], timeout=t))
            if outs[-1].verdict() == 'VALID': break
        ctx.count('run again ' + outs[-1].verdict())
        if outs[-1].verdict() != 'VALID' and outs[-1].wall > 25:
            ctx.violation('unreached:%s' % R.digest(text), 'goeland %s does not prove a theorem that needs %d instances (%s) in 30 s' % (' '.join(op), need, fam), 'goeland %s main.p\n\n%s\n\n%s\n%s' % (' '.join(op), text, outs[-1].out[-2000:], outs[-1].err[-1000:]))
            if len(ctx.violations) >= 3: break
