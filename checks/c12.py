"""The formulas that are searched are the formulas of the file: dump of the parsed problem through the proof output, compared with the intended one."""
import random
import fol, tptp, sctptp, syntax, run as R
from verdicts import write

SIGS = [(dict(p=1, q=2, r=0), dict(a=0, b=0, f=1, g=2)), (dict(p=0, q=0, r=0, s=0), {}), (dict(p=1, pP_1=1, q=3), dict(a=0, c_2=0, fF=1)), (dict(p=2, q=1), {'a': 0, '12': 0, 'h': 3}),
        ({"'p q'": 1, "'P'": 2, 'r': 0, "'$false'": 1}, {"'a b'": 0, "'it\\'s \\\\'": 0, "'X'": 0, "'F'": 1, "'12'": 0, "'!'": 2}),
        ({'p': 1, "'='": 2}, {'"d o"': 0, '"\\"\\\\"': 0, '""': 0, '+7': 0, '-12': 0, '1/2': 0, '0.50': 0, '-1.5E-03': 0, '7': 0, 'f': 1})]
UNTYPED = (3, 4, 5)        # no type declarations: predicate constants only, or names of numbers and distinct objects


def gen(r, i):
    preds, funs = SIGS[i % len(SIGS)]
    g = fol.Gen(r, preds, funs, eq=0.25 if funs else 0, depth=r.choice([1, 2, 3, 4, 5]), sugar=0.4, tb=0.04, shadow=0.2)
    while True:
        f = g.form()
        if fol.size(f) <= 40 and not open_(f): return f


def open_(f, bound=()):
    k = f[0]
    if k in ('p', 'eq', 'neq'):
        def tv(t): return {t[1]} if t[0] == 'v' else set().union(set(), *map(tv, t[2]))
        ts = f[2] if k == 'p' else f[1:]
        return bool(set().union(set(), *map(tv, ts)) - set(bound))
    if k in ('true', 'false'): return False
    if k == 'not': return open_(f[1], bound)
    if k in ('and', 'or'): return any(open_(x, bound) for x in f[1])
    if k in ('all', 'ex'): return open_(f[2], tuple(bound) + tuple(f[1]))
    return open_(f[1], bound) or open_(f[2], bound)


def signature(fs, sort):
    preds, funs = fol.symbols(fs)
    out = ['tff(t_s,type,%s: $tType).' % sort] if not sort.startswith('$') else []
    def arrow(k, res): return res if k == 0 else ('%s > %s' % (sort, res) if k == 1 else '( %s ) > %s' % (' * '.join([sort] * k), res))
    for i, (p, k) in enumerate(sorted(preds.items())): out.append('tff(tp%d, type, %s: %s).' % (i, p, arrow(k, '$o')))
    for i, (p, k) in enumerate(sorted(funs.items())):
        if not p.isdigit(): out.append('tff(tf%d, type, %s : %s).' % (i, p, arrow(k, sort)))
    return out


def build(r, i):
    n = r.choice([0, 1, 1, 2, 3])
    axs = [gen(r, i) for _ in range(n)]
    cj = gen(r, i) if (r.random() < 0.75 or not axs) else None
    tff = r.random() < 0.3 and i % len(SIGS) not in UNTYPED
    sort = r.choice(['srt', '$i', 'mySort']) if tff else None
    pr = syntax.Printer(r, tff, sort, r.choice([0.0, 0.3, 0.6]))
    stm = [syntax.statement(pr, r.choice(['ax%d' % j, "'name %d'" % j, str(j + 7)]), r.choice(syntax.ROLES) + ('-simp(x)' if r.random() < 0.03 else ''), f) for j, f in enumerate(axs)]
    if cj is not None: stm.insert(r.randrange(len(stm) + 1) if r.random() < 0.3 else len(stm), syntax.statement(pr, 'goal', 'conjecture', cj))
    lang = 'tff' if tff else 'fof'
    head = ['%s(z1,axiom,zz).' % lang, '%s(z2,axiom,~zz).' % lang]
    if tff: head = signature(axs + ([cj] if cj else []), sort) + ['tff(tz,type,zz:$o).'] + head
    sep = r.choice(['\n', ' ', '\n\n% c\n', '\n/* x\n */ '])
    text = sep.join(head + stm) + r.choice(['\n', '', ' % end', '\n% end'])
    return axs, cj, text


def expand(f):
    """exclusive disjunctions written as conjunctions"""
    k = f[0]
    if k in ('p', 'eq', 'neq', 'true', 'false'): return f
    if k == 'not': return fol.Not(expand(f[1]))
    if k in ('and', 'or'): return (k, tuple(expand(x) for x in f[1]))
    if k in ('all', 'ex'): return (k, f[1], expand(f[2]))
    a, b = expand(f[1]), expand(f[2])
    return fol.And(fol.Or(a, b), fol.Not(fol.And(a, b))) if k == 'xor' else (k, a, b)


def tops(n): return set().union(set(), *map(tops, n[1])) if n[0] == 'and' else {sctptp.canon(n)}


def splits(*norms):
    """the ways in which an axiom may be stated as several ones (the problem keeps the top-level conjuncts apart)"""
    out = []
    for n in norms:
        for f in (tops, sctptp.conjuncts, lambda x: {sctptp.canon(x)}):
            try: out.append(f(n))
            except sctptp.TooBig: pass
    if not out: raise sctptp.TooBig()
    return out


def judge(o, axs, cj):
    t = o.out
    a, b = t.find('% SZS output start'), t.find('% SZS output end')
    if a < 0 or b < 0: return None
    body = t[t.index('\n', a) + 1:b].replace(' ; ', ', ')
    stm = []
    for chunk in body.split('\n'):
        if chunk.startswith('fof(') and (', axiom, ' in chunk[:60] or ', conjecture, ' in chunk[:80]): stm.append(chunk)
    true, false = sctptp.canon(('true',)), sctptp.canon(('false',))
    N = lambda f: tptp.norm(tptp.formula(fol.fstr(f)))
    got, gcj = [], None
    for lang, name, role, f, ann in tptp.file('\n'.join(stm)):
        n = tptp.norm(f)
        if role == 'axiom': got.append(n)
        elif role == 'conjecture':
            gcj = sctptp.canon(n)
            # without a conjecture, the last axiom may be printed as the negation of a conjecture
            if cj is None and gcj != false: got.append(('not', n))
    if cj is not None and (gcj or false) != sctptp.canon(N(cj)): return 'the conjecture that is searched is not the conjecture of the file'
    gs = [splits(n) for n in got]
    ws = [splits(N(f), N(expand(f))) for f in list(axs) + [fol.P('zz'), fol.Not(fol.P('zz'))]]
    allg, allw = set().union({true}, *[x for s in gs for x in s]), set().union({true}, *[x for s in ws for x in s])
    for s in gs:
        if not any(x <= allw for x in s): return 'an axiom that is searched is not stated by the file: %s' % repr(s[-1])[:300]
    for s, f in zip(ws, list(axs) + ['zz', '~zz']):
        if not any(x <= allg for x in s): return 'an axiom of the file is not searched: %s' % (fol.fstr(f) if not isinstance(f, str) else f)[:300]
    return ''


def check(ctx):
    ctx.rule = ('random annotated formulas printed in concrete TPTP syntax with as few parentheses as the grammar allows, every connective, comments, quoted '
                'names, annotations, roles, FOF and TFF; two contradictory axioms make the proof immediate, so that the proof output shows every axiom '
                'and the conjecture as they were understood; they are compared with the intended formulas up to variable names and propositional '
                'equivalence. Non-trivial: a distinct problem whose dump was compared.')
    r = random.Random(ctx.seed + 12000)
    g = ctx.b.goeland()
    jobs = []
    for i in range(ctx.n(3000, 40000)):
        axs, cj, text = build(r, i)
        jobs.append((axs, cj, text, write(ctx, 'd%d.p' % i, text), r.choice(['-otptp', '-osctptp'])))
    def go(j): return R.run(g, [j[4], j[3]], timeout=5) if ctx.left() > 15 else None
    for j, o in zip(jobs, R.pmap(go, jobs)):
        axs, cj, text, path, opt = j
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev()
        rep = 'goeland %s problem.p, where problem.p is\n\n%s\n\nmeaning (fully parenthesised):\n%s\noutput:\n%s\n%s' % (opt, text, fol.problem(axs, cj), o.out[-3000:], o.err[-1000:])
        v = o.verdict()
        ctx.count(v)
        if v == 'TIMEOUT': ctx.inconclusive += 1; continue
        if v != 'VALID':
            ctx.violation('refused:' + R.digest(text), 'a well-formed problem with contradictory axioms is answered %s' % v, rep); continue
        try: d = judge(o, axs, cj)
        except tptp.ParseError as e: d = 'unreadable dump: %s' % e
        except sctptp.TooBig: ctx.inconclusive += 1; continue
        if d is None: ctx.inconclusive += 1; ctx.count('no dump'); continue
        if d: ctx.violation('meaning:' + R.digest(text), d, rep)
        else:
            ctx.nt(text); ctx.sample({'text': text}, 3)
            ctx.count('tff' if 'tff(' in text else 'fof')
