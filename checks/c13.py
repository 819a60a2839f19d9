"""A problem split over included files is the problem in one piece."""
import json, os, random, re
import fol, tptp, sctptp, syntax, run as R
import c12
from harness import VERIF

DECOY = fol.P('decoy_0')


class Tree:
    """Spreads statements over a tree of files. Three roots: the directory of the problem, the working directory, $TPTP."""
    def __init__(self, r, base, lang):
        self.r, self.base, self.lang, self.k, self.files, self.decoys = r, base, lang, 0, {}, 0

    def fname(self):
        self.k += 1
        return self.r.choice(['f%d.ax', 'X_%d.ax', 'part%d', 'F%d+0.ax', 'a.b-%d.ax']) % self.k

    def decoy(self, names):
        while True:
            n = self.r.choice(['dec%d', 'ax%d', "'x %d'"]) % (100 + self.decoys); self.decoys += 1
            if n not in names: return '%s(%s,axiom,decoy_%d).' % (self.lang, n, self.decoys)

    def put(self, root, rel, text):
        p = os.path.join(self.base, root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f: f.write(text)
        self.files[os.path.join(root, rel)] = text

    def directive(self, target, sel):
        r = self.r
        sp = lambda: r.choice(['', '', ' ', '\n', '% x\n'])
        return "include%s('%s'%s%s)%s." % ('', target, sp(), '' if sel is None else ',' + sp() + '[' + (',' + sp()).join(sel) + ']' + sp(), r.choice(['', '', ' ']))

    def text(self, stms, place, depth):
        """stms: [(name, text)]; place: ('P', dir) inside the problem's tree, ('T',) found by $TPTP, ('C',) found from the working directory"""
        r, out, i = self.r, [], 0
        while i < len(stms):
            n = r.randrange(1, len(stms) - i + 1)
            if depth > 0 and r.random() < 0.55:
                out.append(self.include(stms[i:i + n], place, depth - 1)); i += n
            else:
                out.append(stms[i][1]); i += 1
            if r.random() < 0.1: out.append('% include(\'nowhere.ax\').')
        return r.choice(['\n', ' ', '\n\n']).join(out) if not any('%' in x for x in out) else '\n'.join(out) + '\n'

    def include(self, stms, place, depth):
        r = self.r
        f, kind = self.fname(), r.choice('PPPTC') if place[0] == 'P' else r.choice([place[0], place[0], 'T', 'C'])
        sub = r.choice(['', '', 'Axioms', 'a/b', 'd.e'])
        rel = os.path.join(sub, f)
        select = r.random() < 0.35
        if kind == 'P': inner, root, where, target = ('P', os.path.normpath(os.path.join(place[1], sub)).lstrip('.') if (place[1] or sub) else ''), 'prob', os.path.join(place[1], rel), rel
        else: inner, root, where, target = (kind,), {'T': 'tptp', 'C': 'cwd'}[kind], rel, rel
        if kind == 'P' and r.random() < 0.3: self.put('tptp', rel, self.decoy([]) + '\n')      # hidden by the file beside the problem
        if kind == 'P' and r.random() < 0.1 and place[1]: target = os.path.join('..', os.path.basename(place[1]), rel)
        names = [a for a, _ in stms]
        if select:
            body = [t for _, t in stms]
            for _ in range(r.randrange(0, 3)): body.insert(r.randrange(len(body) + 1), self.decoy(names))
            if len(set(names)) < len(names): select = False
        if not select: body = [self.text(stms, inner, depth)]
        self.put(root, where, '\n'.join(body) + r.choice(['\n', '', '\n% end']))
        if select:
            sel = list(dict.fromkeys(names)); r.shuffle(sel)
            d = self.directive(target, sel)
            if len(sel) > 1 and self.lang == 'fof' and r.random() < 0.3:
                k = r.randrange(1, len(sel))
                d = self.directive(target, sel[:k]) + '\n' + self.directive(target, sel[k:])
            return d
        d = self.directive(target, None)
        return d if r.random() < 0.9 or any(a == 'goal' for a in names) else d + '\n' + d           # twice the same file: the same formulas


def show(base, tree, root):
    return 'goeland, run in cwd/ with TPTP=tptp/ on prob/%s; the files:\n' % root + '\n'.join('--- %s\n%s' % x for x in sorted(tree.files.items()))


def run(ctx, g, opts, base, r_abs, timeout):
    cwd = os.path.join(base, 'cwd'); os.makedirs(cwd, exist_ok=True)
    p = os.path.join(base, 'prob', 'main.p')
    return R.run(g, opts + [p if r_abs else os.path.join('..', 'prob', 'main.p')], timeout=timeout, cwd=cwd, env={'TPTP': os.path.join(base, 'tptp')})


def dumps(ctx, g, r):
    jobs = []
    for i in range(ctx.n(900, 12000)):
        axs, cj, text = c12.build(r, i)
        while 'zz' not in text: axs, cj, text = c12.build(r, i)
        tff = r.random() < 0.25 and i % len(c12.SIGS) not in c12.UNTYPED
        lang, sort = ('tff', 'srt') if tff else ('fof', None)
        pr = syntax.Printer(r, tff, sort, 0.1)
        stm = [('ax%d' % j, syntax.statement(pr, 'ax%d' % j, r.choice(syntax.ROLES), f)) for j, f in enumerate(axs)]
        if r.random() < 0.3 and stm: stm[0] = ("'a name'", syntax.statement(pr, "'a name'", 'axiom', axs[0]))
        if r.random() < 0.3 and stm: stm[-1] = ('17', syntax.statement(pr, '17', 'axiom', axs[-1]))
        if cj is not None: stm.append(('goal', syntax.statement(pr, 'goal', 'conjecture', cj)))
        stm = [('z1', '%s(z1,axiom,zz).' % lang), ('z2', '%s(z2,axiom,~zz).' % lang)] + stm
        if r.random() < 0.5: r.shuffle(stm)
        if tff:
            sig = c12.signature(axs + ([cj] if cj is not None else []), sort) + ['tff(tz,type,zz:$o).']
            stm = [(re.match(r'tff\((\w+)', x).group(1), x) for x in sig] + stm
        t = Tree(r, ctx.tmp('i%d' % i), lang)
        t.put('prob', 'main.p', t.text(stm, ('P', ''), r.choice([1, 2, 3, 4])))
        jobs.append((axs, cj, t, r.choice(['-otptp', '-osctptp']), r.random() < 0.5))
    def go(j): return run(ctx, g, [j[3]], j[2].base, j[4], 5) if ctx.left() > 20 else None
    for (axs, cj, t, opt, _), o in zip(jobs, R.pmap(go, jobs)):
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev(); v = o.verdict()
        key = R.digest(repr(sorted(t.files.items())))
        rep = show(t.base, t, 'main.p') + '\nwith %s\nmeaning:\n%s\noutput:\n%s\n%s' % (opt, fol.problem(axs, cj), o.out[-3000:], o.err[-800:])
        if v == 'TIMEOUT': ctx.inconclusive += 1; continue
        if v != 'VALID': ctx.violation('refused:' + key, 'a well-formed problem spread over several files is answered %s' % v, rep); continue
        try: d = c12.judge(o, axs, cj)
        except tptp.ParseError as e: ctx.inconclusive += 1; ctx.count('unreadable'); continue
        except sctptp.TooBig: d = None
        if d is None: ctx.inconclusive += 1; continue
        if d: ctx.violation('meaning:' + key, d, rep)
        elif len(t.files) > 1:
            ctx.nt(key); ctx.count('files', len(t.files)); ctx.count('problems compared')
            ctx.sample({k: v[:300] for k, v in t.files.items()}, 2)


def theorems(ctx, g, r):
    """the same verdict: equations and limits met only in an included file count"""
    ts = [x for x in json.load(open(os.path.join(VERIF, 'corpus', 'theorems.json')))
          if '' in x['modes'] and all(re.match(r'(fof|tff)\(.*\)\.$', l) for l in x['text'].strip().split('\n'))]
    ts = [x for x in ts if x['eq']] + [x for x in ts if not x['eq']][:80]
    r.shuffle(ts)
    jobs = []
    for i, x in enumerate(ts[:ctx.n(220, 2000)]):
        stm = [(re.match(r"\w+\(\s*('[^']*'|\w+)", l).group(1), l) for l in x['text'].strip().split('\n')]
        t = Tree(r, ctx.tmp('t%d' % i), 'fof')
        t.put('prob', 'main.p', t.text(stm, ('P', ''), 2))
        jobs.append((x, t))
    def go(j):
        if ctx.left() < 20: return None
        o = run(ctx, g, [], j[1].base, True, 4)
        if o.verdict() == 'VALID': return o, None
        p = os.path.join(j[1].base, 'whole.p')
        with open(p, 'w') as f: f.write(j[0]['text'])
        whole = [R.run(g, [p], timeout=4) for _ in range(3)]
        if o.verdict() == 'TIMEOUT' and all(w.verdict() == 'VALID' and w.wall < 1 for w in whole):
            again = []
            for _ in range(2):
                if ctx.left() < 40: return o, whole
                again.append(run(ctx, g, [], j[1].base, True, 15))
                if again[-1].verdict() == 'VALID': return again[-1], None
            return None, whole
        return o, whole
    for (x, t), oo in zip(jobs, R.pmap(go, jobs)):
        if oo is None: ctx.inconclusive += 1; continue
        ctx.ev(); o, whole = oo
        if o is None:
            ctx.violation('lost:%s' % x['name'], 'a theorem found at once in one piece is not found in 15 s, twice, when it is spread over files', show(t.base, t, 'main.p') + '\nin one piece (VALID):\n%s' % x['text'])
            continue
        v = o.verdict()
        if v == 'VALID':
            if len(t.files) > 1: ctx.nt((x['name'], len(t.files))); ctx.count('theorems split')
        elif v == 'TIMEOUT' or any(w.verdict() != 'VALID' for w in whole): ctx.inconclusive += 1
        else:
            ctx.violation('verdict:%s' % x['name'], 'a theorem found in one piece is answered %s when it is spread over files' % v,
                          show(t.base, t, 'main.p') + '\nin one piece (VALID):\n%s\noutput:\n%s\n%s' % (x['text'], o.out[-1500:], o.err[-800:]))


BAD = [('missing', {'main.p': "include('nowhere.ax').\nfof(g,conjecture,(p|~p))."}),
       ('missing nested', {'main.p': "include('a.ax').\nfof(g,conjecture,(p|~p)).", 'a.ax': "include('nowhere.ax')."}),
       ('itself', {'main.p': "include('main.p').\nfof(g,conjecture,(p|~p))."}),
       ('cycle', {'main.p': "include('a.ax').\nfof(g,conjecture,(p|~p)).", 'a.ax': "include('b.ax').", 'b.ax': "include('a.ax')."}),
       ('broken', {'main.p': "include('a.ax').\nfof(g,conjecture,(p|~p)).", 'a.ax': "fof(a,axiom,p q)."})]


def bad(ctx, g):
    for name, files in BAD:
        t = Tree(None, ctx.tmp('bad-%s' % name), 'fof')
        for k, v in files.items(): t.put('prob', k, v)
        os.makedirs(os.path.join(t.base, 'tptp'), exist_ok=True)
        o = run(ctx, g, [], t.base, True, 10)
        ctx.ev(); v = o.verdict()
        if v in ('VALID', 'NOT VALID') or o.timeout or o.rc == 0 or o.panic():
            ctx.violation('bad:' + name, 'an include directive that stands for nothing (%s) is answered %s' % (name, v), show(t.base, t, 'main.p') + '\n' + o.out[-1500:] + o.err[-800:])
        else: ctx.nt(('bad', name)); ctx.count('refused')


def check(ctx):
    ctx.rule = ('random problems (FOF, TFF) spread over trees of included files: beside the problem, from the working directory, from $TPTP, nested, selected by '
                'statement name with decoys left out, included twice. Through the proof output of contradictory axioms the searched formulas are compared with those '
                'of the problem in one piece; theorems of the corpus must stay found. Non-trivial: a tree of at least two files that was compared.')
    g = ctx.b.goeland()
    r = random.Random(ctx.seed + 13000)
    bad(ctx, g)
    dumps(ctx, g, r)
    theorems(ctx, g, r)
