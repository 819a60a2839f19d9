"""A text that is not a TPTP problem gets no verdict: it is refused with an error message."""
import random, re
import fol, fofgram, run as R
import c12
from verdicts import write

PIECES = ['&', '|', '~', '=>', '<=>', '<=', '<~>', '~&', '~|', '(', ')', '[', ']', ',', '.', ':', '=', '!=', '!', '?', 'X', 'p', 'a', 'f(', '$true', '$false', '1', "'q'", '"o"', '-', '$w', '-->']
CHARS = ['#', ';', '\\', '`', '^', '{', '}', '\x00', '\x07', '\x80', 'é', '"', "'", '/*', '@', '<', '>', '+', '*', '/', '$', '_x', "''", '∀', '\x7f']


def split(text):
    """tokens with what separates them (comments kept whole)"""
    out, i = [], 0
    while i < len(text):
        m = fofgram.LEX.match(text, i)
        if not m: m = re.compile('.', re.S).match(text, i)
        out.append((m.lastgroup == 'ws', m.group())); i = m.end()
    return out


def mutate(r, text):
    t = split(text)
    idx = [i for i, (ws, _) in enumerate(t) if not ws]
    k = r.choice(['delete', 'delete', 'duplicate', 'swap', 'insert', 'insert', 'replace', 'replace', 'cut', 'char', 'char', 'uncomment', 'paren', 'word', 'variable', 'number'])
    if not idx: return None, None
    i = r.choice(idx)
    v = [x for _, x in t]
    if k == 'delete': v[i] = ' '
    elif k == 'duplicate': v[i] = v[i] + ' ' + v[i]
    elif k == 'swap':
        j = r.choice(idx); v[i], v[j] = v[j], v[i]
    elif k == 'insert': v[i] = v[i] + ' ' + r.choice(PIECES) + ' '
    elif k == 'replace': v[i] = ' ' + r.choice(PIECES) + ' '
    elif k == 'cut': v = v[:i + 1]; v[i] = v[i][:r.randrange(len(v[i]) + 1)]
    elif k == 'char': v[i] = r.choice([v[i] + r.choice(CHARS), r.choice(CHARS) + v[i], v[i][:1] + r.choice(CHARS) + v[i][1:]])
    elif k == 'uncomment':
        c = [j for j, x in enumerate(v) if t[j][0] and ('*/' in x or x.startswith('%'))]
        if not c: return None, None
        j = r.choice(c); v[j] = v[j].replace('*/', '') if '*/' in v[j] else v[j].replace('%', ' ', 1)
    elif k == 'paren': v[i] = r.choice(['(' + v[i], v[i] + ')', '[' + v[i], v[i] + ']', '(' + v[i] + ']'])
    elif k == 'variable':
        c = [j for j in idx if t[j][1][0].isupper()]
        if not c: return None, None
        v[r.choice(c)] = r.choice(['Free', 'X', 'Y', 'Z', 'W'])
    elif k == 'number':
        c = [j for j in idx if re.fullmatch(r'[a-z]\w*|[0-9]+', t[j][1])]
        v[r.choice(c)] = r.choice(['007', '00', '1.', '1e', '01/2', '1/0', '1/02', '1.2.3', '+a', '12a', '1_0', '+', '0x1', '1e+', '.5', '-', '+07', '-01', '+7', '1e05', '2.50'])
    elif k == 'word':
        c = [j for j in idx if t[j][1] in ('fof', 'axiom', 'conjecture')]
        j = r.choice(c); v[j] = r.choice(['Fof', 'FOF', 'cnff', 'x', 'Axiom', "'axiom'", '3', 'fof fof', 'include'])
    return k, ''.join(v)


def check(ctx):
    ctx.rule = ('well-formed FOF problems (contradictory axioms, so that whatever is accepted is answered VALID at once) altered by one or two edits of tokens or characters; '
                'an independent recognizer of the TPTP grammar says which are malformed. Those must be refused: non-zero exit, a message, no verdict, no crash. '
                'Problems with a free variable are put with the malformed ones. Altered problems that are still well-formed must not be syntax errors. Non-trivial: a distinct malformed text that was refused.')
    g = ctx.b.goeland()
    r = random.Random(ctx.seed + 14000)
    jobs = []
    i = 0
    want = ctx.n(4000, 50000)
    while len(jobs) < want:
        i += 1
        axs, cj, text = c12.build(r, i)
        if 'tff(' in text: continue
        ok, free, why = fofgram.accepts(text)
        if not ok or free: ctx.violation('oracle:%s' % R.digest(text), 'the recognizer refuses a well-formed problem: %s' % why, text); continue
        for _ in range(4):
            k, m = mutate(r, text)
            if m is not None and r.random() < 0.15: k, m = 'two', mutate(r, m)[1]
            if m is None or m == text: continue
            ok, free, why = fofgram.accepts(m)
            if ok is None: continue
            if ok and not free and r.random() < 0.8: continue
            jobs.append((k, m, ok, free, why, write(ctx, 'm%d.p' % len(jobs), m)))
    def go(j): return R.run(g, [j[5]], timeout=5) if ctx.left() > 15 else None
    for (k, m, ok, free, why, path), o in zip(jobs, R.pmap(go, jobs)):
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev(); v = o.verdict()
        rep = 'goeland problem.p, where problem.p is (%s)\n\n%s\n\nas bytes: %r\noutput (exit %s):\n%s\n%s' % (why or 'well-formed', m, m, o.rc, o.out[-2000:], o.err[-2000:])
        if v == 'TIMEOUT' and ok: ctx.inconclusive += 1; continue
        if o.panic(): ctx.violation('crash:' + R.digest(m), 'a %s problem crashes goeland' % ('well-formed' if ok else 'malformed'), rep); continue
        if ok and not free:
            if 'syntax error' in (o.out + o.err).lower(): ctx.violation('refused:' + R.digest(m), 'a well-formed problem is refused as a syntax error', rep)
            else: ctx.count('well-formed, read')
            continue
        if o.timeout: ctx.violation('hang:' + R.digest(m), 'a malformed problem is not refused within 5 s (%s)' % why, rep)
        elif o.res() or o.szs(): ctx.violation('accepted:%s:%s' % ('free' if ok else 'syntax', R.digest(m)), 'a malformed problem is answered %s (%s)' % (v, why or 'a variable is free'), rep)
        elif o.rc == 0: ctx.violation('exit:' + R.digest(m), 'a malformed problem ends with exit status 0 (%s)' % why, rep)
        elif not re.search(r'error', o.out + o.err, re.I): ctx.violation('silent:' + R.digest(m), 'a malformed problem is refused without a message (%s)' % why, rep)
        else:
            ctx.nt(m); ctx.count('refused: ' + (k if not ok else 'free variable')); ctx.sample({'text': m[-300:], 'why': why}, 4)
