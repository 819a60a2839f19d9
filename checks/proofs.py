"""Shared by the proof checks: theorems to prove and the proof text that goeland prints for them."""
import json, os, random, re
import fol, theorems as T, run as R
from harness import VERIF
from verdicts import write

CORPUS = os.path.join(VERIF, 'corpus', 'theorems.json')

def cases(ctx, r, n_corpus, n_random, eq=True):
    """(name, problem text), corpus theorems and fresh random ones (theorems by construction)"""
    out = []
    ths = [x for x in json.load(open(CORPUS)) if eq or not x['eq']]
    if n_corpus < len(ths): ths = r.sample(ths, n_corpus)
    for x in ths: out.append((re.sub(r'\W', '_', x['name']) + '_' + R.digest(x['text'])[:4], x['text'], x))
    for i in range(n_random):
        k = r.random()
        if k < 0.2: ax, cj = T.repeated(r)
        elif k < 0.45: ax, cj = T.equivalence(r, 0.3 if eq and r.random() < 0.4 else 0)
        elif k < 0.75 or not eq: ax, cj = T.chain(r)
        else: ax, cj = T.eqchain(r)
        out.append(('rnd%d' % i, fol.problem(ax, cj), None))
    return out


def proof_text(o):
    m = re.search(r'^% SZS output start Proof for [^\n]*\n(.*?)^% SZS output end', o.out, re.S | re.M)
    return m.group(1) if m else None


def weak(mode):
    """recorded findings: a small part of the inner-Skolemization and DMT proofs cannot be rebuilt (schedule dependent)"""
    return 'dmt' if '-dmt' in mode else 'inner' if 'inner' in mode else None


def sweep(ctx, r, cs, fmts, modes, per_case, judge, timeout=6, dirname='p'):
    """runs goeland with proof output and gives every proof to judge(text, name, problem, fmt, mode) -> (None | complaint, info)"""
    g = ctx.b.goeland()
    jobs = []
    for name, text, x in cs:
        p = write(ctx, name + '.p', text)
        for m in r.sample(modes, min(per_case, len(modes))):
            jobs.append((name, text, p, r.choice(fmts), m))
    r.shuffle(jobs)
    def go(j):
        name, text, p, fmt, mode = j
        if ctx.left() < 25 or len(ctx.violations) >= 10: return None
        o = R.run(g, fmt.split() + mode.split() + [p], timeout=timeout)
        if o.res() != 'VALID': return o, None, None
        t = proof_text(o)
        if t is None or not t.strip(): return o, t, ('no proof is printed', None)
        return o, t, judge(t, name, text, fmt, mode)
    inner, ninner = {}, {}
    for j, x in zip(jobs, R.pmap(go, jobs)):
        name, text, p, fmt, mode = j
        if x is None: ctx.inconclusive += 1; continue
        o, t, v = x
        ctx.ev()
        if v is None:
            ctx.count('no VALID verdict'); ctx.inconclusive += 1; continue
        bad, info = v
        if weak(mode): ninner[weak(mode)] = ninner.get(weak(mode), 0) + 1
        cmd = 'goeland %s %s %s.p' % (fmt, mode, name)
        rep = '%s\n\n%s.p:\n%s\n\nproof:\n%s\n\noutput:\n%s\n%s' % (cmd, name, text, (t or '')[:8000], o.out[-2500:], o.err[-2500:])
        if bad is None:
            ctx.count('proofs accepted %s' % fmt); ctx.nt((fmt, mode, text))
            if info: ctx.sample({'cmd': cmd, 'problem': text, 'info': info}, 4)
        else:
            if bad == 'no proof is printed' and (o.timeout): ctx.inconclusive += 1; continue
            k = weak(mode)
            if k: inner.setdefault(k, []).append((bad, cmd, rep)); continue
            ctx.violation('badproof:%s:%s:%s' % (fmt, mode, R.digest(text)), '%s: %s' % (cmd, bad), rep)
    for k, l in inner.items():
        ctx.count('refused or missing %s proofs' % k, len(l))
        if len(l) > max(4, 0.05 * ninner[k]):
            ctx.violation('%s-rate' % k, '%d of %d %s proofs are refused or missing, e.g. %s: %s' % (len(l), ninner[k], k, l[0][1], l[0][0]), l[0][2])
        else: ctx.violation('%s-proof' % k, '%s: %s' % (l[0][1], l[0][0]), l[0][2])
