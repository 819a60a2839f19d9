"""On well-formed, well-typed problems no option combination makes goeland crash."""
import os, random, re
import fol, probs, syntax, typed as T, theorems as TH, run as R
import c06, c07, c12, c19
from checks import reporting as P
from verdicts import write

SEARCH = [['-inner'], ['-preinner'], ['-completeness'], ['-sateq'], ['-eagereq'], ['-increq'], ['-noeq'], ['-flatten'], ['-dmt'], ['-dmt', '-polarized'], ['-dmt', '-presko'],
          ['-dmt', '-dmt_before_eq'], ['-vec'], ['-core_limit', '1'], ['-core_limit', '3'], ['-ari']]
PROOF = ['-proof', '-otptp', '-osctptp', '-orocq', '-orocq -context', '-proof -pretty', '-proof -type_proof', '-chrono -otptp']


def opts(r, d):
    o = []
    for x in r.sample(SEARCH, r.choice([0, 0, 1, 1, 1, 2, 2, 3])):
        if not any(y in o for y in x) and not ('-inner' in o and '-preinner' in x) and not ('-preinner' in o and '-inner' in x): o += x
    if '-vec' in o and '-completeness' in o: o.remove('-completeness')
    if '-vec' not in o:
        if r.random() < 0.8 and '-completeness' not in o: o += ['-one_step', '-l', str(r.choice([1, 2, 3, 4]))]
    if r.random() < 0.45: o += r.choice(PROOF).split()
    if r.random() < 0.3: o += P.reporting(r, d)
    return o


def degenerate(r):
    x = r.choice(['$true', '$false', 'p', '~ $true', '$true & $false', '! [X] : $true', '? [X] : $false', '! [X] : p(X)', 'a = a', '! [X] : X = X', '? [X] : X != X', '! [X,Y] : X = Y',
                  'p => p', 'p <=> ~ p', '! [X] : p', '? [X,Y] : q(X,Y)', '~ ~ ~ p', '! [X] : ? [Y] : ! [Z] : r(X,Y,Z)', "'a b'('c d')", '"x" = "y"', 'p(12) & p(1.5) & p(3/4)', '! [X] : (X = a | X = b)',
                  '! [X] : ! [X] : p(X)', 'f(a) = a & p(f(f(a)))', '(p <~> q) <~> r', '! [X] : (p(X) <=> ~ q(X))', '? [X] : (p(X) => ! [Y] : p(Y))', '! [X] : p(f(f(f(f(f(f(X)))))))'])
    return x


def problem(r, i):
    k = r.random()
    if k < 0.3:
        axs, cj, text = c12.build(r, i)
        return 'syntax', text.replace('fof(z1,axiom,zz).', '').replace('tff(z1,axiom,zz).', '')
    if k < 0.5:
        sig, M, ax, cj, poly = c06.case(r) if r.random() < 0.6 else c06.clauses(r)
        return 'typed', T.problem(sig, ax, cj, r)
    if k < 0.55:
        fam, ls, last, need = c19.problem(r)
        return 'instances ' + fam, '\n'.join(ls + [last]) + '\n'
    if k < 0.62:
        sig, ax, cj = c06.theorem(r)
        return 'typed theorem', T.problem(sig, ax, cj, r)
    if k < 0.7:
        ax, cj, M = c07.case(r, r.choice([0, 0.3]))
        return 'rewriting', fol.problem(ax, cj)
    if k < 0.8:
        n = r.choice([1, 1, 2, 3])
        fs = [degenerate(r) for _ in range(n)]
        if len({x for f in fs for x in re.findall(r'\b[p-r]\b(?! *\()', f)} & {x for f in fs for x in re.findall(r'\b([p-r])\(', f)}): fs = fs[:1]
        last = r.choice(['axiom', 'conjecture', 'negated_conjecture'])
        return 'degenerate', '\n'.join('fof(x%d,%s,(%s)).' % (j, 'axiom' if j < n - 1 else last, f) for j, f in enumerate(fs)) + '\n'
    ax, cj = r.choice([TH.chain, TH.equivalence, TH.eqchain])(r)
    return 'theorem', fol.problem(ax, cj)


def complaint(o):
    t = o.out + '\n' + o.err
    m = re.search(r'^(panic: .*|fatal error: .*|runtime error.*|SIG\w+: .*)$', t, re.M)
    if m: return re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:90]
    m = re.search(r'(?:\[31m|\[35m)?(error|anomaly|fatal)[^\n]*', t, re.I)
    if o.rc != 0: return 'exit %d: %s' % (o.rc, re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(0) if m else t[-100:])[:90])
    return None


def known(op, o):
    """recorded findings: a proof that was found is not rebuilt for output (see C17 and C18)"""
    t = o.out + o.err
    if not (o.szs() and o.szs()[0][0] in ('Theorem', 'Unsatisfiable')) or not any(x in ('-otptp', '-osctptp', '-orocq') for x in op): return None
    if not ('printProofWithProofStruct' in t or 'missing hypothesis' in t or 'not found in context' in t): return None
    return 'dmt-proof-output' if '-dmt' in op else 'inner-proof-output' if '-inner' in op or '-preinner' in op else None


def check(ctx):
    ctx.rule = 'well-formed and well-typed problems (all the generators of the other checks, and degenerate ones) under random combinations of search, proof and reporting options; the run must end with a verdict or be stopped by the time limit, without a panic, a runtime error or an error message. Non-trivial: a distinct (options, problem) pair that ended with a verdict.'
    r = random.Random(ctx.seed + 15000)
    g = ctx.b.goeland()
    jobs = []
    for i in range(ctx.n(2400, 50000)):
        fam, text = problem(r, i)
        d = os.path.dirname(ctx.tmp('w%d' % i, 'x'))
        os.makedirs(d, exist_ok=True)
        jobs.append((fam, text, opts(r, d), write(ctx, 'c%d.p' % i, text), d))
    def go(j): return R.run(g, j[2] + [j[3]], timeout=0.7, cwd=j[4]) if ctx.left() > 20 else None
    for j, o in zip(jobs, R.pmap(go, jobs)):
        fam, text, op, path, d = j
        if o is None: ctx.inconclusive += 1; continue
        ctx.ev()
        if o.timeout and not o.panic(): ctx.inconclusive += 1; ctx.count('stopped'); continue
        c = complaint(o)
        cmd = 'goeland %s problem.p' % ' '.join(x for x in op if '/' not in x)
        if c:
            ctx.violation(known(op, o) or 'crash:%s' % R.digest(text + ' '.join(op)), '%s (%s problem): %s' % (cmd, fam, c), '%s\n\n%s\n\n%s\n%s' % (cmd, text, o.out[-2500:], o.err[:5000]))
        elif o.res() or o.szs():
            ctx.nt((tuple(x for x in op if '/' not in x), text)); ctx.count(fam); ctx.sample({'cmd': cmd, 'problem': text[:500], 'verdict': o.verdict()}, 4)
