"""C10: options that only change the reports leave the verdict as it is."""
import os, random
import run as R
from verdicts import write
from checks import reporting as P


def check(ctx):
    ctx.rule = ('theorems that are proved in milliseconds and ground non-theorems, with random combinations of the reporting options (-proof, -otptp, -osctptp, '
                '-orocq, -pretty, -print-id, -quoted_pred, -quiet, -silent, -show_trace, -wlogs, -log, -proof_file, -type_proof, -chrono, -debug, -cpuprofile, -memprofile); '
                'the status line must be the one of the bare run. Non-trivial: a distinct (problem, options) pair answered as it should.')
    r = random.Random(ctx.seed + 10000)
    g = ctx.b.goeland()
    cs = P.theorems(r, ctx.n(700, 1027)) + P.refuted(r, ctx.n(500, 2500))
    jobs = []
    for i, (text, mode, th) in enumerate(cs):
        for k in range(ctx.n(1, 3)):
            d = ctx.tmp('w%d_%d' % (i, k), 'x'); os.makedirs(os.path.dirname(d), exist_ok=True); d = os.path.dirname(d)
            opts = P.reporting(r, d)
            if r.random() < 0.6: opts += P.proof_opts(r, mode)
            if '-wlogs' in opts and r.random() < 0.5: opts += ['-proof_file', 'mine']
            jobs.append((text, mode, th, write(ctx, 'r%d.p' % i, text), opts, d))
    r.shuffle(jobs)
    def go(j, t=8):
        if ctx.left() < 20: return None
        return R.run(g, j[4] + j[1].split() + [j[3]], timeout=t, cwd=j[5])
    def verdict(o):
        s = [x[0] for x in o.szs()]
        if s: return {'Theorem': 'VALID', 'Unsatisfiable': 'VALID', 'CounterSatisfiable': 'NOT VALID', 'Satisfiable': 'NOT VALID'}.get(s[0], s[0])
        return 'TIMEOUT' if o.timeout else 'RC%d' % o.rc
    for j, o in zip(jobs, R.pmap(go, jobs)):
        if o is None: ctx.inconclusive += 1; continue
        text, mode, th, path, opts, d = j
        ctx.ev()
        want, v = ('VALID' if th else 'NOT VALID'), verdict(o)
        for x in opts:
            if x.startswith('-'): ctx.count(x)
        if v == want:
            ctx.nt((text, mode, tuple(x for x in opts if '/' not in x))); ctx.sample({'options': ' '.join(x for x in opts if '/' not in x) + ' ' + mode, 'problem': text, 'status': v}, 3)
            continue
        bare = [R.run(g, mode.split() + [path], timeout=20, cwd=d) for _ in range(2)]
        again = [R.run(g, opts + mode.split() + [path], timeout=20, cwd=d) for _ in range(2)]
        if all(x.verdict() == want for x in bare) and sum(verdict(x) == want for x in again) == 0:
            # proofs and debug traces may be large: slowness is not a different verdict
            if any(verdict(x) == 'TIMEOUT' for x in again) and any(x in opts for x in ('-debug', '-proof', '-otptp', '-osctptp', '-orocq')): ctx.inconclusive += 1; ctx.count('too slow with reports'); continue
            ctx.violation('verdict:%s' % R.digest(text + ' '.join(x for x in opts if '/' not in x)), 'goeland %s answers %s with %s instead of %s' % (mode, v, ' '.join(opts), want),
                          'goeland %s %s problem.p\n\n%s\n\n%s\n%s' % (' '.join(opts), mode, text, o.out[-3000:], o.err[-2000:]))
        else: ctx.inconclusive += 1; ctx.count('not repeated')
