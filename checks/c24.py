"""C24: a proof asked for in several formats is printed in each of them, and written to the files asked for."""
import os, random, re
import run as R
import proofs, c17, c18

COMBOS = [['-otptp', '-orocq'], ['-osctptp', '-orocq'], ['-proof', '-otptp'], ['-proof', '-orocq'], ['-proof', '-osctptp', '-orocq'], ['-proof', '-otptp', '-orocq'], ['-orocq'], ['-otptp'], ['-osctptp'], ['-proof']]
EXT = {'-otptp': '.p', '-osctptp': '.p', '-orocq': '.v', '-proof': '.proof'}
MODES = ['', '', '-completeness', '-sateq', '-eagereq', '-increq', '-noeq']


def judge(ctx, o, d, combo, base, name, text, mode):
    printed = proofs.proof_text(o)
    if printed is None: return 'no proof is printed'
    files = sorted(f for f in os.listdir(d) if f not in ('problem.p', 'out'))
    want = sorted(base + EXT[x] for x in combo)
    if files != want: return 'the files written are %s instead of %s' % (files, want)
    rest = printed
    for x in combo:
        with open(os.path.join(d, base + EXT[x])) as f: content = f.read()
        if not content.strip(): return 'the %s proof file is empty' % x
        if rest.count(content) < 1: return 'the proof file of %s is not the proof printed' % x
        rest = rest.replace(content, '', 1)
        if x == '-orocq': bad = c17.judge(ctx, content, name, text, '-orocq -context', ' '.join(combo) + mode)[0]
        elif x in ('-otptp', '-osctptp'): bad = c18.judge(content, name, text, x, mode)[0]
        else:
            rules = re.findall(r'^\[\d+\] ([A-Z_]+)', content, re.M)
            bad = None if rules and any('CLOSURE' in x for x in rules) else 'the text proof has no closure rule'
        if bad: return 'the %s proof of several outputs: %s' % (x, bad)
    rest = re.sub(r'^.*\[WLOGS\] Writing .*$', '', rest, flags=re.M)
    if rest.strip(): return 'more is printed than the proofs asked for: %r' % rest.strip()[:200]
    return None


def check(ctx):
    ctx.rule = ('theorems proved with random combinations of -proof, -otptp or -osctptp, -orocq -context, with -wlogs and maybe -proof_file; the files written must be exactly the ones '
                'of the formats asked for, each must hold a proof that the run printed, nothing else may be printed between the markers, and every one is judged alone: the TPTP proofs by the '
                'independent checker, the Rocq ones by coqc, both against the problem. Non-trivial: a distinct (problem, formats, mode) whose proofs were all accepted.')
    r = random.Random(ctx.seed + 24000)
    g = ctx.b.goeland()
    jobs = []
    for i, (name, text, x) in enumerate(proofs.cases(ctx, r, ctx.n(260, 1027), ctx.n(200, 2500))):
        combo = r.choice(COMBOS[:6]) if r.random() < 0.8 else r.choice(COMBOS[6:])
        jobs.append((i, name, text, r.sample(combo, len(combo)), r.choice(MODES), r.choice(['problem_proof', 'problem_proof', 'my_proof', 'P-1'])))
    def go(j):
        i, name, text, combo, mode, base = j
        if ctx.left() < 25 or len(ctx.violations) >= 10: return None
        d = os.path.dirname(ctx.tmp('s%d' % i, 'problem.p')); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'problem.p'), 'w') as f: f.write(text)
        opts = combo + ['-wlogs', '-log', 'out'] + (['-context'] if '-orocq' in combo else []) + (['-proof_file', base] if base != 'problem_proof' else []) + mode.split()
        o = R.run(g, opts + ['problem.p'], timeout=6, cwd=d)
        if o.timeout or o.res() != 'VALID': return o, opts, None
        return o, opts, (judge(ctx, o, d, combo, base, name, text, mode),)
    for j, x in zip(jobs, R.pmap(go, jobs)):
        if x is None: ctx.inconclusive += 1; continue
        i, name, text, combo, mode, base = j
        o, opts, v = x
        ctx.ev()
        if v is None: ctx.inconclusive += 1; ctx.count('no VALID verdict'); continue
        cmd = 'goeland %s problem.p' % ' '.join(opts)
        if v[0]: ctx.violation('%s:%s' % (re.sub(r'\W+', '-', v[0])[:40], R.digest(text + cmd)), '%s: %s' % (cmd, v[0]), '%s\n\nproblem.p:\n%s\n\n%s\n%s' % (cmd, text, o.out[-9000:], o.err[-2000:]))
        else: ctx.nt((text, cmd)); ctx.count(' '.join(sorted(combo))); ctx.sample({'cmd': cmd, 'problem': text}, 4)
