"""C22: what goeland prints to report a result: the RES and SZS lines and the proof markers."""
import os, random, re
import run as R
from checks import reporting as P

NAMES = ['p.p', 'SYN001+1.p', 'a=b.p', 'x.y.z.p', 'no_ext', 'UPPER.P', 'dash-ed.p', 'deep/er/file.p', '1.p']


def has_conjecture(text): return re.search(r', *(negated_)?conjecture *,', text) is not None


def judge(o, text, name, opts, th):
    out = o.out
    st = re.findall(r'^.*SZS status.*$', out, re.M)
    if o.rc != 0: return 'exit code %d with a verdict' % o.rc if st else None
    if len(st) != 1: return '%d SZS status lines' % len(st)
    want = ('Theorem' if has_conjecture(text) else 'Unsatisfiable') if th else ('CounterSatisfiable' if has_conjecture(text) else 'Satisfiable')
    if st[0] != '%% SZS status %s for %s' % (want, os.path.basename(name)): return 'the status line is "%s" instead of "%% SZS status %s for %s"' % (st[0], want, os.path.basename(name))
    res = o.res_lines()
    if '-quiet' in opts or '-silent' in opts:   # only the status line is left
        if res not in ([], ['VALID' if th else 'NOT VALID']): return 'RES lines %s' % res
    elif res != ['VALID' if th else 'NOT VALID']: return 'RES lines %s' % res
    a, b = re.findall(r'^.*SZS output start.*$', out, re.M), re.findall(r'^.*SZS output end.*$', out, re.M)
    proof = any(x in ('-proof', '-otptp', '-osctptp', '-orocq') for x in opts)
    if not (proof and th):
        if a or b: return 'proof markers without a proof to print'
        return None
    if a != ['% SZS output start Proof for ' + os.path.basename(name)] or b != ['% SZS output end Proof for ' + os.path.basename(name)]: return 'proof markers %s %s' % (a, b)
    i, j = out.index(a[0]), out.index(b[0])
    if not (out.index(st[0]) < i < j): return 'the status, the start and the end of the proof are out of order'
    if not out[i + len(a[0]):j].strip(): return 'the proof is empty'
    if out[j + len(b[0]):].strip() and 'SZS' in out[j + len(b[0]):]: return 'something follows the end of the proof'
    return None


def check(ctx):
    ctx.rule = ('theorems and ground non-theorems, with a conjecture, a negated conjecture or none, under file names of several shapes and with random reporting and proof options; '
                'exactly one status line must appear, of the right kind and for the right problem, agree with the single RES line, and the proof markers must appear once, in order, '
                'exactly when a proof was asked for and found. Non-trivial: a distinct (problem, options) pair judged.')
    r = random.Random(ctx.seed + 22000)
    g = ctx.b.goeland()
    cs = P.theorems(r, ctx.n(600, 1027)) + P.refuted(r, ctx.n(600, 3000))
    jobs = []
    for i, (text, mode, th) in enumerate(cs):
        if r.random() < 0.2 and ', conjecture, ' in text:
            # the same problem with the negation of the conjecture as a negated conjecture
            t2 = re.sub(r'^fof\((\w+), conjecture, (.*)\)\.$', r'fof(\1, negated_conjecture, ~ (\2)).', text, flags=re.M)
            if '-dmt' not in mode and '-flatten' not in mode: text = t2
        d = os.path.dirname(ctx.tmp('w%d' % i, 'x')); os.makedirs(d, exist_ok=True)
        name = r.choice(NAMES)
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        with open(os.path.join(d, name), 'w') as f: f.write(text)
        opts = P.reporting(r, d)
        if '-debug' in opts: k = opts.index('-debug'); opts = opts[:k] + opts[k + 2:]
        if r.random() < 0.6 and not ('negated_conjecture' in text): opts += P.proof_opts(r, mode)
        jobs.append((text, mode, th, name, opts, d))
    r.shuffle(jobs)
    def go(j):
        if ctx.left() < 20: return None
        text, mode, th, name, opts, d = j
        return R.run(g, opts + mode.split() + [r.choice([name, os.path.join(d, name), './' + name])], timeout=8, cwd=d)
    for j, o in zip(jobs, R.pmap(go, jobs)):
        text, mode, th, name, opts, d = j
        if o is None or o.timeout or o.rc != 0 and not o.szs(): ctx.inconclusive += 1; ctx.count('no answer'); continue
        ctx.ev(); ctx.count('theorem' if th else 'not a theorem')
        bad = judge(o, text, name, opts, th)
        if bad is None:
            ctx.nt((text, mode, name, tuple(x for x in opts if '/' not in x))); ctx.count('; '.join(x[0] for x in o.szs()))
            ctx.sample({'options': ' '.join(x for x in opts if '/' not in x) + ' ' + mode, 'name': name, 'status': o.szs()}, 4)
        else:
            ctx.violation('%s' % (re.sub(r'\W+', '-', bad)[:40] + ':' + R.digest(text)), 'goeland %s %s %s: %s' % (' '.join(opts), mode, name, bad),
                          'goeland %s %s %s\n\n%s\n\n%s\n%s' % (' '.join(opts), mode, name, text, o.out[-3000:], o.err[-2000:]))
