"""Every proof printed with -orocq -context is accepted by coqc and is about the given problem."""
import random, re, subprocess, os
import rocq, sctptp
from tptp import norm
from proofs import *

FMTS = ['-orocq -context']
MODES = ['', '', '-completeness', '-sateq', '-eagereq', '-increq', '-noeq', '-inner', '-preinner', '-dmt']


def judge(ctx, t, name, text, fmt, mode):
    try:
        prem, f = rocq.statement(t)
        d = sctptp.statement_differs({i: norm(x) for i, x in enumerate(prem)}, norm(f), text)
        if d: return d, None
    except rocq.Bad as e: return 'unreadable statement: %s' % e, None
    except sctptp.TooBig: pass
    d = ctx.tmp('v%s' % R.digest(name + fmt + mode), 'proof.v')
    with open(d, 'w') as fo: fo.write(t.replace('From Stdlib', 'From Coq'))
    try: c = subprocess.run(['coqc', '-q', d], cwd=os.path.dirname(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
    except subprocess.TimeoutExpired: return None, None
    finally:
        for f in os.listdir(os.path.dirname(d)): os.unlink(os.path.join(os.path.dirname(d), f))
    if c.returncode != 0: return 'coqc refuses the proof: %s' % c.stdout.decode('utf-8', 'replace')[-600:], None
    return None, {'tactics': t.count('. ')}


def check(ctx):
    ctx.rule = ('theorems (corpus and random) proved with -orocq -context in several modes; coqc must accept the file, which may assume only symbols, and '
                'its theorem must be the problem (axioms and conjecture compared up to propositional equivalence). Non-trivial: a proof that coqc accepted.')
    ctx.assumptions = ['coqc 8.16: the line "From Stdlib" is replaced by "From Coq", the name of the same library before Rocq 9']
    r = random.Random(ctx.seed + 17000)
    sweep(ctx, r, cases(ctx, r, ctx.n(420, 5000), ctx.n(320, 3000)), FMTS, MODES, ctx.n(1, 7), lambda *a: judge(ctx, *a))
