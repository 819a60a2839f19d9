"""Every proof printed with -otptp or -osctptp is a proof of the given problem."""
import random
import sctptp, tptp
from proofs import *

FMTS = ['-otptp', '-osctptp']
MODES = ['', '-inner', '-preinner', '-completeness', '-sateq', '-eagereq', '-increq']


def judge(t, name, text, fmt, mode):
    try:
        ax, cj, n, rules = sctptp.check(t)
        d = sctptp.statement_differs(ax, cj, text)
        return d, {'steps': n, 'rules': rules}
    except sctptp.Bad as e: return 'the proof is refused: %s' % e, None
    except tptp.ParseError as e: return 'the proof is not TPTP: %s' % e, None
    except sctptp.TooBig: return None, None


def check(ctx):
    ctx.rule = ('theorems (corpus and random) proved with -otptp/-osctptp in several modes; an independent checker parses the output, verifies every '
                'inference step of the sequent proof up to its root and compares the axioms and the conjecture with the problem file. Non-trivial: a '
                'proof that the checker verified completely.')
    r = random.Random(ctx.seed + 18000)
    sweep(ctx, r, cases(ctx, r, ctx.n(450, 5000), ctx.n(350, 3000)), FMTS, MODES, ctx.n(2, 7), judge)
