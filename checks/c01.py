import random
import probs
from verdicts import *

MODES = ['', '-inner', '-preinner', '-completeness', '-flatten', '-noeq', '-inner -completeness', '-preinner -completeness',
         '-eagereq', '-proof', '-preinner -proof']


def check(ctx):
    ctx.rule = ('non-theorems built from a random finite model (axioms true, conjecture false), clause sets built from one, and mutants of '
                'classical theorems with a finite countermodel; each run in several search modes. Non-trivial: the run answered, on a distinct '
                '(mode, problem), NOT VALID on a non-theorem or VALID on a theorem.')
    r = random.Random(ctx.seed)
    cases = countermodel_cases(ctx, r, 0.0, ctx.n(500, 6000), ctx.n(500, 6000), ctx.n(500, 5000), probs.THEOREMS, ctx.n(600, 6000), ctx.n(900, 6000))
    soundness(ctx, MODES, cases, probs.THEOREMS)
    # -vec does not stop on satisfiable problems: a short look at it
    soundness(ctx, ['-vec'], cases[::20], {}, timeout=0.4, per_case=1)
