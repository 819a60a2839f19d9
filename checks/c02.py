import random
import probs
from verdicts import *

MODES = ['', '-inner', '-preinner', '-eagereq', '-increq', '-completeness', '-preinner -eagereq', '-inner -completeness', '-flatten', '-proof']


def check(ctx):
    ctx.rule = ('as C01 with equations: random finite models interpret the function symbols, so axioms are arbitrary true (dis)equations and the '
                'conjecture is false; equational mutants of theorems. Non-trivial: the run answered, on a distinct (mode, problem).')
    r = random.Random(ctx.seed + 1000)
    cases = countermodel_cases(ctx, r, 0.6, ctx.n(450, 5000), ctx.n(550, 6000), ctx.n(450, 4000), probs.EQ_THEOREMS, ctx.n(250, 3000))
    soundness(ctx, MODES, cases, {**probs.EQ_THEOREMS})
