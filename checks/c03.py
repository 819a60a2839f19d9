import random
import probs
from verdicts import *

MODES = ['-sateq', '-sateq -inner', '-sateq -preinner', '-sateq -completeness', '-sateq -eagereq', '-sateq -flatten']


def check(ctx):
    ctx.rule = ('as C02 for the SAT-based equality engine (-sateq). Non-trivial: the run answered, on a distinct (mode, problem).')
    r = random.Random(ctx.seed + 2000)
    cases = countermodel_cases(ctx, r, 0.6, ctx.n(300, 4000), ctx.n(450, 5000), ctx.n(350, 3000), probs.EQ_THEOREMS, ctx.n(150, 2000))
    soundness(ctx, MODES, cases, {**probs.EQ_THEOREMS}, timeout=0.8, limits=(2, 2, 3))
