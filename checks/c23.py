"""C23: unification. The code tree, UnifyTerms and the merging of substitutions against a textbook unification algorithm (go/Unif)."""
import os
import gomon

F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'go', 'Unif', 'verif_unif_test.go')


def check(ctx):
    ctx.rule = ('random sets of atoms (shared prefixes, repeated metavariables, metavariables shared between the tree and the query) put in a code tree and queried, '
                'terms unified and substitutions merged; every answer is compared with a textbook unification: an atom is found exactly when it unifies, with a most '
                'general unifier in solved form; the same queries again and concurrently. Non-trivial: a distinct (tree, query) with at least one unifying atom.')
    gomon.monitor(ctx, 'Unif', [F], ctx.n(12000, 150000), shards=8, timeout=int(min(600, ctx.left())))
    gomon.monitor(ctx, 'Unif', [F], ctx.n(240, 4000), race=True, shards=4, seed=ctx.seed + 500, timeout=int(max(60, min(300, ctx.left()))))
