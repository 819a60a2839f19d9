"""Checker for the sequent proofs printed by -otptp and -osctptp (SC-TPTP rules used by Goeland).
A step is accepted when each premise is obtained from the conclusion by the named rule (weakening allowed)."""
import sys
import tptp
from tptp import norm, neg


if hasattr(sys, 'set_int_max_str_digits'): sys.set_int_max_str_digits(0)

class Bad(Exception): pass


def parts(n, k): return set(n[1]) | {n} if n[0] == k else {n}


def subsets_of(n, k, comps):
    """is n made of components of a k-formula (one of them, or a k of several)?"""
    if n in comps: return {n}
    if n[0] == k and all(x in comps for x in n[1]): return set(n[1])
    return None


class Step:
    def __init__(self, name, left, right, rule, params, prem):
        self.name, self.left, self.right, self.rule, self.params, self.prem = name, left, right, rule, params, prem


def parse(text):
    ax, steps, conj = {}, {}, None
    for lang, name, role, body, ann in tptp.file(text):
        if lang not in ('fof', 'tff'): raise Bad('unexpected %s(' % lang)
        if name in ax or name in steps: raise Bad('two steps named ' + name)
        if body[0] == 'seq':
            if not ann or not isinstance(ann[0], tuple) or ann[0][0] != 'inference' or len(ann[0][1]) != 3: raise Bad('step %s has no inference' % name)
            rule, params, prem = ann[0][1]
            steps[name] = Step(name, [norm(f) for f in body[1]], [norm(f) for f in body[2]], rule, params, prem)
        elif role == 'axiom': ax[name] = norm(body)
        elif role == 'conjecture':
            if conj is not None: raise Bad('two conjectures')
            conj = norm(body)
        else: raise Bad('unexpected role ' + role)
    return ax, conj, steps


def check(text):
    """raises Bad, or returns (axioms {name: norm}, conjecture norm, number of steps, rules used)"""
    ax, conj, steps = parse(text)
    if conj is None: raise Bad('no conjecture printed')
    done = set()
    def seq(n, at):
        if n in steps: return steps[n].left, steps[n].right
        if n in ax: return [], [ax[n]]
        raise Bad('step %s uses the unknown premise %s' % (at, n))
    rules = {}
    for s in steps.values():
        L, R = set(s.left), set(s.right)
        prem = [seq(p, s.name) for p in s.prem]
        nums = [int(x) for x in s.params if isinstance(x, str) and x.isdigit()]
        fots = [x[1] for x in s.params if isinstance(x, tuple) and x[0] == '$fot']
        quo = [x for x in s.params if isinstance(x, str) and x.startswith("'")]
        def nprem(k):
            if len(prem) != k: raise Bad('%s: %s with %d premises' % (s.name, s.rule, len(prem)))
        def target():
            if not nums or nums[0] >= len(s.left): raise Bad('%s: no target formula %s' % (s.name, nums))
            return s.left[nums[0]]
        def need(t, *shape):
            """t = shape, e.g. need(t,'not','and')"""
            for k in shape:
                if t[0] != k: raise Bad('%s: %s applied to a formula of another shape: %s' % (s.name, s.rule, t))
                t = t[1] if k == 'not' else t
            return t
        def only(i, *allowed):
            """formulas of premise i not already in the conclusion"""
            l, r = prem[i]
            if not set(r) <= R: raise Bad('%s: premise %s has the new right formula %s' % (s.name, s.prem[i], set(r) - R))
            new = [f for f in l if f not in L]
            bad = [f for f in new if f not in allowed]
            if bad: raise Bad('%s (%s): premise %s contains %s' % (s.name, s.rule, s.prem[i], bad))
        rule = s.rule
        rules[rule] = rules.get(rule, 0) + 1
        if rule in ('leftHyp', 'hyp'):
            nprem(0)
            if rule == 'hyp' and (L & R): pass
            elif any(neg(f) in L or ('not', f) in L for f in L): 
                # the index must designate one of the two complementary formulas
                if nums and nums[0] < len(s.left):
                    t = s.left[nums[0]]
                    if not (neg(t) in L or ('not', t) in L or t[0] == 'false' or t == ('not', ('true',))):
                        raise Bad('%s: leftHyp on the formula %s, which has no complement' % (s.name, t))
            elif ('false',) in L or ('not', ('true',)) in L: pass
            else: raise Bad('%s: %s but no complementary formulas in %s' % (s.name, rule, s.left))
        elif rule == 'leftFalse':
            nprem(0)
            if target() != ('false',): raise Bad('%s: leftFalse on %s' % (s.name, target()))
        elif rule == 'rightTrue':
            nprem(0)
            if ('true',) not in R: raise Bad('%s: rightTrue without $true' % s.name)
        elif rule == 'leftNot':
            nprem(1); t = need(target(), 'not'); l, r = prem[0]
            if not (set(l) <= L and set(r) <= R | {t}): raise Bad('%s: leftNot does not follow from %s' % (s.name, s.prem[0]))
        elif rule == 'congruence':
            nprem(0)
            if not tptp.contradictory(s.left): raise Bad('%s: congruence does not close %s' % (s.name, s.left))
        elif rule == 'leftNotNot':
            nprem(1); t = need(target(), 'not', 'not'); only(0, t)
        elif rule == 'leftAnd':
            nprem(1); t = need(target(), 'and')
            ok = [f for f in prem[0][0] if subsets_of(f, 'and', t[1])]; only(0, *ok)
        elif rule == 'leftNotOr':
            nprem(1); t = need(target(), 'not', 'or')
            ok = [f for f in prem[0][0] if neg(f) in t[1] or ('not' == f[0] and subsets_of(f[1], 'or', t[1]))]; only(0, *ok)
        elif rule == 'leftNotImplies':
            nprem(1); t = need(target(), 'not', 'imp'); only(0, t[1], ('not', t[2]))
        elif rule in ('leftOr', 'leftNotAnd', 'leftImp2'):
            t = target()
            if rule == 'leftOr': t = need(t, 'or'); comps = t[1]; kind = 'or'
            elif rule == 'leftNotAnd': t = need(t, 'not', 'and'); comps = tuple(('not', x) for x in t[1]); kind = None
            else: t = need(t, 'imp'); comps = (('not', t[1]), t[2]); kind = None
            if len(prem) < 2: raise Bad('%s: %s with %d premise' % (s.name, rule, len(prem)))
            left = list(comps)
            cover = set()
            for i in range(len(prem)):
                new = [f for f in prem[i][0] if f not in L]
                if len(new) == 0:
                    # the premise adds nothing: it proves the conclusion alone, by weakening
                    cover |= set(comps)
                    only(i)
                    continue
                got = set()
                for f in new:
                    if kind == 'or': g = subsets_of(f, 'or', comps)
                    else:
                        g = {f} if f in comps else None
                        if g is None and rule == 'leftNotAnd' and f[0] == 'not': 
                            h = subsets_of(f[1], 'and', t[1]); g = {('not', x) for x in h} if h else None
                    if not g: raise Bad('%s (%s): premise %s contains %s' % (s.name, rule, s.prem[i], f))
                    got |= g
                if len(new) > 1: raise Bad('%s (%s): premise %s adds %d formulas' % (s.name, rule, s.prem[i], len(new)))
                only(i, *new)
                cover |= got
            if not set(comps) <= cover: raise Bad('%s (%s): no premise for %s' % (s.name, rule, [c for c in comps if c not in cover]))
        elif rule == 'leftIff':
            nprem(1); t = need(target(), 'iff'); only(0, ('imp', t[1], t[2]), ('imp', t[2], t[1]))
        elif rule == 'leftNotIff':
            nprem(2); t = need(target(), 'not', 'iff')
            a, b = ('not', ('imp', t[1], t[2])), ('not', ('imp', t[2], t[1]))
            try: only(0, a); only(1, b)
            except Bad: only(0, b); only(1, a)
        elif rule in ('leftNotAll', 'leftExists'):
            nprem(1); t = target()
            q = need(t, 'not', 'all') if rule == 'leftNotAll' else need(t, 'ex')
            if len(quo) != 1 and not fots and len(s.params) < 3: raise Bad('%s: no witness' % s.name)
            w = quo[0][1:-1] if quo else (s.params[2] if isinstance(s.params[2], str) else None)
            if w is None: raise Bad('%s: witness %s' % (s.name, s.params))
            for f in list(L | R):
                if w in tptp.symbols_of(f): raise Bad('%s (%s): the witness %s is not fresh, it occurs in %s' % (s.name, rule, w, f))
            b = tptp.inst(q, ('f', w, ()) if not w[0].isupper() else ('v', w))
            b2 = tptp.inst(q, ('f', w, ()))
            only(0, *([('not', b), ('not', b2)] if rule == 'leftNotAll' else [b, b2]))
        elif rule in ('leftForall', 'leftNotEx'):
            nprem(1); t = target()
            q = need(t, 'not', 'ex') if rule == 'leftNotEx' else need(t, 'all')
            if len(fots) != 1: raise Bad('%s: no instance term' % s.name)
            b = tptp.inst(q, tptp.nterm(fots[0]))
            only(0, ('not', b) if rule == 'leftNotEx' else b)
        elif rule == 'leftWeaken':
            nprem(1); only(0)
        elif rule == 'rightNot':
            nprem(1)
            l, r = prem[0]
            ok = any(n[0] == 'not' and set(l) <= L | {n[1]} and set(r) <= R for n in s.right)
            if not ok: raise Bad('%s: rightNot does not follow from %s' % (s.name, s.prem[0]))
        elif rule == 'cut':
            nprem(2)
            (l1, r1), (l2, r2) = prem
            ok = False
            for c in r1:
                if set(l1) <= L and set(r1) - {c} <= R and set(l2) <= L | {c} and set(r2) <= R: ok = True
            if not ok: raise Bad('%s: cut of %s and %s does not give the conclusion' % (s.name, s.prem[0], s.prem[1]))
        else: raise Bad('%s: rule %s is not known' % (s.name, rule))
    # well-founded, and everything reaches a root that proves the conjecture
    roots = [s for s in steps.values() if not s.left and s.right == [conj]]
    if not roots: raise Bad('no step proves [] --> [conjecture]')
    state = {}
    stack = [(roots[0].name, iter(roots[0].prem))]
    state[roots[0].name] = 1
    while stack:
        n, it = stack[-1]
        for p in it:
            if p in ax: continue
            if state.get(p) == 1: raise Bad('cyclic proof through ' + p)
            if p not in state: state[p] = 1; stack.append((p, iter(steps[p].prem))); break
        else: state[n] = 2; stack.pop()
    return ax, conj, len(state), rules


class TooBig(Exception): pass


def canon(n):
    """Canonical form of a norm up to propositional equivalence: each layer of connectives is the truth table of its essential
    atoms, a quantified formula being an atom (existential ones as negated universal ones).  Elaboration may rewrite
    connectives without changing what is stated."""
    atoms = {}
    def leaf(x):
        if x[0] == 'eq' and repr(x[2]) < repr(x[1]): x = ('eq', x[2], x[1])
        atoms.setdefault(x, len(atoms)); return ('@', x)
    def prep(x):
        k = x[0]
        if k in ('p', 'eq'): return leaf(x)
        if k in ('true', 'false'): return x
        if k == 'not': return ('not', prep(x[1]))
        if k == 'all': return leaf(('all', canon(x[1])))
        if k == 'ex': return ('not', leaf(('all', canon(('not', x[1])))))
        if k in ('and', 'or'): return (k, [prep(y) for y in x[1]])
        return (k, prep(x[1]), prep(x[2]))
    f = prep(n)
    names = sorted(atoms, key=repr)
    m = len(names)
    if m > 14: raise TooBig()
    full = (1 << (1 << m)) - 1
    def col(i):
        # bit b of the column is bit i of b
        w = 1 << i; pat = ((1 << w) - 1) << w; length = 2 * w
        while length < (1 << m): pat |= pat << length; length *= 2
        return pat & full
    cols = {x: col(i) for i, x in enumerate(names)}
    def tt(x):
        k = x[0]
        if k == '@': return cols[x[1]]
        if k == 'true': return full
        if k == 'false': return 0
        if k == 'not': return full & ~tt(x[1])
        if k == 'and':
            v = full
            for y in x[1]: v &= tt(y)
            return v
        if k == 'or':
            v = 0
            for y in x[1]: v |= tt(y)
            return v
        a, b = tt(x[1]), tt(x[2])
        return (full & ~a) | b if k == 'imp' else full & ~(a ^ b)
    v = tt(f)
    # drop the atoms that do not matter
    i = 0
    while i < len(names):
        w = 1 << i; size = 1 << len(names)
        lo = [b for b in range(size) if not b & w]
        if all(((v >> b) & 1) == ((v >> (b | w)) & 1) for b in lo):
            nv = 0
            for q, b in enumerate(lo): nv |= ((v >> b) & 1) << q
            v = nv; names = names[:i] + names[i + 1:]
        else: i += 1
    return ('tt', tuple(names), v)


def conjuncts(n, pos=True, whole=False):
    """canonical conjuncts of a norm (whole: and the equivalences before they are split)"""
    k = n[0]
    if k == 'not': return conjuncts(n[1], not pos, whole)
    if k == ('and' if pos else 'or'): return set().union(*[conjuncts(x, pos, whole) for x in n[1]])
    if k == 'imp' and not pos: return conjuncts(n[1], True, whole) | conjuncts(n[2], False, whole)
    if k == 'iff':
        a, b = n[1], n[2]
        w = {canon(n if pos else ('not', n))} if whole else set()
        if pos: return w | {canon(('imp', a, b)), canon(('imp', b, a))}
        return w | {canon(('or', (a, b))), canon(('or', (('not', a), ('not', b))))}
    return {canon(n if pos else ('not', n))}


def statement_differs(ax, conj, problem):
    """None when the axioms and the conjecture of a proof are those of the problem (a FOF file)"""
    wax, wcj = set(), None
    for lang, name, role, body, ann in tptp.file(problem):
        if role == 'conjecture': wcj = norm(body)
        else: wax |= conjuncts(norm(body), whole=True)
    got = set()
    for a in ax.values(): got |= conjuncts(a) if canon(a) not in wax else set()
    none = canon(('false',))
    if conj is not None and canon(conj) != none:
        # without a conjecture, an axiom is printed as the negated conjecture
        if wcj is None: got |= conjuncts(conj, False)
        elif canon(conj) != canon(wcj): return 'the conjecture of the proof is not the conjecture of the problem'
    elif wcj is not None and canon(wcj) != none: return 'the conjecture of the problem is not the one of the proof'
    extra = got - wax - {canon(('true',))}
    if extra: return 'the proof uses an axiom that the problem does not state: %s' % (sorted(map(repr, extra))[0],)
