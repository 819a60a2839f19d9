"""Names do not matter: renaming symbols and variables changes neither the verdict nor the validity of the proofs."""
import random, re
import fol, probs, tptp, sctptp, rocq, theorems as TH, run as R
import c17, c18, proofs
from verdicts import write

WORDS = ('sko_0 sko_1 sko_2 sko0 sko1 sko skolem skolem_0 skolem_X_0 skolem_x_1 skoTy risk_o asko meta meta_0 x x0 x1 y h0 h1 i o u c a0 ax0 ax1 ax2 ac0 ac1 f0 f1 f2 f3 goeland_i goeland_u goeland_proof '
         'plain conjecture axiom hyp cut status thm inference type definition lemma true false top bot not and or imp eq equal neq nat int real rat list set type0 tType in0 t1 empty dummy clause goal formula '
         'left right cut0 leftNotAll rightForall e0 e1 aA zZ9 a_b a__ b_').split()
ROCQ_WORDS = ('fun in let match with end at as if then else return forall exists fix for using where mod cofix and or not nat auto intro intros apply eq ex all iff classic inl nil cons plus').split()
QUOTED = ["'X'", "'X0'", "'Y'", "'A1'", "'a b'", "'it\\'s'", "'H0'", "'Sko_0'", "'p(X)'", "'a,b'", "'[]'", "'~'", "' '", "'&'", "'1a'", "'f(x)'", "'0'", "'42'", "'%'", "'/*'", "'a\\\\b'", "'_'", "'_x'", "'goeland_I'", "'é'"[:0] or "'Goeland_I'", "'skolem@X@0'", "'skolem@Y@1'", "'...'", "'-->'"]
VARS = 'X Y Z X0 X1 Sko Sko_ Sko_0 Sko_1 META Meta_0 X_0 X_1 H H0 H1 I O U Goeland_I Goeland_U A B P Q T Type Set Prop V1 V10 Vv V_ Skolem True False NNPP'.split()
KEEP = {'fof', 'tff', 'cnf', 'include'}


def words(text):
    """the symbols (lower words outside the headers) and the variables of a FOF problem"""
    syms, vs = [], []
    for m in re.finditer(r"'(?:[^'\\]|\\.)*'|\"[^\"]*\"|\$\w+|[A-Za-z]\w*|\d\w*", text):
        w = m.group(0)
        if re.match(r'[a-z]', w) and w not in KEEP and w not in syms: syms.append(w)
        if re.match(r'[A-Z]', w) and w not in vs: vs.append(w)
    return syms, vs


HEAD = re.compile(r'^\s*(fof)\s*\(\s*([^,]+?)\s*,\s*(\w+)\s*,', re.M)


def rename(r, text, pool, p=0.75):
    """(renamed text, map), statement by statement: names of statements are kept"""
    parts, i = [], 0
    for m in HEAD.finditer(text):
        parts.append((False, text[i:m.start()])) if i == 0 else parts.append((True, text[i:m.start()]))
        parts.append((False, m.group(0))); i = m.end()
    parts.append((True, text[i:]))
    syms, vs = words(''.join(t for b, t in parts if b))
    if not syms or any(w in KEEP for w in syms): return None
    mp, used = {}, set(syms)
    for s in syms:
        mp[s] = s
        if r.random() < p:
            n = r.choice(pool)
            if n not in used: mp[s] = n; used.add(n)
    vm, vused = {}, set(vs)
    for v in vs:
        vm[v] = v
        if r.random() < p:
            n = r.choice(VARS)
            if n not in vused: vm[v] = n; vused.add(n)
    def go(m):
        w = m.group(0)
        return mp.get(w, vm.get(w, w))
    out = ''.join(re.sub(r"'(?:[^'\\]|\\.)*'|\"[^\"]*\"|\$\w+|[A-Za-z]\w*|\d\w*", go, t) if b else t for b, t in parts)
    return out, {k: v for k, v in list(mp.items()) + list(vm.items()) if k != v}


def simple(text): return not re.search(r"%|/\*|'|\"|include|tff|cnf", text)


def check(ctx):
    ctx.rule = ('theorems and problems with a planted countermodel whose symbols and variables are renamed by legal but hostile names (names of Skolem symbols, of proof steps, of roles and rules, of output keywords, '
                'quoted names that look like variables, numbers, formulas or comments): the verdict must be that of the problem, and the TPTP and Rocq proofs must pass the checkers of C17 and C18. '
                'Non-trivial: a distinct renamed problem that got a verdict or whose proof was verified.')
    ctx.assumptions = ['coqc 8.16: see C17']
    r = random.Random(ctx.seed + 11000)
    g = ctx.b.goeland()
    # verdicts
    jobs, proofjobs = [], []
    n = ctx.n(700, 12000)
    for i in range(n):
        eq = r.choice([0, 0.4])
        if r.random() < 0.5:
            kind, x = 'countermodel', r.choice([probs.planted, probs.planted_clauses])(r, eq)
            text = fol.problem(x[0], x[1]); M = x[2]
        else:
            kind, M = 'theorem', None
            ax, cj = r.choice([TH.chain, TH.equivalence] + ([TH.eqchain] if eq else []))(r)
            text = fol.problem(ax, cj)
        k = rename(r, text, r.choice([WORDS, WORDS, ROCQ_WORDS + WORDS, WORDS + QUOTED, QUOTED]), r.choice([0.5, 1]))
        if not k: continue
        m = r.choice(['', '', '-inner', '-preinner', '-sateq', '-completeness', '-eagereq'])
        jobs.append((kind, text, k[0], k[1], write(ctx, r.choice(['a%d.p', 'A%d+1.p', 'p-%d.p', 'x%d_y=1.fof', '%d.p', 'a%d^2.p', 'a%d,b.p', '+%d', 'c@%d.p', '~%d.p', 'a#%d.p']) % i, k[0]), write(ctx, 'b%d.p' % i, text), m, M))
    def go(j):
        if ctx.left() < 60: return None
        op = j[6].split() + ['-one_step', '-l', '3']
        return R.run(g, op + [j[4]], timeout=1.5), (R.run(g, op + [j[5]], timeout=1.5) if j[0] == 'theorem' else None)
    for j, x in zip(jobs, R.pmap(go, jobs)):
        kind, text, new, mp, pa, pb, m, M = j
        if x is None: ctx.inconclusive += 1; continue
        o, o0 = x
        ctx.ev(); v = o.verdict()
        cmd = 'goeland %s -one_step -l 3' % m
        rep = '%s renamed.p\n\nrenamed.p:\n%s\n\noriginal:\n%s\n\nrenaming: %s\n\noutput:\n%s\n%s' % (cmd, new, text, mp, o.out[-2000:], o.err[-2000:])
        ctx.count('%s %s' % (kind, v))
        if v == 'TIMEOUT': ctx.inconclusive += 1; continue
        if v not in ('VALID', 'NOT VALID'): ctx.violation('refused:%s' % R.digest(new), '%s: no verdict on a legal problem with renamed symbols %s: %s' % (cmd, mp, (o.out + o.err)[-150:]), rep); continue
        if kind == 'countermodel' and v == 'VALID': ctx.violation('unsound:%s' % R.digest(new), '%s: VALID on a problem with a countermodel, renamed %s' % (cmd, mp), rep + '\ncountermodel of the original: %s' % M); continue
        if kind == 'theorem' and v == 'NOT VALID' and o0.verdict() == 'VALID':
            # schedules may matter: both are run again with a larger limit
            again = [R.run(g, m.split() + ['-one_step', '-l', '4', pa], timeout=10).verdict() for _ in range(3)]
            if 'VALID' not in again and 'TIMEOUT' not in again:
                ctx.violation('lost:%s' % R.digest(new), '%s: NOT VALID on a theorem whose original is VALID, renamed %s' % (cmd, mp), rep); continue
        ctx.nt((m, new)); ctx.sample({'kind': kind, 'problem': new[:500], 'verdict': v}, 3)
        if kind == 'theorem' and v == 'VALID': proofjobs.append(j)
    # proofs
    def go(k):
        j, fmt = k
        if ctx.left() < 25: return None
        kind, text, new, mp, pa, pb, m, M = j
        o = R.run(g, fmt.split() + m.split() + [pa], timeout=6)
        if o.res() != 'VALID': return o, None
        t = proofs.proof_text(o)
        if not t or not t.strip(): return o, ('no proof is printed', None)
        if fmt == '-orocq -context': return o, c17.judge(ctx, t, R.digest(new), new, fmt, m)
        return o, c18.judge(t, '', new, fmt, m)
    pj = []
    for j in proofjobs:
        if 'inner' in j[6]: continue
        fm = r.choice(['-otptp', '-otptp', '-osctptp', '-orocq -context', '-orocq -context'])
        pj.append((j, fm))
    for k, x in zip(pj, R.pmap(go, pj)):
        j, fmt = k
        if x is None: continue
        o, v = x
        kind, text, new, mp, pa, pb, m, M = j
        ctx.ev()
        if v is None: ctx.inconclusive += 1; continue
        bad, info = v
        cmd = 'goeland %s %s' % (fmt, m)
        if bad is None: ctx.count('proofs accepted %s' % fmt); ctx.nt((fmt, m, new)); continue
        if bad == 'no proof is printed' and o.timeout: ctx.inconclusive += 1; continue
        ctx.violation('badproof:%s:%s' % (fmt, R.digest(new)), '%s, symbols renamed %s: %s' % (cmd, mp, bad), '%s renamed.p\n\nrenamed.p:\n%s\n\nproof and output:\n%s\n%s' % (cmd, new, o.out[-8000:], o.err[-2000:]))
