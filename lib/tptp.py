"""A TPTP FOF reader (formulas, annotated formulas, SC-TPTP sequents), alpha-equivalence and free symbols.
Independent of Goeland's own parser.  Formulas use the constructors of fol.py."""
import re

TOK = re.compile(r"""\s+|%[^\n]*|/\*.*?\*/|(?P<t><=>|<~>|-->|=>|<=|~\||~&|!=|'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|[+-]?[0-9]+(?:/[0-9]+|(?:\.[0-9]+)?(?:[Ee][+-]?[0-9]+)?)(?![A-Za-z0-9_])|\$?\$?[A-Za-z_0-9][A-Za-z0-9_]*|[!?~&|()\[\],.:=*>@])""", re.S)


class ParseError(Exception): pass


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise ParseError('bad character %r at %r' % (s[i], s[max(0, i - 30):i + 30]))
        if m.group('t'): out.append(m.group('t'))
        i = m.end()
    return out


class P:
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def take(self, x=None):
        if self.i >= len(self.t): raise ParseError('unexpected end')
        y = self.t[self.i]
        if x is not None and y != x: raise ParseError('expected %r, got %r (…%s…)' % (x, y, ' '.join(self.t[max(0, self.i - 8):self.i + 6])))
        self.i += 1
        return y

    def formula(self):
        a = self.unitary()
        op = self.peek()
        if op in ('&', '|'):
            xs = [a]
            while self.peek() == op: self.take(); xs.append(self.unitary())
            return ('and' if op == '&' else 'or', tuple(xs))
        if op in ('=>', '<=>', '<=', '<~>', '~|', '~&'):
            self.take()
            b = self.unitary()
            return ({'=>': 'imp', '<=>': 'iff', '<=': 'rimp', '<~>': 'xor', '~|': 'nor', '~&': 'nand'}[op], a, b)
        return a

    def unitary(self):
        t = self.peek()
        if t == '~': self.take(); return ('not', self.unitary())
        if t in ('!', '?'):
            self.take(); self.take('[')
            vs = []
            while True:
                v = self.take()
                if not re.match(r'[A-Z]', v): raise ParseError('bound variable %r' % v)
                vs.append(v)
                if self.peek() == ':': self.take(); self.skip_type()
                if self.peek() == ',': self.take(); continue
                break
            self.take(']'); self.take(':')
            return ('all' if t == '!' else 'ex', tuple(vs), self.unitary())
        if t == '(':
            self.take(); f = self.formula(); self.take(')')
            return f
        if t == '$true': self.take(); return ('true',)
        if t == '$false': self.take(); return ('false',)
        s = self.term()
        if self.peek() == '=': self.take(); return ('eq', s, self.term())
        if self.peek() == '!=': self.take(); return ('not', ('eq', s, self.term()))
        if s[0] == 'v': raise ParseError('variable %s used as a formula' % s[1])
        if s[0] == 'f' and s[1] == '=' and len(s[2]) == 2: return ('eq', s[2][0], s[2][1])
        return ('p', s[1], s[2])

    def skip_type(self):
        d = 0
        while True:
            t = self.peek()
            if t is None: raise ParseError('unterminated type')
            if d == 0 and t in (',', ']'): return
            if t == '(': d += 1
            if t == ')': d -= 1
            self.take()

    def term(self):
        t = self.take()
        if t == '=':    # prefix use of the equality symbol
            pass
        elif not re.match(r"[A-Za-z0-9_$'\"+-]", t): raise ParseError('term expected, got %r (…%s…)' % (t, ' '.join(self.t[max(0, self.i - 9):self.i + 5])))
        if re.match(r'[A-Z]', t) and self.peek() != '(': return ('v', t)
        if t.startswith("'"):
            inner = re.sub(r'\\(.)', r'\1', t[1:-1])
            if re.match(r'[a-z][A-Za-z0-9_]*$', inner): t = inner
        args = ()
        if self.peek() == '(':
            self.take()
            xs = [self.term()]
            while self.peek() == ',': self.take(); xs.append(self.term())
            self.take(')')
            args = tuple(xs)
        return ('f', t, args)

    # annotations: nested structure of atoms, applications and lists
    def general(self):
        if self.peek() == '[':
            self.take(); xs = []
            while self.peek() != ']':
                xs.append(self.general())
                if self.peek() == ',': self.take()
            self.take(']')
            return xs
        t = self.take()
        if self.peek() == '(':
            if t == '$fot':
                self.take(); x = self.term(); self.take(')')
                return ('$fot', x)
            self.take(); xs = []
            while self.peek() != ')':
                xs.append(self.general())
                if self.peek() == ',': self.take()
            self.take(')')
            return (t, xs)
        return t

    def forms(self):
        self.take('['); xs = []
        while self.peek() != ']':
            xs.append(self.formula())
            if self.peek() == ',': self.take()
        self.take(']')
        return xs

    def annotated(self):
        lang = self.take()
        self.take('(')
        name = self.take(); self.take(',')
        role = self.take(); self.take(',')
        if self.peek() == '[':
            l = self.forms(); self.take('-->'); r = self.forms()
            body = ('seq', l, r)
        else: body = self.formula()
        ann = []
        while self.peek() == ',': self.take(); ann.append(self.general())
        self.take(')'); self.take('.')
        return (lang, name, role, body, ann)


def formula(s):
    p = P(tokens(s)); f = p.formula()
    if p.i != len(p.t): raise ParseError('trailing input: %s' % ' '.join(p.t[p.i:p.i + 10]))
    return f


def file(s):
    p = P(tokens(s)); out = []
    while p.i < len(p.t): out.append(p.annotated())
    return out


def norm(f, env=(), sym_eq=False):
    """de Bruijn form: alpha-equivalent formulas have equal norms.  Quantifier blocks are split, printing-only
    connectives kept apart (they are not produced by the printers), n-ary and/or flattened."""
    k = f[0]
    def t(x):
        if x[0] == 'v':
            for i, v in enumerate(env):
                if v == x[1]: return ('b', i)
            return x
        return ('f', x[1], tuple(t(a) for a in x[2]))
    if k == 'p': return ('p', f[1], tuple(t(a) for a in f[2]))
    if k in ('eq', 'neq'):
        a, b = t(f[1]), t(f[2])
        e = ('eq', a, b)
        return e if k == 'eq' else ('not', e)
    if k in ('true', 'false'): return f
    if k == 'not': return ('not', norm(f[1], env))
    if k in ('and', 'or'):
        xs = []
        for x in f[1]:
            n = norm(x, env)
            if n[0] == k: xs += list(n[1])
            else: xs.append(n)
        return (k, tuple(xs)) if len(xs) != 1 else xs[0]
    if k in ('all', 'ex'):
        vs = list(f[1])
        e = env
        for v in vs: e = (v,) + e
        b = norm(f[2], e)
        for _ in vs: b = (k, b)
        return b
    if k == 'rimp': return ('imp', norm(f[2], env), norm(f[1], env))
    if k in ('imp', 'iff'): return (k, norm(f[1], env), norm(f[2], env))
    if k == 'xor': return ('not', ('iff', norm(f[1], env), norm(f[2], env)))
    if k == 'nor': return ('not', norm(('or', (f[1], f[2])), env))
    if k == 'nand': return ('not', norm(('and', (f[1], f[2])), env))
    raise ValueError(k)


def nterm(x): return x if x[0] == 'v' else ('f', x[1], tuple(nterm(a) for a in x[2]))


def inst(n, term):
    """body of a normalised quantified formula n with its outermost variable replaced by a (locally closed) term"""
    def t(x, d):
        if x[0] == 'b': return term if x[1] == d else (('b', x[1] - 1) if x[1] > d else x)
        if x[0] == 'v': return x
        return ('f', x[1], tuple(t(a, d) for a in x[2]))
    def g(f, d):
        k = f[0]
        if k == 'p': return ('p', f[1], tuple(t(a, d) for a in f[2]))
        if k == 'eq': return ('eq', t(f[1], d), t(f[2], d))
        if k in ('true', 'false'): return f
        if k == 'not': return ('not', g(f[1], d))
        if k in ('and', 'or'): return (k, tuple(g(x, d) for x in f[1]))
        if k in ('all', 'ex'): return (k, g(f[1], d + 1))
        return (k, g(f[1], d), g(f[2], d))
    return renorm(g(n[1], 0))


def renorm(f):
    return f


def symbols_of(n, acc=None):
    """function/constant names and free variable names of a normalised formula"""
    acc = set() if acc is None else acc
    def t(x):
        if x[0] == 'v': acc.add(x[1])
        elif x[0] == 'f':
            acc.add(x[1])
            for a in x[2]: t(a)
    k = n[0]
    if k == 'p':
        for a in n[2]: t(a)
    elif k == 'eq': t(n[1]); t(n[2])
    elif k == 'not': symbols_of(n[1], acc)
    elif k in ('and', 'or'):
        for x in n[1]: symbols_of(x, acc)
    elif k in ('all', 'ex'): symbols_of(n[1], acc)
    elif k in ('imp', 'iff'): symbols_of(n[1], acc); symbols_of(n[2], acc)
    return acc


def neg(n): return n[1] if n[0] == 'not' else ('not', n)


class CC:
    """ground congruence closure (variables are constants); used by proof checkers"""
    def __init__(self, eqs):
        self.terms, self.par = [], {}
        self.eqs = eqs
    def find(self, x):
        while self.par[x] != x: x = self.par[x]
        return x
    def add(self, t):
        if t not in self.par:
            self.par[t] = t
            for a in (t[2] if t[0] == 'f' else ()): self.add(a)
    def close(self):
        for a, b in self.eqs: self.add(a); self.add(b)
        for a, b in self.eqs:
            x, y = self.find(a), self.find(b)
            if x != y: self.par[x] = y
        ch = True
        while ch:
            ch = False
            sig = {}
            for t in list(self.par):
                if t[0] == 'f' and t[2]:
                    k = (t[1], tuple(self.find(a) for a in t[2]))
                    if k in sig:
                        x, y = self.find(t), self.find(sig[k])
                        if x != y: self.par[x] = y; ch = True
                    else: sig[k] = t
    def same(self, a, b): return self.find(a) == self.find(b)


def contradictory(lits):
    """lits: normalised literals (or any formulas): complementary modulo equality?"""
    eqs = [(n[1], n[2]) for n in lits if n[0] == 'eq']
    cc = CC(eqs)
    for n in lits:
        m = n[1] if n[0] == 'not' else n
        if m[0] == 'p':
            for a in m[2]: cc.add(a)
        elif m[0] == 'eq': cc.add(m[1]); cc.add(m[2])
    cc.close()
    pos = [n for n in lits if n[0] == 'p']
    for n in lits:
        if n[0] == 'false': return True
        if n[0] != 'not': continue
        m = n[1]
        if m[0] == 'true': return True
        if m[0] == 'eq' and cc.same(m[1], m[2]): return True
        if m[0] == 'p':
            for q in pos:
                if q[1] == m[1] and len(q[2]) == len(m[2]) and all(cc.same(a, b) for a, b in zip(q[2], m[2])): return True
        if m in lits: return True
    return False
