"""Reads the files printed by -orocq -context: what they declare and the statement they prove."""
import re


class Bad(Exception): pass


TOK = re.compile(r'\s+|(<->|->|/\\|\\/|~|=|\(|\)|,|:|[A-Za-z_][A-Za-z_0-9\']*|\d+)')


def toks(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise Bad('unexpected %r' % s[i:i + 20])
        if m.group(1): out.append(m.group(1))
        i = m.end()
    return out


def name(n):
    """the symbol that an identifier stands for"""
    if n.startswith("q'"): return re.sub(r"'([0-9a-f]+)'", lambda m: chr(int(m.group(1), 16)), n[2:])
    return n[:-1] if n.endswith("'") else n


class P:
    def __init__(self, s): self.t, self.i, self.bound = toks(s), 0, []
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def take(self, x=None):
        y = self.peek()
        if y is None or (x is not None and y != x): raise Bad('expected %r, got %r at %s' % (x, y, ' '.join(self.t[max(0, self.i - 6):self.i + 5])))
        self.i += 1
        return y
    def binders(self):
        vs = []
        while self.peek() == '(':
            self.take(); names = []
            while self.peek() != ':': names.append(self.take())
            self.take(':')
            d = 0
            while not (self.peek() == ')' and d == 0):
                d += {'(': 1, ')': -1}.get(self.take(), 0)
            self.take(')'); vs += names
        self.take(',')
        return vs
    def form(self):
        a = self.iff()
        if self.peek() == '->': self.take(); return ('imp', a, self.form())
        return a
    def iff(self):
        a = self.orr()
        if self.peek() == '<->': self.take(); return ('iff', a, self.orr())
        return a
    def orr(self):
        a = self.andd()
        if self.peek() == '\\/': self.take(); return ('or', (a, self.orr()))
        return a
    def andd(self):
        a = self.nott()
        if self.peek() == '/\\': self.take(); return ('and', (a, self.andd()))
        return a
    def nott(self):
        if self.peek() == '~': self.take(); return ('not', self.nott())
        if self.peek() in ('forall', 'exists'):
            k = self.take(); vs = self.binders()
            self.bound.append(vs); b = self.form(); self.bound.pop()
            return ('all' if k == 'forall' else 'ex', tuple(vs), b)
        return self.atom()
    def term(self):
        n = self.take()
        if not re.match(r'[\w]', n): raise Bad('term expected, got %r' % n)
        args = []
        if self.peek() == '(':
            self.take(); args.append(self.term())
            while self.peek() == ',': self.take(); args.append(self.term())
            self.take(')')
        if not args and any(n in b for b in self.bound): return ('v', n)
        return ('f', name(n), tuple(args))
    def atom(self):
        if self.peek() == '(':
            j = self.i
            self.take(); f = self.form(); self.take(')')
            if self.peek() == '=' : raise Bad('equation between parenthesised terms')
            return f
        if self.peek() in ('True', 'False'): return (self.take().lower(),)
        a = self.term()
        if self.peek() == '=': self.take(); return ('eq', a, self.term())
        if a[0] == 'v': raise Bad('variable %s used as a formula' % a[1])
        return ('p', a[1], a[2])


ALLOWED = re.compile(r"^[\w*() >\-]*$")


def statement(text):
    """(premises, conclusion) of the only theorem; raises Bad when the file assumes anything but symbols"""
    if re.search(r'\b(Admitted|admit|Axiom|Axioms|Hypothesis|Hypotheses|Variable|Variables|Conjecture|Abort|Unset|bypass_check)\b', text): raise Bad('the file assumes or skips something')
    for m in re.finditer(r'^Parameters? (.*)$', text, re.M):
        l = re.sub(r'\(\*.*?\*\)', '', m.group(1)).strip()
        n, _, ty = l.partition(' : ')
        if not ty.endswith('.') or not ALLOWED.match(ty[:-1]) or 'False' in ty or 'True' in ty: raise Bad('suspicious declaration: ' + m.group(0))
    th = re.findall(r'^Theorem (\S+) : (.*?)\.\s*\nProof\.', text, re.M | re.S)
    if len(th) != 1: raise Bad('%d theorems' % len(th))
    p = P(th[0][1]); f = p.form()
    if p.peek() is not None: raise Bad('unread end of the statement: %s' % p.t[p.i:p.i + 8])
    prem = []
    while f[0] == 'imp': prem.append(f[1]); f = f[2]
    return prem, f
