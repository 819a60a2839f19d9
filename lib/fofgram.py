"""Recognizer of TPTP files (fof annotated formulas and include directives), after the TPTP syntax BNF. Independent of
Goeland's lexer and grammar. accepts(text) -> (True, '') or (False, why). unbound(text) tells whether a variable is free."""
import re


class Bad(Exception): pass


LEX = re.compile(r"""
   (?P<ws>[ \t\r\n\f\v]+|%[^\n]*|/\*.*?\*/)
 | (?P<sq>'(?:[\x20-\x26\x28-\x5b\x5d-\x7e]|\\[\\'])+')
 | (?P<dq>"(?:[\x20\x21\x23-\x5b\x5d-\x7e]|\\[\\"])*")
 | (?P<ddw>\$\$[A-Za-z0-9_]*)
 | (?P<dw>\$[A-Za-z0-9_]*)
 | (?P<up>[A-Z][A-Za-z0-9_]*)
 | (?P<lo>[a-z][A-Za-z0-9_]*)
 | (?P<num>[+-]?(?:0|[1-9][0-9]*)(?:/[1-9][0-9]*|(?:\.[0-9]+)?(?:[Ee][+-]?[0-9]+)?))
 | (?P<op><=>|<~>|=>|<=|~\||~&|!=|[!?~&|()\[\],.:=-])
""", re.S | re.X)


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = LEX.match(s, i)
        if not m: raise Bad('no token at %r' % s[i:i + 20])
        if m.lastgroup != 'ws': out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


class G:
    def __init__(self, toks): self.t, self.i, self.free, self.odd = toks, 0, False, any(k == 'ddw' for k, _ in toks)
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def val(self): return self.t[self.i][1] if self.i < len(self.t) else None
    def at(self, x): return self.kind() not in ('sq', 'dq') and self.val() == x
    def eat(self, x):
        if not self.at(x): raise Bad('%r expected at %r' % (x, ' '.join(v for _, v in self.t[max(0, self.i - 4):self.i + 4])))
        self.i += 1
    def eatk(self, *ks):
        if self.kind() not in ks: raise Bad('%s expected at %r' % (ks, ' '.join(v for _, v in self.t[max(0, self.i - 4):self.i + 4])))
        self.i += 1
        return self.t[self.i - 1][1]

    def file(self):
        while self.i < len(self.t):
            if self.at('include'): self.include()
            else: self.annotated()

    def include(self):
        self.eat('include'); self.eat('('); self.eatk('sq')
        if self.at(','):
            self.eat(','); self.eat('['); self.name()
            while self.at(','): self.eat(','); self.name()
            self.eat(']')
        self.eat(')'); self.eat('.')

    def name(self):
        if self.kind() == 'num':
            if not re.fullmatch(r'[+-]?\d+', self.val()): raise Bad('name')
            self.i += 1
        else: self.eatk('lo', 'sq')

    def annotated(self):
        self.eat('fof'); self.eat('('); self.name(); self.eat(',')
        self.eatk('lo')
        if self.at('-'): self.eat('-'); self.general()
        self.eat(','); self.formula(()); 
        if self.at(','):
            self.eat(','); self.general()
            if self.at(','): self.eat(','); self.glist()
        self.eat(')'); self.eat('.')

    def formula(self, env):
        self.unit(env)
        for op in ('&', '|'):
            if self.at(op):
                while self.at(op): self.eat(op); self.unit(env)
                return
        if any(self.at(x) for x in ('<=>', '=>', '<=', '<~>', '~|', '~&')):
            self.i += 1; self.unit(env)

    def unit(self, env):
        if self.at('~'): self.eat('~'); return self.unit(env)
        if self.at('!') or self.at('?'):
            self.i += 1; self.eat('[')
            vs = [self.eatk('up')]
            while self.at(','): self.eat(','); vs.append(self.eatk('up'))
            self.eat(']'); self.eat(':')
            return self.unit(tuple(vs) + env)
        if self.at('('):
            self.eat('('); self.formula(env); self.eat(')')
            return
        k = self.term(env, True)
        if self.at('=') or self.at('!='): self.i += 1; self.term(env)
        elif k in ('up', 'num', 'dq'): raise Bad('a term is not a formula')

    def term(self, env, top=False):
        k = self.kind()
        v = self.eatk('lo', 'sq', 'dq', 'dw', 'ddw', 'up', 'num')
        if v in ('$true', '$false') and (not top or self.at('=') or self.at('!=')): self.odd = True
        if k == 'up':
            if v not in env: self.free = True
            return k
        if k in ('num', 'dq'): return k
        if self.at('('):
            if v in ('$true', '$false'): self.odd = True
            self.eat('('); self.term(env)
            while self.at(','): self.eat(','); self.term(env)
            self.eat(')')
        return k

    def glist(self):
        self.eat('[')
        if not self.at(']'):
            self.general()
            while self.at(','): self.eat(','); self.general()
        self.eat(']')

    def general(self):
        if self.at('['): return self.glist()
        k = self.kind()
        v = self.eatk('lo', 'sq', 'up', 'num', 'dq', 'dw')
        if k == 'dw':
            if v not in ('$fof', '$fot', '$tff', '$thf', '$cnf'): raise Bad('general data %s' % v)
            free = self.free
            self.eat('(')
            (self.term if v == '$fot' else self.formula)(())
            self.eat(')'); self.free = free
        elif k in ('lo', 'sq') and self.at('('):
            self.eat('('); self.general()
            while self.at(','): self.eat(','); self.general()
            self.eat(')')
        if self.at(':'): self.eat(':'); self.general()


def accepts(text):
    """-> (well-formed, has free variables, why not)"""
    try:
        g = G(lex(text)); g.file()
        return (None if g.odd else True), g.free, ''           # system symbols and truth values as terms: left open
    except Bad as e: return False, False, str(e)
    except RecursionError: return None, False, 'too deep'
