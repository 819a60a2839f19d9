"""Prints fol.py formulas in concrete TPTP syntax chosen at random among the forms the language allows: the fewest
parentheses, redundant ones, comments, line breaks, annotations, quoted names.  The meaning is fixed by the formula given."""
import fol

BIN = fol._BIN


class Printer:
    def __init__(self, r, tff=False, sort=None, noise=0.3):
        self.r, self.tff, self.sort, self.noise = r, tff, sort, noise

    def sp(self):
        """optional separator"""
        r = self.r
        if r.random() > self.noise: return ' '
        return r.choice(['', '', ' ', '  ', '\n', '\t', ' \n  ', ' % a comment ( [ "\n', '/* a comment ) . */', '/**/', ' /* * / ** */ ', '/***/', '/** doc **/', '/*/*/', ' /* l1\n * l2\n **/', '\r\n'])

    def name(self, n):
        if self.r.random() < 0.06 * self.noise * 3 and n[0].islower(): return "'%s'" % n
        return n

    def term(self, t):
        if t[0] == 'v': return t[1]
        if not t[2]: return self.name(t[1])
        return self.name(t[1]) + '(' + (self.sp() if self.r.random() < 0.1 else '') + (',' + (self.sp() if self.r.random() < 0.3 else '')).join(map(self.term, t[2])) + ')'

    def unit(self, f):
        r, k = self.r, f[0]
        if r.random() < 0.06: return '(' + self.sp() + self.formula(f) + self.sp() + ')'
        if k == 'true': return '$true'
        if k == 'false': return '$false'
        if k == 'p': return self.term(('f', f[1], f[2]))
        if k == 'eq': return self.term(f[1]) + self.sp() + '=' + self.sp() + self.term(f[2])
        if k == 'neq': return self.term(f[1]) + self.sp() + '!=' + self.sp() + self.term(f[2])
        if k == 'not':
            g = f[1]
            if g[0] in ('eq', 'neq') and (self.tff or r.random() < 0.5): return '~' + self.sp() + '(' + self.unit(g) + ')'
            return '~' + self.sp() + self.unit(g)
        if k in ('all', 'ex'):
            vs = [v + (self.sp() + ':' + self.sp() + self.sort if self.sort else '') for v in f[1]]
            return ('!' if k == 'all' else '?') + self.sp() + '[' + (',' + self.sp()).join(vs) + ']' + self.sp() + ':' + self.sp() + self.unit(f[2])
        return '(' + self.sp() + self.formula(f) + self.sp() + ')'

    def formula(self, f):
        k = f[0]
        if k in ('and', 'or'):
            xs = list(f[1])
            if not xs: return '$true' if k == 'and' else '$false'
            if len(xs) == 1: return self.formula(xs[0])
            op = '&' if k == 'and' else '|'
            # the first member of a chain may be a chain of the same connective without parentheses: left associativity
            head = self.formula(xs[0]) if xs[0][0] == k and len(xs[0][1]) > 1 and self.r.random() < 0.7 else self.unit(xs[0])
            return (self.gap() + op + self.gap()).join([head] + [self.unit(x) for x in xs[1:]])
        if k in BIN: return self.unit(f[1]) + self.gap() + BIN[k] + self.gap() + self.unit(f[2])
        return self.unit(f)

    def gap(self):
        s = self.sp()
        return s if s.strip() or self.r.random() < 0.5 else (s or ' ')

    def annotations(self):
        r = self.r
        if r.random() < 0.7: return ''
        src = r.choice(["file('/a/b.p', ax)", 'unknown', 'inference(resolution, [status(thm)], [c_1, c_2])', 'introduced(definition, [])', '[a, b(c), [d]]', "'some text'", 'a:b'])
        return ', ' + src + (r.choice([', []', ', [x, y(1)]', ", ['k'(v)]"]) if r.random() < 0.4 else '')


def safe(text):
    """The printer may produce ambiguous token sequences when no separator is chosen; they are separated here."""
    return text


ROLES = ['axiom', 'hypothesis', 'definition', 'assumption', 'lemma', 'theorem']


def statement(pr, name, role, f):
    s = pr.sp
    lang = ('tff' if pr.tff else 'fof') + (pr.r.choice([' ', '\n']) if pr.r.random() < 0.05 else '')
    return '%s(%s,%s%s%s,%s%s%s%s)%s.' % (lang, name, s(), role, s(), s(), pr.formula(f), s(), pr.annotations(), s() if pr.r.random() < 0.2 else '')
