"""Quasiquote templates against a reference expander over Python data."""
import pbt
import sx
from sx import Dot, Sym, Vec

Q, U, S, QT = Sym('quasiquote'), Sym('unquote'), Sym('unquote-splicing'), Sym('quote')
ATOMS = [1, 2, 0, -5, Sym('a'), Sym('b'), Sym('x'), Sym('n'), Sym('list'), Sym('if'), Sym('else'), Sym('...'), Sym('_'), Sym('lambda'), True, False, 's', '', sx.Char('c'), [], Vec([]), b'\x01\x02', 1.5]
VARS = {'x': [Sym('p'), 2], 'n': 7, 'e': [], 'v': Vec([1, [2]]), 'one': [[1, 2]], 'd': Dot([1], 2), 's': Sym('sym')}
LISTS = ['x', 'e', 'one']
SHADOW = [('list', 'vector'), ('cons', '+'), ('append', '0'), ('list->vector', 'car'), ('vector->list', '1'), ('vector', 'list'), ('apply', '2')]


class Expr:
    """An expression with its value: text data and value."""
    __slots__ = ('datum', 'value', 'ticks')

    def __init__(self, datum, value, ticks=()):
        self.datum, self.value, self.ticks = datum, value, list(ticks)


class Gen:
    def __init__(self, c):
        self.c, self.n = c, 0
        self.features = set()
        self.deepest = 0

    def tick(self):
        self.n += 1
        return self.n - 1

    def expr(self, want_list, depth):
        """(datum); its value comes from ev()."""
        c = self.c
        k = c.draw(6)
        if k < 2:
            return Sym(c.pick(LISTS if want_list else sorted(VARS)))
        if k == 2 and depth > 0:
            self.features.add('quasiquote in an expression')
            t = self.template(0, depth - 1)
            if want_list:
                t = [t] if c.bool() else [t, 1]
            return [Q, t]
        if k == 3 or want_list:
            return [Sym('tick'), self.tick(), Sym(c.pick(LISTS if want_list else sorted(VARS)))]
        if k == 4:
            return [QT, c.pick([Sym('q'), [1, [U, Sym('x')]], [Q, [U, Sym('x')]], []])]
        return [Sym('+'), Sym('n'), c.int(0, 9)]

    def template(self, level, depth):
        """A datum at quasiquotation level `level`."""
        c = self.c
        self.deepest = max(self.deepest, level)
        k = c.weighted([(5, 'atom'), (7, 'list'), (2, 'vector'), (6, 'unquote'), (2, 'nest')] if depth > 0 else [(3, 'atom'), (2, 'unquote')])
        if k == 'atom':
            return c.pick(ATOMS)
        if k == 'unquote':
            if level == 0:
                return [U, self.expr(False, depth - 1)]
            self.features.add('unquote at level %d' % min(level, 3))
            return [U, self.inner(level - 1, depth - 1)]
        if k == 'nest':
            self.features.add('nested')
            return [Q, self.template(level + 1, depth - 1)]
        xs = [self.element(level, depth - 1) for _ in range(c.int(0, 4))]
        if k == 'vector':
            self.features.add('vector')
            if c.bool(.08):
                # in a vector these symbols are data
                self.features.add('keyword in a vector')
                xs = xs + [c.pick([U, Q]), self.template(level, 0)]
            return Vec(xs)
        if xs and c.bool(.25):
            t = self.template(level, 0)
            if isinstance(t, list) and not isinstance(t, Vec) and t and t[0] == U:
                self.features.add('unquoted tail')
            return sx_tail(xs, t)
        return xs if not (len(xs) == 2 and xs[0] in (U, Q, S)) else xs[:1]

    def inner(self, level, depth):
        """What stands behind an unquote that is itself quoted: an expression or template at a lower level."""
        c = self.c
        if level == 0 and c.bool(.4):
            return self.unquote_or_splice(0, depth)
        return self.template(level, depth)

    def unquote_or_splice(self, level, depth):
        if self.c.bool(.4):
            self.features.add('unquote of unquote-splicing')
            return [S, self.expr(True, depth)]
        return [U, self.expr(False, depth)]

    def element(self, level, depth):
        c = self.c
        if c.bool(.2):
            if level == 0:
                self.features.add('splicing')
                return [S, self.expr(True, depth)]
            self.features.add('splicing at level %d' % min(level, 3))
            return [S, self.inner(level - 1, depth)]
        return self.template(level, depth)


def sx_tail(xs, t):
    if isinstance(t, list) and not isinstance(t, Vec):
        return xs + t
    if isinstance(t, Dot):
        return Dot(xs + t.items, t.tail)
    return Dot(xs, t)


class Ref:
    def __init__(self):
        self.ticks = []

    def ev(self, e):
        if isinstance(e, Sym):
            return VARS[e.name]
        if isinstance(e, list) and not isinstance(e, Vec):
            h = e[0]
            if h == QT:
                return e[1]
            if h == Q:
                return self.qq(e[1], 0)
            if h == Sym('tick'):
                self.ticks.append(e[1])
                return self.ev(e[2])
            if h == Sym('+'):
                return self.ev(e[1]) + e[2]
        raise AssertionError(e)

    def qq(self, x, d):
        if isinstance(x, Vec):
            out = []
            for y in x:
                out += self.item(y, d)
            return Vec(out)
        if isinstance(x, Dot):
            return self.pairs(x.items, x.tail, d)
        if isinstance(x, list):
            return self.pairs(x, [], d)
        return x

    def item(self, y, d):
        """The elements that y contributes."""
        if d == 0 and isinstance(y, list) and not isinstance(y, Vec) and len(y) == 2 and y[0] == S:
            return list(self.ev(y[1]))
        return [self.qq(y, d)]

    def pairs(self, items, tail, d):
        """The list of items and tail; (unquote e) and (quasiquote t) may end it."""
        out = []
        for i, y in enumerate(items):
            rest = items[i:]
            if len(rest) == 2 and tail == [] and not isinstance(tail, Vec):
                if y == U:
                    if d == 0:
                        return sx_tail(out, self.ev(rest[1])) if out else self.ev(rest[1])
                    return sx_tail(out, [U] + self.item(rest[1], d - 1))
                if y == Q:
                    return sx_tail(out, [Q] + self.item(rest[1], d + 1))
                if y == S and d > 0:
                    return sx_tail(out, [S] + self.item(rest[1], d - 1))
            out += self.item(y, d)
        t = [] if tail == [] else self.qq(tail, d)
        return sx_tail(out, t) if out else t


def hidden(x):
    """Does a form's keyword stand where the reader of the template would not look for one?  Those are left out."""
    if isinstance(x, Vec):
        return any(hidden(y) for y in x)
    if isinstance(x, Dot):
        return any(y in (U, S, Q) for y in x.items) or any(map(hidden, x.items)) or hidden(x.tail)
    if isinstance(x, list):
        for i, y in enumerate(x):
            if y in (U, S, Q) and i != len(x) - 2:
                return True
            if y == S and i:
                return True
        return any(map(hidden, x))
    return False


def text(c, x):
    """Source of a datum, with or without abbreviations."""
    if isinstance(x, Vec):
        return '#(%s)' % ' '.join(text(c, y) for y in x)
    if isinstance(x, Dot):
        return '(%s . %s)' % (' '.join(text(c, y) for y in x.items), text(c, x.tail))
    if isinstance(x, list):
        if len(x) == 2 and x[0] in (Q, U, S, QT) and c.bool(.85):
            p = {Q: '`', U: ',', S: ',@', QT: "'"}[x[0]]
            return p + text(c, x[1])
        if len(x) > 2 and x[-2] == U and c.bool(.8):
            return '(%s . ,%s)' % (' '.join(text(c, y) for y in x[:-2]), text(c, x[-1]))
        return '(%s)' % ' '.join(text(c, y) for y in x)
    return sx.datum(x)


class Check(pbt.Property):
    id = 'P31'
    batch = 25
    quick = 400
    thorough = 10000
    rule = 'the template splices, nests or has a vector'
    assumptions = ['unquote, unquote-splicing and quasiquote forms have exactly one operand; what is spliced is a proper list']
    prelude = '''
(define counts (make-vector 64 0))
(define (tick i v) (vector-set! counts i (+ 1 (vector-ref counts i))) v)
(define (taken n) (let ((r (vector->list counts 0 n))) (vector-fill! counts 0) r))
'''

    def gen(self, c):
        g = Gen(c)
        t = g.template(0, c.int(1, 5))
        while hidden(t) or g.n > 60:
            g = Gen(c)
            t = g.template(0, 2)
        r = Ref()
        want = r.qq(t, 0) if not (isinstance(t, list) and not isinstance(t, Vec) and len(t) == 2 and t[0] == S) else None
        src = '`' + text(c, t) if c.bool(.8) else '(quasiquote %s)' % text(c, t)
        bind = ' '.join('(%s %s)' % (k, "'" + sx.datum(v)) for k, v in VARS.items())
        shadow = c.sample(SHADOW, c.int(0, 3)) if c.bool(.2) else []
        if shadow:
            g.features.add('shadowed names')
        body = '(let (%s) %s)' % (' '.join('(%s %s)' % s for s in shadow), src) if shadow else src
        code = '(let* (%s (r %s)) (list r (taken %d)))' % (bind, body, g.n)
        counts = [r.ticks.count(i) for i in range(g.n)]
        return pbt.Case(code, expect=sx.show([want, counts]), nontrivial=bool(g.features - {'shadowed names', 'unquoted tail'}), labels=sorted(g.features))
