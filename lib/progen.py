"""Generator of typed, terminating, deterministic Scheme programs (as sx data) for the reference interpreter.

Types: int bool sym list (of int) vec (of int) str fn (int -> int) thunk (-> int)
Argument evaluation order is not specified, so the arguments of a call are
effect free except at most one, and then the others do not depend on state:
`pure' expressions neither assign nor mutate nor read assigned variables.
"""
import sx
from sx import Sym as S

Q = S('quote')


def L(*xs):
    return list(xs)


class Var:
    __slots__ = ('name', 'type', 'mut')

    def __init__(self, name, type, mut=False):
        self.name, self.type, self.mut = name, type, mut


class Gen:
    """mut: whether the program assigns and mutates."""

    def __init__(self, c, prefix='', fuel=60):
        self.c = c
        self.n = 0
        self.fuel = fuel
        self.prefix = prefix
        self.features = set()

    def fresh(self, base=None):
        # Shadowing is wanted: often reuse a name.
        if base is None:
            base = self.c.pick(['x', 'y', 'z', 'a', 'b', 'k', 'n', 'tmp', 'vector-fill!', 'filter'])
        if self.c.bool(0.5):
            return base
        self.n += 1
        return '%s%d' % (base, self.n)

    # scope: tuple of Var, innermost last; a later name shadows
    def visible(self, scope, type, pure):
        seen, out = set(), []
        for v in reversed(scope):
            if v.name in seen:
                continue
            seen.add(v.name)
            if v.type == type and not (pure and v.mut):
                out.append(v)
        return out

    def spend(self):
        self.fuel -= 1
        return self.fuel > 0

    def const(self, type):
        c = self.c
        if type == 'int':
            return c.int(-9, 20)
        if type == 'int3':
            return c.int(1, 3)
        if type == 'bool':
            return c.bool()
        if type == 'sym':
            return L(Q, S(c.pick(['a', 'b', 'c', 'foo'])))
        if type == 'list':
            return L(Q, [c.int(-3, 9) for _ in range(c.int(0, 3))])
        if type == 'vec':
            return L(S('vector'), *[c.int(-3, 9) for _ in range(c.int(1, 3))])
        if type == 'str':
            return c.pick(['', 'a', 'xy', 'hello'])
        if type == 'fn':
            return L(S('lambda'), [S('q')], c.int(-3, 9))
        if type == 'thunk':
            return L(S('lambda'), [], c.int(-3, 9))
        raise KeyError(type)

    def leaf(self, type, scope, pure):
        vs = self.visible(scope, type, pure)
        if vs and self.c.bool(0.7):
            return S(self.c.pick(vs).name)
        return self.const(type)

    def expr(self, type, scope, d, pure=False):
        c = self.c
        if d <= 0 or not self.spend():
            return self.leaf(type, scope, pure)
        k = c.draw(100)
        if k < 18:
            return self.leaf(type, scope, pure)
        if k < 58:
            return self.prim(type, scope, d, pure)
        return self.control(type, scope, d, pure)

    def args(self, types, scope, d, pure):
        """Arguments: at most one is impure, and then the others are effect free and state independent."""
        if pure:
            return [self.expr(t, scope, d, True) for t in types]
        i = self.c.draw(len(types) + 1)
        return [self.expr(t, scope, d, j != i - 1) for j, t in enumerate(types)]

    def call(self, f, types, scope, d, pure):
        return [S(f)] + self.args(types, scope, d - 1, pure)

    def prim(self, type, scope, d, pure):
        c = self.c
        call = lambda f, *ts: self.call(f, ts, scope, d, pure)
        if type == 'int':
            k = c.draw(15)
            if k < 5:
                f = c.pick(['+', '-', '*'])
                return call(f, *['int'] * c.int(1 if f == '-' else 0, 3))
            if k == 5:
                return call(c.pick(['max', 'min']), 'int', 'int')
            if k == 6:
                return call('length', 'list')
            if k == 7:
                return call('vector-length', 'vec')
            if k == 8:
                return call('string-length', 'str')
            if k == 9:
                f = c.pick(['quotient', 'remainder', 'modulo'])
                return [S(f), self.expr('int', scope, d - 1, pure), c.pick([2, 3, 7, -3])]
            if k == 10 and not pure:
                return [S('vector-ref'), self.expr('vec', scope, d - 1, pure), 0]
            if k == 11 or k == 12:
                return self.application(scope, d, pure)
            if k == 13:
                f = c.pick(['apply', 'apply'])
                self.features.add('apply')
                if c.bool():
                    return [S('apply'), S(c.pick(['+', 'max', 'min'])), self.expr('int', scope, d - 1, True), self.expr('list', scope, d - 1, pure)]
                return [S('apply'), self.lam(['int', 'int'], 'int', scope, d - 1, pure), self.expr('int', scope, d - 1, pure),
                        [S('list'), self.expr('int', scope, d - 2, True)]]
            return [S('car'), [S('cons'), self.expr('int', scope, d - 1, pure), self.expr('list', scope, d - 2, True)]]
        if type == 'bool':
            k = c.draw(7)
            if k < 3:
                return call(c.pick(['<', '>', '=', '<=', '>=']), *['int'] * c.int(1, 3))
            if k == 3:
                return call('not', c.pick(['bool', 'int']))
            if k == 4:
                return call(c.pick(['null?', 'pair?']), 'list')
            if k == 5:
                t = c.pick(['list', 'int', 'sym', 'str'])
                return call('equal?', t, t)
            return call(c.pick(['even?', 'odd?', 'zero?', 'positive?']), 'int')
        if type == 'list':
            k = c.draw(10)
            if k < 2:
                return call('cons', 'int', 'list')
            if k == 2:
                return call('list', *['int'] * c.int(0, 4))
            if k == 3:
                return call('append', *['list'] * c.int(1, 3))
            if k == 4:
                return call('reverse', 'list')
            if k == 5 and not pure:
                return call('vector->list', 'vec')
            if k == 6:
                self.features.add('map')
                if c.bool(0.7):
                    return [S('map'), self.lam(['int'], 'int', scope, d - 1, True), self.expr('list', scope, d - 1, pure)]
                return [S('map'), self.lam(['int', 'int'], 'int', scope, d - 1, True), self.expr('list', scope, d - 1, True),
                        self.expr('list', scope, d - 1, pure)]
            if k == 7:
                self.features.add('quasiquote')
                return self.quasi(scope, d, pure)
            if k == 8:
                return [S('let'), [[S('p'), self.expr('list', scope, d - 1, pure)]],
                        [S('if'), [S('pair?'), S('p')], [S('cdr'), S('p')], S('p')]]
            return [S('apply'), [S('lambda'), S('r'), S('r')], self.expr('list', scope, d - 1, pure)]
        if type == 'vec':
            k = c.draw(4)
            if k == 0:
                return call('make-vector', 'int3', 'int')
            if k == 1:
                return call('vector', *['int'] * c.int(1, 3))
            if k == 2:
                return call('vector', 'int')
            return [S('vector-append'), self.expr('vec', scope, d - 1, pure), [S('vector'), 1]]
        if type == 'str':
            k = c.draw(3)
            if k == 0:
                return call('string-append', 'str', 'str')
            if k == 1:
                return call('number->string', 'int')
            return call('symbol->string', 'sym')
        if type == 'int3':
            return c.int(1, 3)
        if type == 'fn':
            return self.lam(['int'], 'int', scope, d - 1, pure)
        if type == 'thunk':
            return self.lam([], 'int', scope, d - 1, pure)
        return self.leaf(type, scope, pure)

    def quasi(self, scope, d, pure):
        c = self.c
        items = []
        impure = c.draw(3)
        n = c.int(1, 3)
        for i in range(n):
            k = c.draw(3)
            p = pure or i != impure
            if k == 0:
                items.append(c.int(0, 9))
            elif k == 1:
                items.append([S('unquote'), self.expr('int', scope, d - 1, p)])
            else:
                items.append([S('unquote-splicing'), self.expr('list', scope, d - 1, p)])
        return [S('quasiquote'), items]

    def application(self, scope, d, pure):
        c = self.c
        fs = self.visible(scope, 'fn', pure)
        if fs and c.bool(0.6) and not pure:
            # functions in scope may have effects
            return [S(c.pick(fs).name), self.expr('int', scope, d - 1, True)]
        ths = self.visible(scope, 'thunk', pure)
        if ths and c.bool(0.5) and not pure:
            return [S(c.pick(ths).name)]
        n = c.int(0, 3)
        return [self.lam(['int'] * n, 'int', scope, d - 1, pure)] + self.args(['int'] * n, scope, d - 1, pure)

    def params(self, types, mut=False):
        out = []
        for t in types:
            name = self.fresh()
            while any(name == v.name for v in out):
                self.n += 1
                name = 'v%d' % self.n
            out.append(Var(name, t, mut and self.c.bool(0.4)))
        return out

    def lam(self, types, result, scope, d, pure):
        c = self.c
        ps = self.params(types, not pure)
        extra = None
        formals = [S(p.name) for p in ps]
        sc = scope + tuple(ps)
        if c.bool(0.15):
            self.features.add('rest')
            name = self.fresh('rest')
            if all(p.name != name for p in ps):
                sc = sc + (Var(name, 'list'),)
                formals = sx.Dot(formals, S(name)) if formals else S(name)
        return [S('lambda'), formals] + self.body(result, sc, d - 1, pure)

    def body(self, type, scope, d, pure):
        """A list of forms: definitions, statements and the result."""
        c = self.c
        out = []
        if d > 0 and c.bool(0.3) and self.fuel > 10:
            self.features.add('internal-define')
            names = set()
            for _ in range(c.int(1, 2)):
                k = c.draw(4)
                name = self.fresh()
                while name in names:
                    self.n += 1
                    name = 'd%d' % self.n
                names.add(name)
                # the scope of a definition is the whole body: hide outer variables of that name first
                scope = tuple(v for v in scope if v.name != name)
                if k < 2:
                    t = c.pick(['int', 'list', 'vec'])
                    out.append(('var', name, t))
                elif k == 2:
                    out.append(('fn', name))
                else:
                    out.append(('loop', name))
            forms = []
            for o in out:
                name = o[1]
                if o[0] == 'var':
                    forms.append([S('define'), S(name), self.expr(o[2], scope, d - 1, pure)])
                    scope = scope + (Var(name, o[2], not pure and c.bool(0.5)),)
                elif o[0] == 'fn':
                    p = self.params(['int'])[0]
                    forms.append([S('define'), [S(name), S(p.name)]] + self.body('int', scope + (p,), d - 2, pure))
                    scope = scope + (Var(name, 'fn', True),)
                else:
                    p = self.params(['int'])[0]
                    if p.name == name:
                        p = Var('i', 'int')
                    forms.append([S('define'), [S(name), S(p.name)],
                                  [S('if'), [S('<'), S(p.name), 1], self.expr('int', scope + (p,), d - 2, pure),
                                   [S('+'), 1, [S(name), [S('-'), [S('min'), S(p.name), 5], 1]]]]])
                    scope = scope + (Var(name, 'fn', True),)
            out = forms
        if not pure:
            for _ in range(c.draw(3) if d > 0 else 0):
                s = self.stmt(scope, d - 1)
                if s is not None:
                    out.append(s)
        out.append(self.expr(type, scope, d, pure))
        return out

    def stmt(self, scope, d):
        """An effect, or None."""
        c = self.c
        if d <= 0 or not self.spend():
            return [S('out'), self.leaf('int', scope, False)]
        k = c.draw(9)
        if k < 3:
            seen, ms = set(), []
            for v in reversed(scope):
                if v.name not in seen and v.mut and v.type in ('int', 'list', 'fn') and not (v.type == 'fn'):
                    ms.append(v)
                seen.add(v.name)
            if ms:
                v = c.pick(ms)
                self.features.add('set!')
                return [S('set!'), S(v.name), self.expr(v.type, scope, d - 1)]
        if k == 3:
            vs = self.visible(scope, 'vec', False)
            if vs:
                self.features.add('vector-set!')
                return [S('vector-set!'), S(c.pick(vs).name), 0, self.expr('int', scope, d - 1)]
        if k == 4:
            return [S(c.pick(['when', 'unless'])), self.expr('bool', scope, d - 1)] + [self.stmt(scope, d - 1) for _ in range(c.int(1, 2))]
        if k == 5:
            self.features.add('for-each')
            p = self.params(['int'])[0]
            return [S('for-each'), [S('lambda'), [S(p.name)], self.stmt(scope + (p,), d - 1)], self.expr('list', scope, d - 1)]
        if k == 6:
            p = self.params(['int'])[0]
            return [S('do'), [[S(p.name), 0, [S('+'), S(p.name), 1]]], [[S('='), S(p.name), c.int(0, 4)]], self.stmt(scope + (p,), d - 2)]
        if k == 7:
            return [S('begin')] + [self.stmt(scope, d - 1) for _ in range(c.int(1, 3))]
        return [S('out'), self.expr(c.pick(['int', 'list', 'bool', 'str']), scope, d - 1)]

    def bindings(self, types, scope, d, pure):
        ps = self.params(types, not pure)
        vs = self.args(types, scope, d, pure)
        return ps, [[S(p.name), v] for p, v in zip(ps, vs)]

    def control(self, type, scope, d, pure):
        c = self.c
        e = lambda t, sc=scope, p=pure: self.expr(t, sc, d - 1, p)
        k = c.draw(22)
        types = lambda: [c.pick(['int', 'int', 'list', 'fn', 'vec', 'bool', 'thunk']) for _ in range(c.int(1, 3))]
        self.features.add('f%d' % k)
        if k < 3:
            return [S('if'), e(c.pick(['bool', 'bool', 'bool', 'int'])), e(type), e(type)]
        if k == 3:
            cl = []
            for _ in range(c.int(0, 3)):
                if c.bool(0.15) and type == 'int':
                    cl.append([[S('and'), e('bool'), self.expr('int', scope, d - 1, True)], S('=>'), self.lam(['int'], 'int', scope, d - 1, pure)])
                else:
                    cl.append([e('bool'), e(type)])
            cl.append([S('else'), e(type)])
            return [S('cond')] + cl
        if k == 4:
            cl = []
            used = set()
            for _ in range(c.int(0, 3)):
                ds = [x for x in {c.int(-3, 12) for _ in range(c.int(1, 3))} if x not in used]
                used.update(ds)
                cl.append([sorted(ds), e(type)])
            if type == 'int' and c.bool(0.3):
                cl.append([S('else'), S('=>'), self.lam(['int'], 'int', scope, d - 1, pure)])
            else:
                cl.append([S('else'), e(type)])
            return [S('case'), e('int')] + cl
        if k == 5 or k == 6:
            ps, bs = self.bindings(types(), scope, d - 1, pure)
            return [S('let'), bs] + self.body(type, scope + tuple(ps), d - 1, pure)
        if k == 7:
            bs, sc = [], scope
            for t in types():
                p = self.params([t], not pure)[0]
                bs.append([S(p.name), self.expr(t, sc, d - 1, pure)])
                sc = sc + (p,)
            return [S('let*'), bs] + self.body(type, sc, d - 1, pure)
        if k == 8 or k == 9:
            return self.named_let(type, scope, d, pure)
        if k == 10 or k == 11:
            return self.do(type, scope, d, pure)
        if k == 12:
            # letrec of mutually recursive procedures
            f, g = 'ev%d' % self.n, 'od%d' % self.n
            self.n += 1
            p = self.params(['int'])[0]
            sc = scope + (p,)
            mk = lambda other: [S('lambda'), [S(p.name)], [S('if'), [S('<'), S(p.name), 1], self.expr('int', sc, d - 2, pure),
                                                          [S(other), [S('-'), [S('min'), S(p.name), 7], 1]]]]
            form = c.pick(['letrec', 'letrec*'])
            inner = scope + (Var(f, 'fn', True), Var(g, 'fn', True))
            return [S(form), [[S(f), mk(g)], [S(g), mk(f)]]] + self.body(type, inner, d - 1, pure)
        if k == 13:
            if type == 'bool':
                return [S(c.pick(['and', 'or']))] + [e('bool') for _ in range(c.int(0, 3))]
            return [S('or'), [S('and'), e('bool'), e(type)], e(type)] if type != 'bool' else True
        if k == 14:
            if pure:
                return [S('begin'), e(type)]
            return [S('begin')] + [self.stmt(scope, d - 1) for _ in range(c.int(1, 2))] + [e(type)]
        if k == 15:
            self.features.add('closure-state')
            # a counter shared by two closures
            n = 'cnt%d' % self.n
            self.n += 1
            if pure:
                return e(type)
            inner = scope + (Var('up', 'thunk', True), Var('get', 'thunk', True))
            return [S('let*'), [[S(n), e('int')],
                                [S('up'), [S('lambda'), [], [S('set!'), S(n), [S('+'), S(n), c.int(1, 3)]], S(n)]],
                                [S('get'), [S('lambda'), [], S(n)]]]] + self.body(type, inner, d - 1, False)
        if k == 16:
            self.features.add('higher-order')
            f = [S('lambda'), [S('f')], [S('lambda'), [S('x')], [S('f'), [S('f'), S('x')]]]]
            if type == 'int':
                return [[f, self.lam(['int'], 'int', scope, d - 2, pure)], e('int')]
            return e(type)
        if k == 17:
            self.features.add('values')
            ps = self.params(['int', 'list'])
            return [S('call-with-values'), [S('lambda'), [], [S('values')] + self.args(['int', 'list'], scope, d - 1, pure)],
                    [S('lambda'), [S(p.name) for p in ps]] + self.body(type, scope + tuple(ps), d - 1, pure)]
        if k == 18:
            self.features.add('let-values')
            ps = self.params(['int', 'int', 'list'])
            if c.bool():
                f = sx.Dot([S(ps[0].name), S(ps[1].name)], S(ps[2].name))
                vals = self.args(['int'] * c.int(2, 4), scope, d - 1, pure)
            else:
                f = [S(p.name) for p in ps]
                vals = self.args(['int', 'int', 'list'], scope, d - 1, pure)
            return [S(c.pick(['let-values', 'let*-values'])), [[f, [S('values')] + vals]]] + self.body(type, scope + tuple(ps), d - 1, pure)
        if k == 19:
            # accumulate by escaping continuation
            self.features.add('call/cc')
            if pure:
                return e(type)
            name = 'ret%d' % self.n
            self.n += 1
            if type in ('int',):
                return [S('call-with-current-continuation'),
                        [S('lambda'), [S(name)]] + self.body(type, scope + (Var(name, 'fn', True),), d - 1, False)]
            return e(type)
        if k == 20:
            # a curried function of the current variables
            if type == 'int':
                return [[self.lam(['int'], 'fn', scope, d - 1, pure), self.expr('int', scope, d - 1, True)], e('int')]
            return e(type)
        return [S('let'), []] + self.body(type, scope, d - 1, pure)

    def named_let(self, type, scope, d, pure):
        c = self.c
        name = 'loop%d' % self.n
        self.n += 1
        i = self.fresh('i')
        acc = self.fresh('acc')
        if acc == i:
            acc = 'acc'
        sc = scope + (Var(i, 'int'), Var(acc, type))
        limit = c.int(0, 6)
        step = self.expr(type, sc, d - 2, pure)
        stmts = [] if pure else [s for s in [self.stmt(sc, d - 2) for _ in range(c.draw(2))] if s]
        return [S('let'), S(name), [[S(i), 0], [S(acc), self.expr(type, scope, d - 1, pure)]],
                [S('if'), [S('<'), S(i), limit],
                 ([S('begin')] + stmts + [[S(name), [S('+'), S(i), 1], step]]) if stmts else [S(name), [S('+'), S(i), 1], step],
                 S(acc)]]

    def do(self, type, scope, d, pure):
        c = self.c
        i = self.fresh('i')
        acc = self.fresh('acc')
        if acc == i:
            acc = 'acc'
        sc = scope + (Var(i, 'int'), Var(acc, type))
        stmts = [] if pure else [s for s in [self.stmt(sc, d - 2) for _ in range(c.draw(2))] if s]
        # the steps are evaluated in no particular order: i's is constant-step, acc's may do anything
        return [S('do'), [[S(i), 0, [S('+'), S(i), 1]],
                          [S(acc), self.expr(type, scope, d - 1, pure), self.expr(type, sc, d - 2, pure)]],
                [[S('>='), S(i), c.int(0, 6)], S(acc)]] + stmts
