"""Generated programs about control: continuations, dynamic-wind, exceptions, parameters.

Every expression yields an integer.  Only contexts with a defined order of
evaluation hold impure expressions.  `(out x)' appends to the log.
"""
import pbt
import ref
import sx
from sx import Sym as S


def app(name, *xs):
    return [S(name)] + list(xs)


def lam(params, *body):
    return [S('lambda'), [S(p) for p in params]] + list(body)


PRELUDE = '''
(define verif-log '())
(define (out x) (set! verif-log (cons x verif-log)))
(define (obj x)
  (cond ((error-object? x)
         (if (memv (string-ref (error-object-message x) 0) '(#\\~))
             (list 'err (error-object-message x) (error-object-irritants x))
             'sys))
        ((procedure? x) 'procedure)
        (else x)))
(define (num x) (if (and (number? x) (exact? x)) x 7))
'''

# expressions that signal an error the program can catch
SYSTEM = [
    lambda: app('+', [S('quote'), S('a')], 1),
    lambda: app('string-ref', 'abc', 5),
    lambda: app('symbol->string', 1),
    lambda: app('integer->char', [S('quote'), S('a')]),
    lambda: [1, 2],
    lambda: ['str'],
]


class Ctl:
    def __init__(self, c, weights, fuel=45):
        self.c = c
        self.weights = weights
        self.fuel = fuel
        self.n = 0
        self.out_n = 0
        self.features = set()

    def name(self, base):
        self.n += 1
        return '%s%d' % (base, self.n)

    def log(self):
        self.out_n += 1
        return app('out', self.out_n)

    def const(self):
        return self.c.int(0, 9)

    def leaf(self, sc):
        c = self.c
        vs = sc['vars']
        if vs and c.bool(0.4):
            return S(c.pick(vs))
        if c.bool(0.25):
            return [S(c.pick(['p0', 'p1', 'p2']))]
        return self.const()

    def e(self, d, sc):
        self.fuel -= 1
        if d <= 0 or self.fuel <= 0:
            return self.leaf(sc)
        k = self.c.weighted(self.weights)
        return getattr(self, 'e_' + k)(d - 1, sc)

    def bind(self, sc, kind, *names):
        new = dict(sc)
        new[kind] = sc[kind] + list(names)
        # a name is of one kind only
        return new

    # -- plain ------------------------------------------------------------
    def e_leaf(self, d, sc):
        return self.leaf(sc)

    def e_seq(self, d, sc):
        return app('begin', self.log(), self.e(d, sc))

    def e_two(self, d, sc):
        return app('begin', self.e(d, sc), self.e(d, sc))

    def e_let(self, d, sc):
        v = self.name('v')
        return [S('let*'), [[S(v), self.e(d, sc)]], app('out', S(v)), self.e(d, self.bind(sc, 'vars', v))]

    def e_add(self, d, sc):
        return app('+', self.const(), self.e(d, sc)) if self.c.bool() else app('+', self.e(d, sc), self.const())

    def e_if(self, d, sc):
        return app('if', app('odd?', self.e(d, sc)), self.e(d, sc), self.e(d, sc))

    def e_set(self, d, sc):
        v = self.name('m')
        inner = self.bind(sc, 'vars', v)
        return [S('let'), [[S(v), self.const()]], self.e(d, inner), app('set!', S(v), app('+', S(v), self.e(d, inner))), self.e(d, inner)]

    def e_loop(self, d, sc):
        self.features.add('loop')
        f, i = self.name('loop'), self.name('i')
        inner = self.bind(sc, 'vars', i)
        return [S('let'), S(f), [[S(i), 0]],
                app('if', app('<', S(i), self.c.int(1, 3)), app('begin', self.e(d, inner), [S(f), app('+', S(i), 1)]), self.e(d, sc))]

    def e_foreach(self, d, sc):
        x = self.name('x')
        k = self.c.draw(2)
        xs = [self.const() for _ in range(self.c.int(1, 3))]
        body = lam([x], app('out', S(x)), self.e(d, self.bind(sc, 'vars', x)))
        return app('begin', app('for-each', body, [S('quote'), xs]) if k == 0 else app('vector-for-each', body, sx.Vec(xs)), self.e(d, sc))

    def e_call(self, d, sc):
        f, x = self.name('f'), self.name('x')
        return [S('let'), [[S(f), lam([x], self.e(d, self.bind(sc, 'vars', x)))]], app('begin', [S(f), self.e(d, sc)], [S(f), self.const()])]

    def e_apply(self, d, sc):
        x, y = self.name('x'), self.name('y')
        return app('apply', lam([x, y], self.e(d, self.bind(sc, 'vars', x, y))), app('list', self.const(), self.e(d, sc)))

    # -- continuations ------------------------------------------------------
    def e_wind(self, d, sc):
        self.features.add('wind')
        def guard_thunk():
            body = [self.log()]
            if self.c.bool(0.3):
                body.append(app('out', app('list', [S('p0')], [S('p1')], [S('p2')])))
            return lam([], *body)
        return app('dynamic-wind', guard_thunk(), lam([], self.e(d, sc)), guard_thunk())

    def e_cc(self, d, sc):
        self.features.add('call/cc')
        k = self.name('k')
        return app(self.c.pick(['call/cc', 'call-with-current-continuation']), lam([k], self.e(d, self.bind(sc, 'ks', k))))

    def e_throw(self, d, sc):
        if not sc['ks']:
            return self.e_cc(d, sc)
        self.features.add('throw')
        k = S(self.c.pick(sc['ks']))
        return [k, self.e(d, sc)] if self.c.bool(0.8) else app('apply', k, app('list', self.e(d, sc)))

    def e_save(self, d, sc):
        self.features.add('save')
        k = self.name('k')
        return app('call/cc', lam([k], app('set!', S(self.c.pick(['s0', 's1', 's2'])), S(k)), self.e(d, self.bind(sc, 'ks', k))))

    def e_reenter(self, d, sc):
        self.features.add('reenter')
        return app('if', app('<', 0, S('fuel')),
                   app('begin', app('set!', S('fuel'), app('-', S('fuel'), 1)), [S(self.c.pick(['s0', 's1', 's2'])), self.e(d, sc)]),
                   self.e(d, sc))

    def e_values(self, d, sc):
        k, a, b = self.name('k'), self.name('a'), self.name('b')
        return app('call-with-values',
                   lam([], app('call/cc', lam([k], [S(k), self.const(), self.e(d, sc)]))),
                   lam([a, b], app('out', app('list', S(a), S(b))), self.e(d, self.bind(sc, 'vars', a, b))))

    def e_gen(self, d, sc):
        """A generator that leaves and re-enters a for-each."""
        self.features.add('generator')
        ret, next_, k, x = self.name('ret'), self.name('next'), self.name('k'), self.name('x')
        xs = [self.const() for _ in range(self.c.int(1, 3))]
        inner = self.bind(sc, 'vars', x)
        producer = lam([], app('for-each', lam([x], self.e(d - 1, inner),
                                               app('call/cc', lam([k], app('set!', S(next_), S(k)), [S(ret), S(x)]))), [S('quote'), xs]), [S(ret), 99])
        step = lam([], app('call/cc', lam(['r@'], app('set!', S(ret), S('r@')), app('if', S(next_), [S(next_), 0], [producer]))))
        g = self.name('g')
        pulls = [app('out', [S(g)]) for _ in range(self.c.int(1, len(xs) + 1))]
        return [S('let*'), [[S(ret), False], [S(next_), False], [S(g), step]]] + pulls + [self.e(d, sc)]

    # -- exceptions -----------------------------------------------------------
    def raised(self, d, sc):
        c = self.c
        k = c.draw(6)
        if k < 3:
            return self.e(d, sc)
        if k == 3:
            return [S('quote'), S(c.pick(['oops', 'boom', 'a']))]
        if k == 4:
            return app('list', self.const(), self.e(d, sc))
        return 'str'

    def e_raise(self, d, sc):
        self.features.add('raise')
        return app('raise', self.raised(d, sc))

    def e_raisec(self, d, sc):
        self.features.add('raise-continuable')
        return app('num', app('raise-continuable', self.raised(d, sc)))

    def e_error(self, d, sc):
        self.features.add('error')
        return app('error', '~' + self.c.pick(['a', 'b', '']), *[x for x in [self.e(d, sc), [S('quote'), S('z')], 'i'][:self.c.draw(4)]])

    def e_system(self, d, sc):
        self.features.add('system error')
        return self.c.pick(SYSTEM)()

    def handler_body(self, d, x, sc):
        c = self.c
        k = c.draw(8)
        out = app('out', app('list', [S('quote'), S('h')], app('obj', S(x))))
        if k < 3:
            return [out, self.e(d, sc)]
        if k < 5 and sc['ks']:
            return [out, [S(c.pick(sc['ks'])), app('num', S(x))]]
        if k == 5:
            return [out, app(c.pick(['raise', 'raise-continuable']), S(x))]
        if k == 6:
            return [out, app('if', app('number?', S(x)), self.e(d, sc), app('raise', S(x)))]
        return [out, app('num', S(x))]

    def e_handler(self, d, sc):
        self.features.add('handler')
        x = self.name('x')
        h = lam([x], *self.handler_body(d, x, sc))
        return app('with-exception-handler', h, lam([], self.e(d, sc)))

    def e_catch(self, d, sc):
        """Handlers usually escape."""
        self.features.add('handler')
        k, x = self.name('k'), self.name('x')
        inner = self.bind(sc, 'ks', k)
        return app('call/cc', lam([k], app('with-exception-handler',
                                           lam([x], app('out', app('obj', S(x))), [S(k), self.e(d, sc)]),
                                           lam([], self.e(d, inner)))))

    def e_guard(self, d, sc):
        self.features.add('guard')
        c = self.c
        x = self.name('x')
        cl = []
        for _ in range(c.int(1, 3)):
            k = c.draw(7)
            if k == 0:
                cl.append([app('symbol?', S(x)), app('out', S(x)), self.e(d, sc)])
            elif k == 1:
                cl.append([app('number?', S(x)), self.e(d, sc)])
            elif k == 2:
                cl.append([app('error-object?', S(x)), app('out', app('obj', S(x))), self.e(d, sc)])
            elif k == 3:
                y = self.name('y')
                cl.append([app('memv', S(x), [S('quote'), [1, 2, 3, 4, 5, S('oops')]]), S('=>'), lam([y], app('out', S(y)), self.e(d, sc))])
            elif k == 4:
                cl.append([app('and', app('number?', S(x)), app('odd?', S(x)), S(x))])
            elif k == 5:
                cl.append([app('begin', self.log(), False), self.e(d, sc)])
            else:
                cl.append([app('string?', S(x)), app('raise', [S('quote'), S('again')])])
        if c.bool(0.5):
            cl.append([S('else'), app('out', app('obj', S(x))), self.e(d, sc)])
        return app('num', [S('guard'), [S(x)] + cl, self.e(d, sc)])

    # -- parameters and promises -------------------------------------------------
    def e_param(self, d, sc):
        self.features.add('parameterize')
        bs = []
        for p in self.c.sample(['p0', 'p1', 'p2'], self.c.int(1, 2)):
            bs.append([S(p), self.e(d, sc) if not bs else self.const()])
        return [S('parameterize'), bs, self.e(d, sc)]

    def e_params(self, d, sc):
        return app('begin', app('out', app('list', [S('p0')], [S('p1')], [S('p2')])), self.e(d, sc))

    def e_force(self, d, sc):
        self.features.add('promise')
        v = self.name('pr')
        return [S('let'), [[S(v), app('delay', self.e(d, sc))]], app('out', app('force', S(v))), self.e(d, sc), app('force', S(v))]


class Observed(ref.Overrun):
    pass


def machine(limit):
    m = ref.Machine(limit)
    log = []
    v = m.globals.vars

    def seen(f):
        def g(*xs):
            for x in xs:
                if x is ref.SECONDARY:
                    raise Observed()    # the program depends on an object the report leaves open
            return f(*xs)
        return g

    def obj(x):
        if isinstance(x, ref.Err):
            if x.system:
                return sx.Sym('sys')
            return ref.heap([sx.Sym('err'), ''.join(x.msg.s), ref.unheap(x.irritants)])
        return sx.Sym('procedure') if ref.proc(x) else x
    v['out'] = ref.Prim('out', seen(lambda x: log.append(ref.unheap(x)) or sx.UNSPEC))
    v['obj'] = ref.Prim('obj', seen(obj))
    v['num'] = ref.Prim('num', seen(lambda x: x if ref.isnum(x) else 7))
    for n in ('number?', 'symbol?', 'error-object?', 'string?', 'memv', 'odd?'):
        v[n] = ref.Prim(n, seen(v[n].fn))
    m.system_errors = True
    return m, log


CONV = {'p1': lam(['x'], app('+', S('x'), 10)), 'p2': lam(['x'], app('out', app('list', [S('quote'), S('conv')], S('x'))), app('*', S('x'), 2))}


def program(body):
    """The whole expression: fresh state, the body, and what no handler caught."""
    return [S('let'), [[S('fuel'), 6], [S('s0'), lam(['x'], S('x'))], [S('s1'), lam(['x'], S('x'))], [S('s2'), lam(['x'], S('x'))],
                       [S('p0'), app('make-parameter', 1)]],
            [S('let*'), [[S('p1'), app('make-parameter', 2, CONV['p1'])], [S('p2'), app('make-parameter', 3, CONV['p2'])]],
             app('let', [[S('v'), app('call/cc', lam(['k@'], app('with-exception-handler',
                                                                lam(['e@'], [S('k@'), app('list', [S('quote'), S('uncaught')], app('obj', S('e@')))]),
                                                                lam([], body))))]],
                 app('list', S('v'), app('list', [S('p0')], [S('p1')], [S('p2')])))]]


class Check(pbt.Property):
    imports = '(import (scheme lazy))\n'
    prelude = PRELUDE
    batch = 40
    quick = 200
    thorough = 30000
    limit = 8000
    depth = 7
    fuel = 45
    weights = []
    assumptions = ['the reference interpreter lib/ref.py (winds and handler stacks as in the formal semantics of R7RS)',
                   'before and after thunks are neither left nor entered by continuations (unspecified in R7RS)',
                   'programs that look at the object of a secondary exception (a handler returned from raise) are not generated']

    def interesting(self, m, g):
        raise NotImplementedError

    def gen(self, c):
        for _ in range(20):
            g = Ctl(c, self.weights, self.fuel)
            body = g.e(self.depth, {'vars': [], 'ks': []})
            p = program(body)
            try:
                m, log = machine(self.limit)
                v = m.run(p)
                expect = sx.show([ref.unheap(v), log])
            except (ref.Overrun, RecursionError, ref.Uncaught):
                continue
            if len(expect) > 4000 or '#;secondary' in expect:
                continue
            code = "(begin (set! verif-log '()) (let ((v %s)) (list v (reverse verif-log))))" % ref.src(p)
            return pbt.Case(code.replace('@', ''), expect, nontrivial=self.interesting(m, g), labels=sorted(g.features))
        return pbt.Case('1', '1', nontrivial=False)
