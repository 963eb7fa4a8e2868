"""Histories of list operations against a model heap: values, sharing and mutation."""
import gen
import pbt
import sx
from sx import Sym as S


class Pair:
    __slots__ = ('car', 'cdr')

    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr


class Nil:
    pass


NIL = Nil()


class Invalid(Exception):
    pass


def cells(x):
    """The pairs of a finite list, and its tail; Invalid when circular."""
    out = []
    seen = set()
    while isinstance(x, Pair):
        if id(x) in seen:
            raise Invalid
        seen.add(id(x))
        out.append(x)
        x = x.cdr
    return out, x


def items(x):
    ps, t = cells(x)
    if t is not NIL:
        raise Invalid
    return [p.car for p in ps]


def make(xs, tail=NIL):
    for x in reversed(xs):
        tail = Pair(x, tail)
    return tail


def car(x):
    if not isinstance(x, Pair):
        raise Invalid
    return x.car


def cdr(x):
    if not isinstance(x, Pair):
        raise Invalid
    return x.cdr


def acyclic(x, depth=0, path=()):
    if depth > 60:
        raise Invalid
    while isinstance(x, Pair):
        if any(x is p for p in path):
            raise Invalid
        path = path + (x,)
        acyclic(x.car, depth + 1, path)
        x = x.cdr


def equal(a, b):
    while isinstance(a, Pair) and isinstance(b, Pair):
        if not equal(a.car, b.car):
            return False
        a, b = a.cdr, b.cdr
    return eqv(a, b)


def eqv(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, S)):
        return type(a) is type(b) and a == b
    return a is b


def canon_graph(roots):
    ids = {}

    def go(x, depth=0):
        if isinstance(x, Pair):
            if id(x) in ids:
                return ids[id(x)]
            n = ids[id(x)] = len(ids)
            a = go(x.car)
            d = go(x.cdr)
            return [S('p'), n, a, d]
        if x is NIL:
            return []
        if isinstance(x, int) and not isinstance(x, bool):
            return [S('i'), x]
        return x
    return [go(r) for r in roots]


PRELUDE = r'''
(define (verif-graph roots)
  (define seen '())
  (define n 0)
  (define (go x)
    (cond ((pair? x)
           (let ((it (assq x seen)))
             (if it (cdr it)
                 (let ((id n))
                   (set! seen (cons (cons x id) seen))
                   (set! n (+ n 1))
                   (let* ((a (go (car x))) (d (go (cdr x))))
                     (list 'p id a d))))))
          ((number? x) (list 'i x))
          (else x)))
  (let loop ((r roots) (out '()))
    (if (null? r) (reverse out)
        (loop (cdr r) (cons (go (car r)) out)))))
'''

FNS = [('(lambda (x) x)', lambda x: x), ('(lambda (x) (cons x x))', lambda x: Pair(x, x)), ('(lambda (x) 7)', lambda x: 7),
       ('list', lambda x: make([x])), ('pair?', lambda x: isinstance(x, Pair))]
FNS2 = [('cons', lambda x, y: Pair(x, y)), ('list', lambda x, y: make([x, y])), ('(lambda (x y) y)', lambda x, y: y), ('eqv?', eqv)]


class Check(pbt.Property):
    id = 'P10'
    imports = '(import (scheme cxr) (only (srfi 1) iota))'
    timeout = 60.0
    prelude = PRELUDE
    batch = 40
    quick = 700
    thorough = 40000
    rule = 'a history with at least five operations that ends with at least one shared or mutated pair'
    assumptions = ['lists from list, cons and friends, never literal constants, are mutated', 'fixnums stand for atoms: eq? on them is not relied on']

    def long(self, c):
        """A list of 10^4 to 3*10^5 elements through one or two procedures, against its sums."""
        n = c.pick([10000, 50000, 120000, 200000])
        m = c.int(1, 100)
        xs = list(range(n))
        code = "(iota %d)" % n
        for _ in range(c.int(1, 2)):
            k = c.draw(11)
            if k == 0:
                code, xs = '(append %s (list 1 2 3))' % code, xs + [1, 2, 3]
            elif k == 1:
                code, xs = '(list-copy %s)' % code, xs
            elif k == 2:
                code, xs = '(reverse %s)' % code, xs[::-1]
            elif k == 3:
                code, xs = '(map (lambda (x) (+ x %d)) %s)' % (m, code), [x + m for x in xs]
            elif k == 4:
                code, xs = '(apply list %s)' % code, xs
            elif k == 5:
                code, xs = '(list-tail %s %d)' % (code, m), xs[m:]
            elif k == 6:
                code, xs = '(let ((l %s)) (append l l))' % code, xs + xs
            elif k == 7:
                code, xs = '(apply (lambda (a . r) (cons %d r)) %s)' % (m, code), [m] + xs[1:]
            elif k == 8:
                code, xs = '(map + %s (make-list %d %d))' % (code, len(xs), m), [x + m for x in xs]
            elif k == 9:
                code, xs = '(vector->list (list->vector %s))' % code, xs
            else:
                code, xs = '(let ((l %s) (r (list 1))) (for-each (lambda (x) (set-car! r (+ x 1))) l) (append l r))' % code, xs + [xs[-1] + 1]
            if len(xs) > 200000:
                break
        i = len(xs) - 1 - c.draw(m)
        return pbt.Case('(let ((l %s)) (list (list? l) (length l) (apply + l) (car l) (list-ref l %d) (pair? (memv (list-ref l %d) l))))' % (code, i, i),
                        expect=sx.show([True, len(xs), sum(xs), xs[0], xs[i], True]), nontrivial=True, labels=['long'])

    def gen(self, c):
        if c.draw(800) == 799:
            return self.long(c)
        env = []            # (name, value)
        steps = []
        mutated = [False]

        def atom():
            k = c.draw(3)
            return c.int(-9, 9) if k == 0 else S(c.pick('abcde')) if k == 1 else c.bool()

        def arg(kind=None):
            """(source, value)"""
            pool = [(n, v) for n, v in env if kind is None or kind(v)]
            if pool and c.bool(0.8):
                return c.pick(pool)
            if kind is None or kind(3):
                a = atom()
                if kind is None or kind(a):
                    return sx.lit(a), a
            k = c.int(1, 4)
            xs = [atom() for _ in range(k)]
            return '(list %s)' % ' '.join(map(sx.lit, xs)), make(xs)

        def isp(v):
            return isinstance(v, Pair)

        def islist(v):
            if not isp(v) and v is not NIL:
                return False
            try:
                items(v)
                return True
            except Invalid:
                return False

        def isflat(v):
            if not islist(v):
                return False
            try:
                acyclic(v)
                return True
            except Invalid:
                return False

        def finite(v):
            try:
                cells(v)
                return True
            except Invalid:
                return False

        def ok(v):
            try:
                acyclic(v)
                return True
            except Invalid:
                return False

        def isalist(v):
            return islist(v) and all(isp(x) for x in items(v))

        def op():
            k = c.draw(24)
            if k == 0:
                (a, x), (b, y) = arg(), arg()
                return '(cons %s %s)' % (a, b), Pair(x, y)
            if k == 1:
                xs = [arg() for _ in range(c.int(0, 4))]
                return '(list %s)' % ' '.join(a for a, _ in xs), make([v for _, v in xs])
            if k == 2:
                n = c.int(0, 4)
                a, x = arg()
                return '(make-list %d %s)' % (n, a), make([x] * n)
            if k == 3:
                a, x = arg(isp)
                name = ''.join(c.pick('ad') for _ in range(c.int(1, 4)))
                v = x
                for ch in reversed(name):
                    v = car(v) if ch == 'a' else cdr(v)
                return '(c%sr %s)' % (name, a), v
            if k in (4, 5):
                a, x = arg(isp)
                b, y = arg()
                if not a.startswith('v'):
                    raise Invalid
                mutated[0] = True
                if c.bool():
                    x.car = y
                    return '(begin (set-car! %s %s) 0)' % (a, b), 0
                x.cdr = y
                return '(begin (set-cdr! %s %s) 0)' % (a, b), 0
            if k in (6, 7):
                xs = [arg(islist) for _ in range(c.int(0, 3))]
                l = [arg()] if c.bool(0.8) else []
                if l and not finite(l[0][1]) and not xs:
                    pass
                vs = [v for _, v in xs]
                if not l:
                    if not xs:
                        return '(append)', NIL
                    last = vs.pop()
                else:
                    last = l[0][1]
                out = []
                for v in vs:
                    out += items(v)
                return '(append %s)' % ' '.join(a for a, _ in xs + l), make(out, last)
            if k == 8:
                a, x = arg(islist)
                return '(reverse %s)' % a, make(items(x)[::-1])
            if k == 9:
                a, x = arg(finite)
                ps, t = cells(x)
                n = c.draw(len(ps) + 1)
                return '(list-tail %s %d)' % (a, n), ([*ps, t])[n]
            if k == 10:
                a, x = arg(lambda v: isp(v) and finite(v))
                ps, t = cells(x)
                n = c.draw(len(ps))
                return '(list-ref %s %d)' % (a, n), ps[n].car
            if k == 11:
                a, x = arg(lambda v: isp(v) and finite(v))
                ps, t = cells(x)
                n = c.draw(len(ps))
                b, y = arg()
                if not a.startswith('v'):
                    raise Invalid
                mutated[0] = True
                ps[n].car = y
                return '(begin (list-set! %s %d %s) 0)' % (a, n, b), 0
            if k == 12:
                a, x = arg(finite)
                ps, t = cells(x)
                return '(list-copy %s)' % a, make([p.car for p in ps], t)
            if k == 13:
                a, x = arg(islist)
                return '(length %s)' % a, len(items(x))
            if k == 14:
                a, x = arg()
                return '(list? %s)' % a, islist(x)
            if k in (15, 16):
                a, x = arg()
                b, y = arg(islist)
                name, f = c.pick([('memq', eqv), ('memv', eqv), ('member', equal)])
                if name == 'memq' and isinstance(x, int) and not isinstance(x, bool):
                    name = 'memv'
                extra = ''
                if name == 'member':
                    if not ok(x) or not ok(y):
                        raise Invalid
                    if c.bool(0.4):
                        extra, f = c.pick([(' eqv?', eqv), (' (lambda (p q) (eqv? q 3))', lambda p, q: eqv(q, 3)),
                                           (' (lambda (p q) (pair? q))', lambda p, q: isp(q)), (' (lambda (p q) (eqv? p q))', eqv)])
                ps, _ = cells(y)
                for p in ps:
                    if f(x, p.car):
                        return '(%s %s %s%s)' % (name, a, b, extra), p
                return '(%s %s %s%s)' % (name, a, b, extra), False
            if k in (17, 18):
                b, y = arg(isalist)
                if not isalist(y) or not isp(y):
                    ks = [atom() for _ in range(c.int(1, 4))]
                    b = '(list %s)' % ' '.join('(cons %s %d)' % (sx.lit(q), i) for i, q in enumerate(ks))
                    y = make([Pair(q, i) for i, q in enumerate(ks)])
                a, x = arg()
                if c.bool(0.6):
                    q = c.pick(items(y)).car
                    if not isp(q) and q is not NIL:
                        a, x = sx.lit(q), q
                name, f = c.pick([('assq', eqv), ('assv', eqv), ('assoc', equal)])
                if name == 'assq' and isinstance(x, int) and not isinstance(x, bool):
                    name = 'assv'
                extra = ''
                if name == 'assoc':
                    if not ok(x) or not ok(y):
                        raise Invalid
                    if c.bool(0.4):
                        extra, f = c.pick([(' eqv?', eqv), (' (lambda (p q) (not (eqv? p q)))', lambda p, q: not eqv(p, q))])
                for e in items(y):
                    if f(x, e.car):
                        return '(%s %s %s%s)' % (name, a, b, extra), e
                return '(%s %s %s%s)' % (name, a, b, extra), False
            if k == 19:
                f, g = c.pick(FNS)
                a, x = arg(islist)
                return '(map %s %s)' % (f, a), make([g(v) for v in items(x)])
            if k == 20:
                f, g = c.pick(FNS2)
                (a, x), (b, y) = arg(islist), arg(islist)
                return '(map %s %s %s)' % (f, a, b), make([g(v, w) for v, w in zip(items(x), items(y))])
            if k == 21:
                a, x = arg(islist)
                j = c.draw(4)
                if j == 0:
                    return '(vector->list (list->vector %s))' % a, make(items(x))
                if j == 1:
                    return '(apply list %s)' % a, make(items(x))
                if j == 2:
                    b, y = arg()
                    return '(apply cons %s (list %s))' % (b, a), Pair(y, x)
                return "(let ((r '())) (for-each (lambda (x) (set! r (cons x r))) %s) r)" % a, make(items(x)[::-1])
            if k == 22:
                (a, x), (b, y) = arg(), arg()
                if not ok(x) or not ok(y):
                    raise Invalid
                return '(equal? %s %s)' % (a, b), equal(x, y)
            (a, x), (b, y), (d, z) = arg(islist), arg(islist), arg(islist)
            n = min(len(items(x)), len(items(y)), len(items(z)))
            return "(map list %s %s %s)" % (a, b, d), make([make([p, q, r]) for p, q, r in zip(items(x), items(y), items(z))])

        for i in range(c.int(2, 14)):
            for _ in range(10):
                try:
                    code, v = op()
                    break
                except Invalid:
                    continue
            else:
                continue
            name = 'v%d' % len(env)
            env.append((name, v))
            steps.append('(%s %s)' % (name, code))
        g = canon_graph([v for _, v in env])
        text = sx.show(g)
        if len(text) > 6000:
            return pbt.Case('0', expect='0', nontrivial=False)
        code = '(let* (%s) (verif-graph (list %s)))' % ('\n'.join(steps), ' '.join(n for n, _ in env))
        shared = text.count('(p ') < sum(isinstance(v, Pair) for _, v in env) or mutated[0]
        return pbt.Case(code, expect=text, nontrivial=len(env) >= 5 and shared, labels=['mutation'] if mutated[0] else [])
