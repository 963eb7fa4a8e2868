"""Exact arithmetic against Python's integers and fractions."""
import math
from fractions import Fraction as F

import gen
import pbt
import sx


def isint(x):
    return not isinstance(x, bool) and (isinstance(x, int) or x.denominator == 1)


def rnd(x):
    return round(x)  # Python rounds ties to even


class Check(pbt.Property):
    id = 'P05'
    batch = 60
    quick = 2400
    thorough = 60000
    imports = '(import (scheme complex) (scheme inexact))'
    rule = 'an expression over exact operands in which some operand or result is outside the 32-bit range or is a ratio'
    assumptions = ['Python 3.12 int and fractions.Fraction are correct']

    def expr(self, c, depth):
        """(source, value); value an int/Fraction"""
        if depth == 0 or c.bool(0.2):
            v = gen.exact(c)
            return str(v), v
        k = c.draw(17)
        sub = lambda: self.expr(c, depth - 1)
        if k == 0 or k == 1:
            n = c.int(0, 4)
            xs = [sub() for _ in range(n)]
            return '(+%s)' % ''.join(' ' + s for s, _ in xs), sum((v for _, v in xs), 0)
        if k == 2 or k == 3:
            n = c.int(0, 3)
            xs = [sub() for _ in range(n)]
            p = 1
            for _, v in xs:
                p *= v
            return '(*%s)' % ''.join(' ' + s for s, _ in xs), p
        if k == 4 or k == 5:
            xs = [sub() for _ in range(c.int(1, 4))]
            v = -xs[0][1] if len(xs) == 1 else xs[0][1] - sum(v for _, v in xs[1:])
            return '(-%s)' % ''.join(' ' + s for s, _ in xs), v
        if k == 6:
            xs = [sub() for _ in range(c.int(1, 3))]
            xs = [x for i, x in enumerate(xs) if x[1] != 0 or (i == 0 and len(xs) > 1)]
            if not xs or (len(xs) == 1 and xs[0][1] == 0):
                return '7', 7
            v = F(xs[0][1])
            if len(xs) == 1:
                v = 1 / v
            for _, d in xs[1:]:
                v /= d
            return '(/%s)' % ''.join(' ' + s for s, _ in xs), v
        if k == 7:
            s, v = sub()
            f, g = c.pick([('abs', abs), ('square', lambda x: x * x), ('numerator', lambda x: F(x).numerator),
                           ('denominator', lambda x: F(x).denominator), ('exact', lambda x: x), ('magnitude', abs),
                           ('real-part', lambda x: x), ('imag-part', lambda x: 0)])
            return '(%s %s)' % (f, s), g(v)
        if k == 8:
            s, v = sub()
            f, g = c.pick([('floor', math.floor), ('ceiling', math.ceil), ('truncate', math.trunc), ('round', rnd)])
            if c.bool(0.3):
                w = c.int(-9, 9)
                s, v = '(+ %s 1/2)' % w, F(2 * w + 1, 2)
            return '(%s %s)' % (f, s), g(v)
        if k == 9:
            xs = [sub() for _ in range(c.int(1, 4))]
            f, g = c.pick([('max', max), ('min', min)])
            return '(%s%s)' % (f, ''.join(' ' + s for s, _ in xs)), g(v for _, v in xs)
        if k == 10:
            xs = [gen.integer(c) for _ in range(c.int(0, 3))]
            if c.bool() and xs:
                m = gen.integer(c, 60)
                xs = [x * m for x in xs]
            f, g = c.pick([('gcd', math.gcd), ('lcm', math.lcm)])
            return '(%s%s)' % (f, ''.join(' %d' % x for x in xs)), g(*xs)
        if k == 11:
            s, v = sub()
            e = c.int(-12, 12)
            if v == 0 and e < 0:
                e = -e
            if max(abs(F(v).numerator), F(v).denominator).bit_length() * abs(e) > 20000:
                e = c.int(0, 2)
            return '(expt %s %d)' % (s, e), F(v) ** e
        if k == 12:
            n = abs(gen.integer(c))
            if c.bool():
                n = n * n + c.int(-1, 1)
                n = max(n, 0)
            r = math.isqrt(n)
            return ('(call-with-values (lambda () (exact-integer-sqrt %d)) (lambda (s r) (+ (* s 1000) r)))' % n,
                    r * 1000 + (n - r * r))
        if k == 13:
            n = abs(gen.integer(c, 40))
            n = n * n
            return '(sqrt %s)' % gen.norm(n), F(math.isqrt(F(n).numerator), math.isqrt(F(n).denominator))
        if k == 14:
            s, v = sub()
            p, w = self.test(c, depth - 1)
            a, b = sub(), sub()
            return '(if %s %s %s)' % (p, a[0], b[0]), a[1] if w else b[1]
        if k == 15:
            s, v = sub()
            return '(let ((x %s)) (- (+ x x) x))' % s, v
        s, v = sub()
        if not isint(v):
            return '(exact-integer? %s)' % s and s, v
        return c.pick([('(- (+ %s 1) 1)' % s, v), ('(exact-integer-sqrt (* %s 0))' % s, 0)][:1])

    def test(self, c, depth):
        k = c.draw(3)
        if k == 0:
            xs = [self.expr(c, depth) for _ in range(c.int(2, 4))]
            if c.bool(0.4):
                xs[1] = (xs[1][0], xs[1][1])
                xs.insert(1, ('(+ 0 %s)' % xs[0][0], xs[0][1]))
            if c.bool(0.3):
                xs.sort(key=lambda x: x[1], reverse=c.bool())
            f = c.pick(['=', '<', '>', '<=', '>='])
            import operator as o
            g = {'=': o.eq, '<': o.lt, '>': o.gt, '<=': o.le, '>=': o.ge}[f]
            return ('(%s%s)' % (f, ''.join(' ' + s for s, _ in xs)),
                    all(g(a[1], b[1]) for a, b in zip(xs, xs[1:])))
        s, v = self.expr(c, depth)
        if k == 1 and isint(v):
            f, g = c.pick([('odd?', lambda x: x % 2 == 1), ('even?', lambda x: x % 2 == 0)])
            return '(%s %s)' % (f, s), bool(g(v))
        f, g = c.pick([('zero?', lambda x: x == 0), ('positive?', lambda x: x > 0), ('negative?', lambda x: x < 0),
                       ('integer?', isint), ('rational?', lambda x: True), ('exact?', lambda x: True),
                       ('inexact?', lambda x: False), ('exact-integer?', isint), ('exact-rational?', lambda x: True),
                       ('real?', lambda x: True), ('number?', lambda x: True), ('complex?', lambda x: True)][:12])
        if f == 'exact-rational?':
            f = 'rational?'
        return '(%s %s)' % (f, s), g(v)

    def gen(self, c):
        if c.bool(0.3):
            s, v = self.test(c, 2)
            exp = sx.show(bool(v))
            big = len(s) > 16
        elif c.bool(0.15):
            v = gen.exact(c)
            r = c.pick([2, 8, 10, 16])
            exp = sx.show(radix(v, r))
            s = '(number->string %s %d)' % (v, r)
            if c.bool():
                s, exp = '(string->number %s %d)' % (exp, r), sx.show(gen.norm(v))
            big = abs(v) > 2**31
        else:
            s, v = self.expr(c, 3)
            v = gen.norm(v)
            exp = sx.show(v)
            big = isinstance(v, F) or abs(v) >= 2**31 or any(len(t) > 9 for t in s.split())
        return pbt.Case(s, expect=exp, nontrivial=big)


def radix(v, r):
    if isinstance(v, F) and v.denominator != 1:
        return radix(v.numerator, r) + '/' + radix(v.denominator, r)
    v = int(v)
    if v < 0:
        return '-' + radix(-v, r)
    return {2: '{:b}', 8: '{:o}', 10: '{:d}', 16: '{:x}'}[r].format(v)
