"""SRFI 143 and SRFI 144 against Python."""
import math
from fractions import Fraction as F

import gen
import pbt
import sx
from p08_flonum import close, either, safe, div

W = 32
LO, HI = -2**31, 2**31 - 1


def fx(c):
    k = c.draw(5)
    if k == 0:
        return c.int(-20, 20)
    if k == 1:
        return c.pick([LO, LO + 1, HI, HI - 1, -1, 0, 1, 65535, 65536, -65536, 46340, 46341, -46341])
    if k == 2:
        n = 2 ** c.draw(31) + c.int(-1, 1)
        return -n if c.bool() else n
    n = c.draw(2 ** c.int(1, 31))
    return -n if c.bool() else n


def tq(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def bal(s):
    m = 2**W
    r = (s + m // 2) % m - m // 2
    return r, (s - r) // m


def field(n, s, e): return (n >> s) & ((1 << (e - s)) - 1)


def setfield(n, s, e, v): return (n & ~(((1 << (e - s)) - 1) << s)) | (v << s)


def rot(n, k, s, e):
    w = e - s
    if w == 0:
        return n
    k %= w
    v = field(n, s, e)
    return setfield(n, s, e, ((v << k) | (v >> (w - k))) & ((1 << w) - 1))


def rev(n, s, e):
    v = field(n, s, e)
    w = e - s
    return setfield(n, s, e, int(format(v, '0%db' % w)[::-1], 2) if w else 0)


class Check(pbt.Property):
    id = 'P34'
    demos = {'fl-least': ('(< 0 (/ fl-least 2) fl-least)', '#f')}
    imports = '(import (srfi 143) (srfi 144) (only (scheme base) exact? inexact?))'
    batch = 60
    quick = 1200
    thorough = 40000
    rule = 'every case: one or more fixnum or flonum operations on generated operands'
    assumptions = ['fixnums are the 32-bit integers (fx-least..fx-greatest)', 'libm functions of Python and C++ agree within 4 ulp',
                   'fxarithmetic-shift-left is applied where the result is a fixnum; fxbit-count of a negative number counts zeros']

    def gen(self, c):
        return self.fixnum(c) if c.bool() else self.flonum(c)

    def fixnum(self, c):
        a, b, d = fx(c), fx(c), fx(c)
        ok = lambda v: LO <= v <= HI
        k = c.draw(16)
        if k == 0:
            op, f = c.pick([('fx+', lambda a, b: a + b), ('fx-', lambda a, b: a - b), ('fx*', lambda a, b: a * b)])
            if not ok(f(a, b)):
                a, b = c.int(-46340, 46340), c.int(-46340, 46340)
            return self.c('(%s %d %d)' % (op, a, b), f(a, b), op)
        if k == 1:
            b = b or 3
            if (a, b) == (LO, -1):
                b = 2
            op, v = c.pick([('fxquotient', tq(a, b)), ('fxremainder', a - b * tq(a, b))])
            return self.c('(%s %d %d)' % (op, a, b), v, op)
        if k == 2:
            xs = [fx(c) for _ in range(c.int(1, 4))]
            if c.bool(0.3):
                xs = [xs[0]] * len(xs)
            op, v = c.pick([('fxmax', max(xs)), ('fxmin', min(xs)),
                            ('fx=?', all(x == y for x, y in zip(xs, xs[1:]))), ('fx<?', all(x < y for x, y in zip(xs, xs[1:]))),
                            ('fx>?', all(x > y for x, y in zip(xs, xs[1:]))), ('fx<=?', all(x <= y for x, y in zip(xs, xs[1:]))),
                            ('fx>=?', all(x >= y for x, y in zip(xs, xs[1:])))])
            if c.bool(0.3) and op in ('fx<?', 'fx>?', 'fx<=?', 'fx>=?'):
                xs = sorted(xs, reverse='>' in op)
                v = all(x != y for x, y in zip(xs, xs[1:])) or '=' in op
            return self.c('(%s %s)' % (op, ' '.join(map(str, xs))), v, op)
        if k == 3:
            op, f = c.pick([('fx+/carry', a + b + d), ('fx-/carry', a - b - d), ('fx*/carry', a * b + d)])
            return self.c('(call-with-values (lambda () (%s %d %d %d)) list)' % (op, a, b, d), list(bal(f)), op)
        if k == 4:
            n = abs(a) if a != LO else 0
            r = math.isqrt(n)
            return self.c('(call-with-values (lambda () (fxsqrt %d)) list)' % n, [r, n - r * r], 'fxsqrt')
        if k == 5:
            if a == LO:
                a = LO + 1
            pairs = [('fxneg', -a), ('fxabs', abs(a)), ('fxnot', ~a), ('fxzero?', a == 0), ('fxpositive?', a > 0), ('fxnegative?', a < 0),
                     ('fxodd?', a % 2 == 1), ('fxeven?', a % 2 == 0), ('fxlength', (a if a >= 0 else ~a).bit_length()),
                     ('fxbit-count', bin(a if a >= 0 else ~a).count('1')),
                     ('fxfirst-set-bit', (a & -a).bit_length() - 1 if a else -1), ('fixnum?', True)]
            if abs(a) <= 46340:
                pairs.append(('fxsquare', a * a))
            return self.c('(list %s)' % ' '.join('(%s %d)' % (p, a) for p, _ in pairs), [v for _, v in pairs], 'unary')
        if k == 6:
            op, f = c.pick([('fxand', lambda a, b: a & b), ('fxior', lambda a, b: a | b), ('fxxor', lambda a, b: a ^ b)])
            xs = [fx(c) for _ in range(c.int(1, 4))]
            v = xs[0]
            for x in xs[1:]:
                v = f(v, x)
            return self.c('(%s %s)' % (op, ' '.join(map(str, xs))), v, op)
        if k == 7:
            n = c.draw(31)
            return self.c('(list (fxarithmetic-shift-right %d %d) (fxarithmetic-shift %d %d))' % (a, n, a, -n), [a >> n, a >> n], 'shift')
        if k == 8:
            n = c.draw(31)
            a = a >> n
            return self.c('(list (fxarithmetic-shift-left %d %d) (fxarithmetic-shift %d %d))' % (a, n, a, n), [a << n, a << n], 'shift')
        if k == 9:
            return self.c('(fxif %d %d %d)' % (a, b, d), (a & b) | (~a & d), 'fxif')
        if k == 10:
            i = c.draw(31)
            return self.c('(list (fxbit-set? %d %d) (fxcopy-bit %d %d #t) (fxcopy-bit %d %d #f))' % (i, a, i, a, i, a),
                          [bool(a >> i & 1), a | 1 << i, a & ~(1 << i)], 'bit')
        if k in (11, 12, 13):
            a = a & HI
            s = c.draw(31)
            e = s + c.draw(31 - s)
            n = c.int(0, 31)
            if k == 11:
                return self.c('(fxbit-field %d %d %d)' % (a, s, e), field(a, s, e), 'field')
            if k == 12:
                return self.c('(fxbit-field-rotate %d %d %d %d)' % (a, n, s, e), rot(a, n, s, e), 'rotate')
            return self.c('(fxbit-field-reverse %d %d %d)' % (a, s, e), rev(a, s, e), 'reverse')
        if k == 14:
            x = c.pick([HI + 1, LO - 1, gen.integer(c), a, 0.5, F(1, 2)])
            return self.c('(fixnum? %s)' % (sx.flo(x) if isinstance(x, float) else x), isinstance(x, int) and ok(x), 'fixnum?')
        return self.c('(list fx-width fx-greatest fx-least)', [32, HI, LO], 'constants')

    def c(self, code, v, label):
        return pbt.Case(code, expect=sx.show(v), labels=[label])

    def f(self, code, v, label, tol=None):
        if tol is None:
            return pbt.Case(code, expect=sx.show(v), judge=either(v, -v) if v == 0 else None, labels=[label])
        return pbt.Case(code, judge=close(v, tol), expect=sx.show(v), labels=[label])

    def flonum(self, c):
        x, y, z = gen.flonum(c), gen.flonum(c), gen.flonum(c)
        L = sx.flo
        k = c.draw(18)
        if k == 0:
            op, v = c.pick([('fl+', x + y), ('fl-', x - y), ('fl*', x * y), ('fl/', div(x, y))])
            if math.isnan(v):
                op, v = 'fl+', x + y
            return self.f('(%s %s %s)' % (op, L(x), L(y)), v, op)
        if k == 1:
            op, v = c.pick([('flmax', max(x, y, z)), ('flmin', min(x, y, z))])
            return self.f('(%s %s %s %s)' % (op, L(x), L(y), L(z)), v, op)
        if k == 2:
            up = c.pick([math.inf, -math.inf, y])
            return self.f('(fladjacent %s %s)' % (L(x), L(up)), math.nextafter(x, up), 'fladjacent')
        if k == 3:
            return self.f('(flcopysign %s %s)' % (L(x), L(y)), math.copysign(x, y), 'flcopysign')
        if k == 4:
            m, e = math.frexp(x)
            n = c.int(-40, 40)
            return pbt.Case('(list (make-flonum %s %d) (call-with-values (lambda () (flnormalized-fraction-exponent %s)) list))' % (L(m), n, L(x)),
                            expect=sx.show([math.ldexp(m, n), [m, e]]), nontrivial=True, labels=['frexp']) if x else self.f('(flsgn 1.0)', 1.0, 'flsgn')
        if k == 5:
            fr, it = math.modf(x)
            return pbt.Case('(call-with-values (lambda () (flinteger-fraction %s)) (lambda (i f) (list (fl+ i 0.0) (fl+ f 0.0))))' % L(x), expect=sx.show([it + 0.0, fr + 0.0]), labels=['modf'])
        if k == 6:
            x = x or 1.0
            m, e = math.frexp(x)
            return pbt.Case('(list (flexponent %s) (flinteger-exponent %s) (flsign-bit %s))' % (L(x), L(x), L(x)),
                            expect=sx.show([float(e - 1), e - 1, 1 if math.copysign(1, x) < 0 else 0]), labels=['exponent'])
        if k == 7:
            if c.bool(0.3):
                x = c.pick([math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-310])
            fin = math.isfinite(x)
            pairs = [('flfinite?', fin), ('flinfinite?', math.isinf(x)), ('flnan?', math.isnan(x)), ('flonum?', True),
                     ('flnormalized?', fin and abs(x) >= 2.0**-1022), ('fldenormalized?', x != 0 and abs(x) < 2.0**-1022),
                     ('flinteger?', fin and x == math.floor(x)), ('flsign-bit', 1 if math.copysign(1, x) < 0 else 0)]
            if math.isnan(x):
                pairs = pairs[:6]
            if abs(x) > 1e-3 or x == 0:
                pairs += [('flzero?', x == 0), ('flpositive?', x > 0), ('flnegative?', x < 0)]
            if fin and x == math.floor(x):
                pairs += [('flodd?', int(x) % 2 == 1), ('fleven?', int(x) % 2 == 0)]
            return self.c('(list %s)' % ' '.join('(%s %s)' % (p, L(x)) for p, _ in pairs), [v for _, v in pairs], 'classify')
        if k == 8:
            a = c.pick([x, math.nan])
            b = c.pick([y, math.nan])
            return self.c('(flunordered? %s %s)' % (L(a), L(b)), math.isnan(a) or math.isnan(b), 'unordered')
        if k == 9:
            if abs(x - y) < 1e-3:
                y = x + 1.0 if abs(x) < 1e15 else x * 2
            if math.isinf(y):
                y = 0.0
            xs = [x, y] + ([x] if c.bool(0.3) else [])
            z = list(zip(xs, xs[1:]))
            op, v = c.pick([('fl<?', all(a < b for a, b in z)), ('fl>?', all(a > b for a, b in z)), ('fl=?', all(a == b for a, b in z)),
                            ('fl<=?', all(a <= b for a, b in z)), ('fl>=?', all(a >= b for a, b in z))])
            return self.c('(%s %s)' % (op, ' '.join(map(L, xs))), v, op)
        if k == 10:
            d = x - y
            op, v = c.pick([('flabsdiff', abs(d)), ('flposdiff', max(d, 0.0))])
            return self.f('(%s %s %s)' % (op, L(x), L(y)), v, op)
        if k == 11:
            pairs = [('flabs', abs(x)), ('flsgn', math.copysign(1.0, x)), ('flsquare', x * x)]
            if abs(x) < 2.0**60:
                pairs += [('flfloor', float(math.floor(x))), ('flceiling', float(math.ceil(x))), ('flround', float(round(x))), ('fltruncate', float(math.trunc(x)))]
            op, v = c.pick(pairs)
            return self.f('(%s %s)' % (op, L(x)), v, op)
        if k == 12:
            op, m, dom = c.pick([('flexp', math.exp, (-700, 700)), ('flexp2', lambda v: 2.0 ** v, (-1000, 1000)), ('flexp-1', math.expm1, (-50, 50)), ('flsin', math.sin, (-50, 50)),
                                 ('flcos', math.cos, (-50, 50)), ('fltan', math.tan, (-50, 50)), ('flasin', math.asin, (-1, 1)), ('flacos', math.acos, (-1, 1)),
                                 ('flatan', math.atan, (-1e6, 1e6)), ('flsinh', math.sinh, (-50, 50)), ('flcosh', math.cosh, (-50, 50)), ('fltanh', math.tanh, (-9, 9)),
                                 ('flasinh', math.asinh, (-1e6, 1e6)), ('flacosh', math.acosh, (1, 1e6)), ('flatanh', math.atanh, (-.99, .99)),
                                 ('fllog1+', math.log1p, (-.99, 1e6)), ('fllog', math.log, (1e-9, 1e9)), ('fllog2', math.log2, (1.1, 1e9)), ('fllog10', math.log10, (1.1, 1e9)),
                                 ('flsqrt', math.sqrt, (0, 1e9)), ('flcbrt', lambda v: math.copysign(abs(v) ** (1 / 3), v), (-1e9, 1e9)),
                                 ('flgamma', math.gamma, (.1, 50)), ('flerf', math.erf, (-3, 3)), ('flerfc', math.erfc, (-3, 3))])
            lo, hi = dom
            v = lo + (hi - lo) * (c.draw(2**40) / 2.0**40)
            if c.bool(0.3):
                v = float(c.int(math.ceil(lo), min(20, math.floor(hi)))) or 1.0
            if op == 'flatanh' and abs(v) == 1:
                v = 0.5
            return self.f('(%s %s)' % (op, L(v)), safe(m)(v), op, 64 if op in ('flgamma', 'flcbrt', 'flatanh', 'flacosh', 'flasinh', 'flerfc') else 8)
        if k == 13:
            x, y = math.fmod(x, 1e6), math.fmod(y, 1e6)
            op, v, t = c.pick([('flhypot', math.hypot(x, y), 16), ('flatan', math.atan2(x, y), 4), ('flexpt', safe(math.pow)(abs(x) or 1.0, math.fmod(y, 20)), 16)])
            if op == 'flhypot' and not 1e-100 < v:
                x, y, v = 3.0, 4.0, 5.0
            if op == 'flexpt':
                x, y = abs(x) or 1.0, math.fmod(y, 20)
            return self.f('(%s %s %s)' % (op, L(x), L(y)), v, op, t)
        if k == 14:
            a, b = float(fx(c)), float(fx(c) or 7)
            q = tq(int(a), int(b))
            op, v = c.pick([('flquotient', float(q)), ('flremainder', a - b * q)])
            return self.f('(%s %s %s)' % (op, L(a), L(b)), v, op)
        if k == 15:
            a, b = float(c.int(-10**6, 10**6)) / 4, float(c.int(1, 1000)) / 4
            r = math.remainder(a, b)
            q = round((F(a) - F(r)) / F(b))

            def judge(text, r=r, q=q):
                t = sx.canon(text).strip('()').split()
                try:
                    gr, gq = float(t[0][1:]), int(t[1])
                except (ValueError, IndexError):
                    return 'got ' + text
                if gr != r or (gq - q) % 8 or gq * q < 0:
                    return 'expected remainder %r and quotient congruent to %d modulo 8, got %s' % (r, q, text)
            return pbt.Case('(call-with-values (lambda () (flremquo %s %s)) (lambda (a b) (list a b)))' % (L(a), L(b)), judge=judge, expect='', labels=['flremquo'])
        if k == 16:
            b = c.pick([2.0, 3.0, 10.0, 7.5])
            v = 1.5 + c.draw(10**6) / 7
            return self.f('((make-fllog-base %s) %s)' % (L(b), L(v)), math.log(v) / math.log(b), 'make-fllog-base', 8)
        a, b, d = float(c.int(-10**6, 10**6)), float(c.int(-10**6, 10**6)), c.int(-999, 999) / 8.0
        e = float(F(a) * F(b) + F(d))
        v = c.draw(3)
        if v == 0:
            t, w = 2.0**27 + 1, 2.0**27 - 1 + c.int(0, 8)
            a, b, d = t, w, -(t * w)
            e = float(F(a) * F(b) + F(d))
        return self.f('(fl+* %s %s %s)' % (L(a), L(b), L(d)), e, 'fl+*')
