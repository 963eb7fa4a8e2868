"""Flonum arithmetic, conversion, rounding and classification against Python floats and fractions."""
import math
from fractions import Fraction as F

import gen
import pbt
import sx


def to_double(x):
    if isinstance(x, float):
        return x
    try:
        return float(F(x)) if isinstance(x, F) else float(x)
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def div(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))


def safe(f):
    def g(*a):
        try:
            return f(*a)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
    return g


def close(want, tol=4):
    def judge(text):
        t = sx.canon(text)
        if t == sx.show(want):
            return None
        try:
            got = float(t[1:]) if t[0] == '~' else float(F(t))
        except (ValueError, IndexError):
            return 'expected about %r, got %s' % (want, text)
        if math.isfinite(got) and math.isfinite(want) and abs(got - want) <= tol * max(math.ulp(want), math.ulp(got)):
            return None
        return 'expected about %r, got %s' % (want, text)
    return judge


def either(*wants):
    wants = [sx.show(w) for w in wants]

    def judge(text):
        return None if sx.canon(text) in wants else 'expected %s, got %s' % (' or '.join(wants), text)
    return judge


def lit(x):
    return sx.flo(x) if isinstance(x, float) else str(x)


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': div}
LIBM = [('exp', 'exp'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('atan', 'atan'), ('log', 'log'), ('asin', 'asin'), ('acos', 'acos')]


class Check(pbt.Property):
    id = 'P08'
    demos = {'flonum-equal-tolerance': ('(= 1e-300 2e-300)', '#f'), 'nan-equal-nan': ('(= +nan.0 +nan.0)', '#f'),
             'nan-order': ('(<= 1 +nan.0)', '#f')}
    imports = '(import (scheme complex) (scheme inexact))'
    batch = 60
    quick = 1800
    thorough = 60000
    rule = 'the case has a flonum operand that is not a small integer, or converts a number without an exact double'
    assumptions = ['Python floats are IEEE 754 doubles with round-to-nearest and its libm agrees within 4 ulp',
                   'x86-64']

    def flo(self, c, finite=False):
        return gen.flonum(c, finite)

    def num(self, c):
        """flonum or exact"""
        return gen.exact(c, 1400) if c.bool(0.3) else self.flo(c)

    def gen(self, c):
        k = c.draw(14)
        if k < 4:
            op = c.pick(sorted(OPS))
            a, b = self.flo(c), self.num(c)
            if c.bool():
                a, b = b, a
            want = OPS[op](to_double(a), to_double(b)) if True else 0
            code = '(%s %s %s)' % (op, lit(a), lit(b))
            exact_zero = any(not isinstance(x, float) and x == 0 for x in (a, b))
            j = None
            if op == '/' and not isinstance(b, float) and b == 0:
                return self.gen_convert(c)
            if exact_zero and op in '*/':
                j = either(0, want)
            elif exact_zero and op in '+-':
                j = either(want, *[x for x in (a, b) if isinstance(x, float)]) if op == '+' or b == 0 else None
            return pbt.Case(code, expect=sx.show(want), judge=j, labels=['binary'])
        if k == 4:
            xs = [self.flo(c, True) for _ in range(c.int(3, 6))]
            op = c.pick(['+', '*', '-'])
            acc = xs[0]
            for x in xs[1:]:
                acc = OPS[op](acc, x)
            return pbt.Case('(%s %s)' % (op, ' '.join(map(lit, xs))), judge=either(acc, acc if acc else -acc), expect=sx.show(acc), labels=['n-ary'])
        if k == 5 or k == 6:
            return self.gen_convert(c)
        if k == 7 or k == 8:
            x = self.flo(c, True)
            if c.bool(0.4):
                x = c.int(-50, 50) + 0.5
            elif c.bool(0.2):
                x = math.nextafter(c.int(-50, 50) + 0.5, c.pick([-100, 100]))
            elif c.bool(0.3):
                x = float(c.draw(2**54)) / 2
            f, g = c.pick([('floor', math.floor), ('ceiling', math.ceil), ('truncate', math.trunc), ('round', round)])
            w = float(g(x))
            if w == 0:
                w = math.copysign(0.0, x)
            return pbt.Case('(%s %s)' % (f, lit(x)), judge=either(w, w if w else -w), expect=sx.show(w), labels=[f])
        if k == 9:
            x = self.num(c) if c.bool(0.8) else c.pick([math.inf, -math.inf, math.nan])
            if not isinstance(x, float):
                x = to_double(x)
            integral = math.isfinite(x) and x == math.floor(x)
            pairs = [('nan?', math.isnan(x)), ('infinite?', math.isinf(x)), ('finite?', math.isfinite(x)), ('integer?', integral),
                     ('rational?', math.isfinite(x)), ('real?', True), ('exact?', False), ('inexact?', True), ('exact-integer?', False),
                     ('number?', True), ('complex?', True)]
            if abs(x) > 1e-10 and not math.isnan(x):
                pairs += [('positive?', x > 0), ('negative?', x < 0)]
            if integral:
                pairs += [('even?', int(x) % 2 == 0), ('odd?', int(x) % 2 == 1)]
            return pbt.Case('(list %s)' % ' '.join('(%s %s)' % (p, lit(x)) for p, _ in pairs),
                            expect=sx.show([v for _, v in pairs]), labels=['classify'])
        if k == 10 and c.bool(0.4):
            xs = [self.num(c) for _ in range(c.int(1, 3))]
            xs.insert(c.draw(len(xs) + 1), math.nan)
            f = c.pick(['<', '>'])     # <= and >=: known finding nan-order
            return pbt.Case('(%s %s)' % (f, ' '.join(map(lit, xs))), expect='#f', labels=['NaN in order'])
        if k == 10:
            xs = [self.num(c) for _ in range(c.int(1, 4))]
            xs = [x if not (isinstance(x, float) and math.isnan(x)) else 1.5 for x in xs]
            if len({to_double(x) for x in xs}) < len(xs):
                xs = xs[:1]
            f, g = c.pick([('max', max), ('min', min)])
            w = g(xs)
            if any(isinstance(x, float) for x in xs):
                w = to_double(w)
            j = None
            ds = sorted(to_double(x) for x in xs)
            if any(b - a < 1e-9 for a, b in zip(ds, ds[1:])):
                xs, w = xs[:1], xs[0]
            return pbt.Case('(%s %s)' % (f, ' '.join(map(lit, xs))), expect=sx.show(w), judge=either(w, w if w else -w if isinstance(w, float) else w), labels=['minmax'])
        if k == 11:
            x = self.flo(c, True)
            f, m = c.pick(LIBM)
            if f in ('asin', 'acos') and abs(x) > 1:
                x = 1 / x
            if f == 'log':
                x = abs(x) or 1.0
            if f in ('sin', 'cos', 'tan') and abs(x) > 1e6:
                x = math.fmod(x, 100)
            if c.bool(0.15):
                x = c.int(1, 30) if f == 'log' else c.int(-1, 1)
                if f == 'log':
                    x = max(1, x)
            w = safe(getattr(math, m))(to_double(x))
            return pbt.Case('(inexact (%s %s))' % (f, lit(x)), judge=close(w), expect=sx.show(w), labels=['libm'])
        if k == 12:
            j = c.draw(5)
            x, y = self.flo(c, True), self.flo(c, True)
            if j == 0 and c.bool(0.4):
                x = abs(gen.exact(c, 1400))
                if not isinstance(x, int) or math.isqrt(x) ** 2 == x:
                    x = abs(gen.integer(c, 1400)) ** 2 + 2
                w = math.sqrt(to_double(x))

                def judge(text):
                    t = text.strip('()').split(' ', 1)
                    return 'expected an inexact root, got ' + text if t[0] != '#f' else close(w)(t[1])
                return pbt.Case('(let ((r (sqrt %d))) (list (exact? r) r))' % x, expect='', judge=judge, labels=['sqrt of exact'])
            if j == 0:
                x = abs(x)
                return pbt.Case('(inexact (sqrt %s))' % lit(x), expect=sx.show(math.sqrt(x)), judge=either(math.sqrt(x), -math.sqrt(x) if x == 0 else math.sqrt(x)), labels=['sqrt'])
            if j == 1:
                return pbt.Case('(atan %s %s)' % (lit(x), lit(y)), judge=close(math.atan2(x, y)), expect='', labels=['atan2'])
            if j == 2:
                x, y = abs(x) or 1.0, abs(y)
                if y in (0.0, 1.0):
                    y = 2.0
                w = div(math.log(x), math.log(y))
                return pbt.Case('(log %s %s)' % (lit(x), lit(y)), judge=close(w, 8), expect='', labels=['log2'])
            if j == 3:
                x, y = abs(x) or 2.0, math.fmod(y, 40)
                w = safe(math.pow)(x, y)
                return pbt.Case('(expt %s %s)' % (lit(x), lit(y)), judge=close(w, 8), expect='', labels=['expt'])
            n = c.int(-20, 20)
            x = x or 1.0
            w = safe(math.pow)(x, n)
            if math.isinf(w) and x < 0 and n % 2:
                w = -w
            return pbt.Case('(expt %s %d)' % (lit(x), n), judge=close(w, 40), expect='', labels=['expt'])
        x = self.flo(c, True)
        f, g = c.pick([('abs', abs), ('square', lambda x: x * x), ('-', lambda x: -x), ('+', lambda x: x), ('*', lambda x: x),
                       ('/', lambda x: div(1.0, x)), ('magnitude', abs), ('inexact', lambda x: x), ('real-part', lambda x: x),
                       ('numerator', lambda x: float(F(x).numerator) if abs(x) < 2**60 else x),
                       ('denominator', lambda x: to_double(F(x).denominator))])
        if f in ('numerator', 'denominator') and abs(x) < 2.0**-60:
            x = 0.625
        w = g(x)
        ok = either(w, -w) if w == 0 and f in '+*' else None
        return pbt.Case('(%s %s)' % (f, lit(x)), expect=sx.show(w), judge=ok, labels=['unary'])

    def gen_convert(self, c):
        j = c.draw(4)
        if j == 0:
            x = self.flo(c, True)
            return pbt.Case('(exact %s)' % lit(x), expect=sx.show(gen.norm(F(x))), labels=['exact'])
        if j == 1:
            x = gen.exact(c, 1400)
            return pbt.Case('(inexact %s)' % x, expect=sx.show(to_double(x)), labels=['inexact'])
        if j == 2:   # a tie between two doubles, or beside one
            m = 2**52 + c.draw(2**52)
            e = c.int(-150, 150)
            x = F(2 * m + 1) * (F(2) ** e) + F(c.int(-1, 1)) * F(2) ** (e - c.int(1, 200))
            if c.bool():
                x = -x
            x = gen.norm(x)
            return pbt.Case('(inexact %s)' % x, expect=sx.show(to_double(x)), labels=['tie'])
        x = self.flo(c, True)
        return pbt.Case('(let ((x %s)) (list (= x (inexact (exact x))) (inexact? (inexact (exact x))) (exact? (exact x))))' % lit(x), expect='(#t #t #t)', labels=['there-and-back'])
