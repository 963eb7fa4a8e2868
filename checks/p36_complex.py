"""Complex numbers against pairs of Python fractions (exact) and Python's cmath (inexact)."""
import cmath
import math
from fractions import Fraction as F

import gen
import pbt
import sx


def num(t):
    return float(t[1:]) if t[0] == '~' else float(F(t))


def near(want, scale=0.0):
    """The shown list of real and imaginary part is near the complex number."""
    def judge(text):
        t = sx.canon(text)
        try:
            a, b = t.strip('()').split(' ')[:2]
            a, b = num(a), num(b)
        except ValueError:
            return 'expected %r, got %s' % (want, text)
        if abs(complex(a, b) - want) <= 1e-11 * (abs(want) + scale) + 1e-13:
            return None
        return 'expected %r, got %s' % (want, text)
    return judge


def rect(z, c=None):
    """Source of the exact number whose parts are z; as a literal or put together."""
    re, im = z
    if c is None or c.bool(0.75):
        if im == 0 and (c is None or c.bool()):
            return str(re)
        return '%s%s%si' % (re if re or im == 0 or c and c.bool() else '', '+' if im >= 0 else '', im)
    return '(make-rectangular %s %s)' % (re, im)


def mul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def inv(a):
    n = F(a[0] * a[0] + a[1] * a[1])
    return (F(a[0]) / n, -F(a[1]) / n)


class Check(pbt.Property):
    id = 'P36'
    demos = {'log-of-negative': ('(imag-part (log -1))', sx.show(math.pi))}
    batch = 60
    quick = 500
    thorough = 40000
    imports = '(import (scheme complex) (scheme inexact))'
    rule = 'a number with an imaginary part other than zero, a result whose imaginary part vanishes, or a part outside the 32-bit range'
    assumptions = ['Python 3.12 fractions.Fraction is correct, and its cmath is accurate to 1e-11 on numbers of magnitude below 20 off the branch cuts']

    def part(self, c):
        k = c.draw(8)
        if k < 4:
            return c.int(-9, 9)
        if k < 6:
            return gen.norm(F(c.int(-9, 9), c.int(1, 9)))
        return gen.norm(gen.exact(c))

    def z(self, c):
        return (self.part(c), self.part(c))

    def expr(self, c, depth):
        if depth == 0 or c.bool(0.15):
            z = self.z(c)
            if c.bool(0.2):
                z = (z[0], 0)
            return rect(z, c), z
        k = c.draw(12)
        sub = lambda: self.expr(c, depth - 1)
        if k < 2:
            xs = [sub() for _ in range(c.int(1, 4))]
            if c.bool(0.3):
                w = xs[0][1]
                xs.append((rect((c.int(-9, 9), -w[1]), None), None))
                xs[-1] = (xs[-1][0], None)
                re = c.int(-9, 9)
                xs[-1] = (rect((re, -w[1]), c), (re, -w[1]))
            return '(+%s)' % ''.join(' ' + s for s, _ in xs), (sum(v[0] for _, v in xs), sum(v[1] for _, v in xs))
        if k < 4:
            xs = [sub() for _ in range(c.int(1, 3))]
            if c.bool(0.3):
                w = xs[0][1]
                xs.insert(1, (rect((w[0], -w[1]), c), (w[0], -w[1])))
            p = (1, 0)
            for _, v in xs:
                p = mul(p, v)
            return '(*%s)' % ''.join(' ' + s for s, _ in xs), p
        if k < 6:
            xs = [sub() for _ in range(c.int(1, 4))]
            v = xs[0][1]
            if len(xs) == 1:
                v = (-v[0], -v[1])
            for _, w in xs[1:]:
                v = (v[0] - w[0], v[1] - w[1])
            return '(-%s)' % ''.join(' ' + s for s, _ in xs), v
        if k < 8:
            xs = [sub() for _ in range(c.int(1, 3))]
            xs = [x for i, x in enumerate(xs) if any(x[1]) or (i == 0 and len(xs) > 1)]
            if not xs or (len(xs) == 1 and not any(xs[0][1])):
                return '1+i', (1, 1)
            v = xs[0][1]
            if len(xs) == 1:
                v = inv(v)
            for _, w in xs[1:]:
                v = mul(v, inv(w))
            return '(/%s)' % ''.join(' ' + s for s, _ in xs), v
        s, v = sub()
        if k == 8:
            return '(real-part %s)' % s, (v[0], 0)
        if k == 9:
            return '(imag-part %s)' % s, (v[1], 0)
        if k == 10:
            t, w = sub()
            return '(make-rectangular (real-part %s) (imag-part %s))' % (s, t), (v[0], w[1])
        return c.pick([('(square %s)' % s, mul(v, v)), ('(exact %s)' % s, v), ('(let ((z %s)) (- (+ z z) z))' % s, v),
                       ('(let ((z %s)) (if (= z z) z 0))' % s, v)])

    def gen_exact(self, c):
        s, v = self.expr(c, c.int(0, 3))
        v = (gen.norm(v[0]), gen.norm(v[1]))
        real = v[1] == 0
        integer = real and F(v[0]).denominator == 1
        same = rect(v)
        other = rect((v[0] + 1, v[1])) if c.bool() else rect((v[0], v[1] + c.pick([-1, 1])))
        code = ('(let ((z %s)) (list (real-part z) (imag-part z) (exact? z) (number? z) (complex? z) (real? z) (rational? z) (integer? z)'
                ' (eqv? z %s) (equal? z %s) (= z %s) (= %s z) (= z %s) (eqv? z %s) (zero? z)%s))'
                % (s, same, same, same, same, other, other, ' (< z %s) (exact-integer? z) (max z %s)' % (v[0] + 1, v[0] - 1) if real else ''))
        want = [v[0], v[1], True, True, True, real, real, integer, True, True, True, True, False, False, not any(v)]
        if real:
            want += [True, integer, v[0]]
        return pbt.Case(code, expect=sx.show(want), nontrivial='i' in s, labels=['exact'])

    def flo(self, c):
        r = c.draw(3)
        if r == 0:
            x = c.int(1, 12) + 0.5
        elif r == 1:
            x = c.draw(2 ** 40) / 2.0 ** 40 + 0.01
        else:
            x = c.draw(2 ** 40) / 2.0 ** 37 + 0.01
        return -x if c.bool() else x

    def lit(self, a, b, c):
        if c.bool(0.7):
            return '%s%s%si' % (sx.flo(a), '' if b < 0 else '+', sx.flo(b))
        return '(make-rectangular %s %s)' % (sx.flo(a), sx.flo(b))

    def gen_inexact(self, c):
        parts = lambda e: '(let ((z %s)) (list (real-part z) (imag-part z)))' % e
        a, b = self.flo(c), self.flo(c)
        z, s = complex(a, b), None
        if c.bool(0.2):
            x, y = c.int(-9, 9) or 1, c.int(-9, 9) or 1
            z, s = complex(x, y), rect((x, y), c)
        s = s or self.lit(a, b, c)
        k = c.draw(10)
        if k < 3:
            w, t = (lambda a, b: (complex(a, b), self.lit(a, b, c)))(self.flo(c), self.flo(c))
            if c.bool(0.3):
                x = self.flo(c)
                w, t = complex(x, 0), sx.flo(x)
            elif c.bool(0.3):
                x = c.int(1, 9)
                w, t = complex(x, 0), str(x)
            if c.bool():
                z, s, w, t = w, t, z, s
            op = c.pick('+-*/')
            want = {'+': z + w, '-': z - w, '*': z * w, '/': z / w}[op]
            return pbt.Case(parts('(%s %s %s)' % (op, s, t)), judge=near(want, abs(z) + abs(w)), labels=['inexact ' + op])
        if k == 3:
            m = abs(self.flo(c))
            t = self.flo(c) % 3.1
            e = c.pick(['(make-polar %s %s)' % (sx.flo(m), sx.flo(t)), '%s@%s' % (sx.flo(m), sx.flo(t))])
            return pbt.Case(parts(e), judge=near(cmath.rect(m, t), m), labels=['polar'])
        if k == 4:
            return pbt.Case('(let ((z %s)) (list (magnitude z) (angle z)))' % s, judge=near(complex(abs(z), cmath.phase(z)), 1), labels=['magnitude angle'])
        if k == 5:
            return pbt.Case(parts('(sqrt %s)' % s), judge=near(cmath.sqrt(z)), labels=['sqrt'])
        if k == 6:
            w = complex(self.flo(c) / 4, self.flo(c) / 4)
            t = self.lit(w.real, w.imag, c)
            if c.bool(0.4):
                n = c.int(-4, 5)
                w, t = complex(n, 0), str(n)
            elif c.bool(0.3):
                z = complex(abs(self.flo(c)), 0)
                s = sx.flo(z.real)
            want = z ** w
            if abs(want) > 1e12:
                want, t = 1 + 0j, '0'
            return pbt.Case(parts('(expt %s %s)' % (s, t)), judge=near(want, abs(want) * 10), labels=['expt'])
        if k == 7:
            return pbt.Case(parts('(inexact %s)' % s), judge=near(z), labels=['inexact'])
        if k == 8:
            r, t = F(z.real), F(z.imag)
            return pbt.Case('(let ((z (exact %s))) (list (real-part z) (imag-part z) (exact? z)))' % s,
                            expect=sx.show([gen.norm(r), gen.norm(t), True]), labels=['exact of inexact'])
        f = c.pick(['exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan'])
        try:
            want = getattr(cmath, f)(z)
        except (ValueError, OverflowError):
            return self.gen_exact(c)
        return pbt.Case(parts('(%s %s)' % (f, s)), judge=near(want, 1 if f != 'exp' else 0), labels=[f])

    def gen(self, c):
        if c.bool(0.55):
            return self.gen_exact(c)
        return self.gen_inexact(c)
