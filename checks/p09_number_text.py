"""Number literals, number text and the order of the reals, against Python ints, fractions and floats."""
import math
from fractions import Fraction as F

import gen
import pbt
import sx

DIG = '0123456789abcdefghijklmnopqrstuvwxyz'


def digits(n, radix):
    n = abs(n)
    out = ''
    while n:
        n, d = divmod(n, radix)
        out = DIG[d] + out
    return out or '0'


def same_double(want):
    def judge(text):
        t = text.strip()
        if not t.startswith('~'):
            return 'expected the flonum %r, got %s' % (want, text)
        try:
            got = float(t[1:].replace('+inf.0', 'inf').replace('-inf.0', '-inf'))
        except ValueError:
            return 'expected the flonum %r, got %s' % (want, text)
        return None if got == want else 'expected the flonum %r, got %s' % (want, text)
    return judge


class Check(pbt.Property):
    id = 'P09'
    demos = {'write-integral-flonum': ('(inexact? (string->number (number->string 8.0)))', '#t'), 'flonum-radix': ('(number->string .5 2)', '"0.1"'),
             'string-number-prefix': ('(string->number "#xff")', '255')}
    imports = '(import (scheme read) (scheme inexact) (scheme complex))\n'
    prelude = '''
(define (show-number z)
  (if (real? z) z (list (real-part z) (imag-part z))))
(define (from-text s) (show-number (read (open-input-string s))))
(define (text x) (let ((p (open-output-string))) (write x p) (get-output-string p)))
'''
    batch = 60
    quick = 900
    thorough = 60000
    rule = 'a literal with a sign, fraction, exponent, prefix or more than nine digits, a non-integral flonum, or a comparison of numbers of different types'
    assumptions = ['Python float() is a correctly rounded reader and int/Fraction comparison is exact']

    # -- spellings: (text, value) ------------------------------------------
    def uinteger(self, c, radix=10):
        n = abs(gen.integer(c, 120))
        return '0' * c.draw(2) + digits(n, radix), n

    def sign(self, c):
        return c.pick([('', 1), ('-', -1), ('+', 1)])

    def rational(self, c, radix=10):
        s, k = self.sign(c)
        t, n = self.uinteger(c, radix)
        if c.bool(0.4):
            d = 0
            while d == 0:
                u, d = self.uinteger(c, radix)
                if d == 0:
                    u, d = '3', 3 
                    if radix <= 3:
                        u, d = '1', 1
            return s + t + '/' + u, F(k * n, d)
        return s + t, k * n

    def decimal(self, c, exponent=None):
        s, _ = self.sign(c)
        a = ''.join(DIG[c.draw(10)] for _ in range(c.int(0, c.pick([3, 3, 20]))))
        b = ''.join(DIG[c.draw(10)] for _ in range(c.int(0, c.pick([3, 3, 20]))))
        if not a and not b:
            a = '1'
        k = c.draw(3)
        t = a + '.' + b if k or not a else a
        e = ''
        if exponent or '.' not in t or c.bool(0.4):
            e = c.pick(['e', 'e', 'E']) + c.pick(['', '-', '+']) + str(c.int(0, c.pick([5, 30, 310])))
        return s + t + e, float(s + t + e)

    def real(self, c):
        k = c.draw(5)
        if k < 2:
            return self.rational(c)
        if k < 4:
            return self.decimal(c)
        return c.pick([('+inf.0', math.inf), ('-inf.0', -math.inf)])

    def literal(self, c):
        k = c.draw(8)
        if k == 0:
            return self.rational(c)
        if k == 1:
            return self.decimal(c)
        if k == 2:
            p, r = c.pick([('#x', 16), ('#b', 2), ('#o', 8), ('#d', 10)])
            t, v = self.rational(c, r)
            return p + t, v
        if k == 3:
            t, v = self.rational(c)
            try:
                return '#i' + t, float(v)
            except OverflowError:
                return t, v
        if k == 4:
            t, v = self.rational(c)
            return '#e' + t, v
        if k == 5:      # a decimal that is a binary fraction
            v = F(c.int(-999, 999), 2 ** c.int(0, 6))
            t = repr(float(v))
            return '#e' + t, v
        # complex
        im_t, im = self.real(c)
        if im_t[0] not in '+-':
            im_t = '+' + im_t
        if c.bool(0.2):
            im_t, im = c.pick([('+', 1), ('-', -1)])
        if c.bool(0.25):
            return im_t + 'i', (0, im)
        re_t, re = self.real(c)
        return re_t + im_t + 'i', (re, im)

    def want(self, v):
        def norm(x):
            return gen.norm(x)
        if isinstance(v, tuple):
            re, im = v
            if not isinstance(im, float) and im == 0:
                return norm(re)
            return [norm(re), norm(im)]
        return norm(v)

    def near(self, c, x):
        """A real close to x, of a type of its own."""
        k = c.draw(5)
        try:
            if k == 0:
                return float(x)
            if k == 1:
                return math.nextafter(float(x), c.pick([math.inf, -math.inf]))
        except OverflowError:
            return x
        if isinstance(x, float) and not math.isfinite(x):
            return x
        if k == 2:
            return gen.norm(F(x))
        if k == 3:
            return gen.norm(F(x) + F(c.int(-1, 1), abs(gen.integer(c, 60)) + 1))
        return gen.norm(F(x) + c.int(-1, 1))

    def some_real(self, c):
        return gen.flonum(c) if c.bool() else gen.exact(c, 120)

    def gen(self, c):
        k = c.draw(10)
        if k < 4:
            for _ in range(20):
                t, v = self.literal(c)
                parts = v if isinstance(v, tuple) else (v,)
                # signed zeros print alike
                if not any(isinstance(p, float) and (p == 0 or 0 < abs(p) < 1e-300) for p in parts):
                    break
            else:
                t, v = '1', 1
            form = c.draw(3)
            if form == 0:
                code = "(show-number '%s)" % t
            elif form == 1 or t[0] == '#':
                code = '(from-text "%s")' % (t + c.pick(['', ' ', ')', ';x', '"a"'])).replace('"', '\\"')
            else:
                code = '(show-number (string->number "%s"))' % t
            return pbt.Case(code, expect=sx.show(self.want(v)), nontrivial=len(t) > 9 or not t.isdigit(),
                            labels=['complex' if isinstance(v, tuple) else 'prefix' if t[0] == '#' else 'real'])
        if k == 4:
            x = gen.flonum(c)
            if x == int(x):
                x = x + 0.5 if abs(x) < 2**50 else 1 / x
            code = c.pick(['(from-text (text %s))', '(string->number (number->string %s))', '(string->number (text %s))']) % sx.flo(x)
            return pbt.Case(code, judge=same_double(x), labels=['flonum round trip'])
        if k == 5:
            # what write prints is itself the shortest or at least a right decimal
            x = gen.flonum(c)
            return pbt.Case(sx.flo(x), judge=same_double(x), nontrivial=x != int(x), labels=['flonum text'])
        if k == 6:
            x = gen.exact(c, 200)
            r = c.pick([2, 3, 7, 8, 10, 16, 36, 2 + c.draw(35)])
            if isinstance(x, int):
                t = ('-' if x < 0 else '') + digits(x, r)
            else:
                t = ('-' if x < 0 else '') + digits(x.numerator, r) + '/' + digits(x.denominator, r)
            if c.bool():
                code, e = '(number->string %s %d)' % (x, r), sx.show(t)
            else:
                code, e = '(string->number "%s" %d)' % (t, r), sx.show(x)
            return pbt.Case(code, expect=e, nontrivial=abs(x) > 9, labels=['radix'])
        if k == 7:
            # not numbers
            t = c.pick(['', '+', '-', '.', '1e', 'e1', '--1', '1.2.3', '1/2/3', '1/-2', '+i+', '1+', 'i', '1i', '1+2', '1+2i3', '1 ', ' 1', '+inf', 'inf.0', '1/2.5', '1.5/2', '- 1', '1,000', '0x10', '1+2ii', '1e1.5', '1ee1', '.e1', '-.', '+.e1', '1_000', '1-i-i'])
            return pbt.Case('(list (string->number "%s"))' % t, expect='(#f)', labels=['not a number'])
        if k == 8:
            r = c.pick([2, 3, 8, 10, 16])
            n = c.draw(r ** 4)
            s = digits(n, r)
            i = c.draw(len(s) + 1)
            bad = DIG[r + c.draw(36 - r)] if r < 36 else '!'
            if r == 10 and bad in 'edfi' or r > 10 and bad == 'i':
                bad = 'z'
            t = s[:i] + bad + s[i:]
            if r != 10 and c.bool(0.3):
                t = c.pick(['1.5', '1.', '.1', '1.1'])
            return pbt.Case('(list (string->number "%s" %d))' % (t, r), expect='(#f)', labels=['not a number'])
        # order
        n = c.int(2, 4)
        xs = [self.some_real(c)]
        while len(xs) < n:
            xs.append(self.near(c, xs[-1]) if c.bool(0.7) else self.some_real(c))
        if c.bool(0.1):
            xs[c.draw(len(xs))] = c.pick([math.inf, -math.inf])

        def val(x):
            return x if isinstance(x, float) and math.isinf(x) else F(x)
        vs = [val(x) for x in xs]
        src = [sx.flo(x) if isinstance(x, float) else str(x) for x in xs]
        mixed = len({type(x) for x in xs}) > 1
        if c.bool(0.3):
            op = c.pick(['max', 'min'])
            f = max if op == 'max' else min
            best = f(vs)
            if not mixed and all(isinstance(x, (int, F)) for x in xs):
                return pbt.Case('(%s %s)' % (op, ' '.join(src)), expect=sx.show(gen.norm(best)), labels=['max/min'])
            # mixed: inexact contagion is optional in the digits, not in the value
            def judge(text, best=best):
                t = sx.canon(text)
                try:
                    got = float(t[1:]) if t[0] == '~' else F(t)
                except (ValueError, IndexError):
                    return 'expected %s, got %s' % (best, text)
                try:
                    near = float(best)
                except OverflowError:
                    near = math.inf
                if got == best or float(got) == near:
                    return None
                return 'expected %s, got %s' % (best, text)
            return pbt.Case('(%s %s)' % (op, ' '.join(src)), judge=judge, labels=['max/min'])
        op = c.pick(['<', '>', '<', '>', '<=', '>=', '='])
        flos = sum(isinstance(x, float) for x in xs)
        if op in ('<=', '>=', '=') and flos:
            # known finding: flonums within DBL_EPSILON of each other count as equal
            def apart(a, b):
                return a == b or abs(float(a - b) if not (isinstance(a, float) or isinstance(b, float)) else math.inf) > 1e-3
            fl = [F(x) for x in xs if isinstance(x, float) and math.isfinite(x)] + [F(x) for x in xs if isinstance(x, int) and abs(x) < 2**31]
            if not all(apart(a, b) for i, a in enumerate(fl) for b in fl[:i]):
                op = c.pick(['<', '>'])
        f = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '=': lambda a, b: a == b}[op]
        e = all(f(a, b) for a, b in zip(vs, vs[1:]))
        return pbt.Case('(list (%s %s))' % (op, ' '.join(src)), expect='(#t)' if e else '(#f)', nontrivial=mixed, labels=['order'])
