"""Integer division families against Python integers."""
from fractions import Fraction as F
import math

import gen
import pbt
import sx


def q_floor(n, d): return n // d
def q_ceil(n, d): return -((-n) // d)
def q_trunc(n, d): return q_floor(n, d) if (n < 0) == (d < 0) or n == 0 else q_ceil(n, d)
def q_round(n, d): return round(F(n, d))
def q_euclid(n, d): return n // d if d > 0 else -(n // -d)


def q_balanced(n, d):
    # -|d/2| <= r < |d/2|
    q = q_euclid(n, d)
    r = n - d * q
    if 2 * r >= abs(d):
        r -= abs(d)
    return (n - r) // d


FAM = {'floor': q_floor, 'ceiling': q_ceil, 'truncate': q_trunc, 'round': q_round, 'euclidean': q_euclid, 'balanced': q_balanced}


class Check(pbt.Property):
    id = 'P06'
    imports = '(import (srfi 141) (only (scheme base) exact-integer?))'
    batch = 60
    quick = 2600
    thorough = 60000
    rule = 'a division with a nonzero remainder, a negative operand or an operand outside the 32-bit range'
    assumptions = ['Python 3.12 int is correct', 'flonum operands are integers of magnitude below 2^53, so that the quotient is decided exactly']

    def operands(self, c):
        d = 0
        while d == 0:
            d = gen.integer(c, 150) if c.bool(0.8) else c.int(-7, 7)
            if d == 0:
                d = 2
        k = c.draw(4)
        if k == 0:
            n = gen.integer(c)
        elif k == 1:
            n = d * gen.integer(c, 100) + c.int(-2, 2)
        elif k == 2:      # near a tie
            n = (d * (2 * gen.integer(c, 60) + 1)) // 2 + c.int(-1, 1)
        else:
            n = c.int(-100, 100)
            d = c.int(-12, 12) or 1
        return n, d

    def gen(self, c):
        n, d = self.operands(c)
        nontrivial = n < 0 or d < 0 or n % d != 0 or abs(n) >= 2**31 or abs(d) >= 2**31
        flo = c.bool(0.15)
        k = c.draw(10)
        if k < 7:
            f = c.pick(sorted(FAM))
            q = FAM[f](n, d)
            r = n - d * q
            form = c.draw(3)
            name = f + ('/', '-quotient', '-remainder')[form]
            vals = ([q, r], [q], [r])[form]
        else:
            name, f = c.pick([('quotient', q_trunc), ('remainder', q_trunc), ('modulo', q_floor),
                              ('exact-integer-sqrt', None)][:3])
            q = f(n, d)
            vals = [q if name == 'quotient' else n - d * q]
        flo = flo and max(abs(n), abs(d)) < 2**31
        if flo:
            # 1.0 and 1 print alike: add 1/2 to tell them apart.  The sum is exact.
            which = c.draw(3)
            a = sx.flo(float(n)) if which < 2 else str(n)
            b = sx.flo(float(d)) if which != 1 else str(d)
            code = '(call-with-values (lambda () (%s %s %s)) (lambda vs (map (lambda (v) (list (inexact? v) (+ v 0.5))) vs)))' % (name, a, b)
            exp = sx.show([[True, v + 0.5] for v in vals])
            return pbt.Case(code, expect=exp, nontrivial=nontrivial, labels=['flonum'])
        code = '(call-with-values (lambda () (%s %d %d)) (lambda vs (cons (exact-integer? (car vs)) vs)))' % (name, n, d)
        return pbt.Case(code, expect=sx.show([True] + vals), nontrivial=nontrivial, labels=[name])
