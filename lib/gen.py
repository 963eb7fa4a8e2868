"""Generators shared by the checks."""
import math
import struct
from fractions import Fraction

import sx

EDGES = [0, 1, -1, 2, -2, 3, -3, 7, 10, -10, 255, 256, -256, 65535, 65536,
         2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**31 + 1, 2**32 - 1, 2**32, -2**32, 2**32 + 1,
         2**47, 2**48, -2**47, 2**53 - 1, 2**53, 2**53 + 1, -2**53 - 1, 2**62, 2**63 - 1, 2**63, -2**63, -2**63 - 1,
         2**64 - 1, 2**64, 2**64 + 1, -2**64, 10**18, 10**19, 10**20, 2**96, 2**127, 2**128 - 1, 10**40]


def small(c):
    return c.int(-20, 20)


def integer(c, bits=220):
    k = c.draw(6)
    if k == 0:
        return c.int(-20, 20)
    if k == 1:
        return c.pick(EDGES)
    if k == 2:
        return c.pick(EDGES) + c.int(-3, 3)
    if k == 3:
        return c.int(-2**31, 2**31 - 1)
    if k == 4:
        b = c.int(1, 80)
        n = c.draw(2**b)
        return -n if c.bool() else n
    b = c.int(1, bits)
    n = c.draw(2**b)
    return -n if c.bool() else n


def ratio(c, bits=100):
    d = 0
    while d == 0:
        k = c.draw(3)
        d = c.int(1, 12) if k == 0 else abs(integer(c, bits))
        if d == 0:
            d = 2
    return Fraction(integer(c, bits), d)


def norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def exact(c, bits=160):
    return norm(ratio(c, bits) if c.bool(0.3) else integer(c, bits))


def flonum(c, finite=True):
    k = c.draw(8)
    if k == 0:
        return float(c.int(-20, 20))
    if k == 1:
        return c.int(-40, 40) / 4.0
    if k == 2:
        x = c.pick([0.0, -0.0, 0.1, 1e10, 1e15, 1e16, 1e17, 1e21, 1e22, 123456.5, 1e300, -1e300, 1e-300, 5e-324, 2.0**52, 2.0**53, 2.0**63, 2.0**64, -2.0**63, 0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 1e-7, 1.7976931348623157e308, 2.2250738585072014e-308])
        return x
    if k == 3:
        return c.int(-10**9, 10**9) / float(c.int(1, 1000))
    if k == 4:
        return float(integer(c, 200))
    if k == 5 and not finite:
        return c.pick([math.inf, -math.inf, math.nan])
    if True:
        x = struct.unpack('<d', struct.pack('<Q', c.draw(2**64)))[0]
        return x if math.isfinite(x) else 1.0


NAMES = ['a', 'b', 'c', 'x', 'y', 'foo', 'bar', 'list', 'define', 'if', '+', 'hello-world', 'set!', '->x', '<=?', 'A', 'Foo']
ODD = ['', 'a b', 'a|b', 'x"y', 'p(q', '#foo', 'λ', 'Ünï', 'a;b', "q'r", 'tab\tx', 'new\nline', '日本']


def symbol(c, odd=False):
    if odd and c.bool(0.25):
        return sx.Sym(c.pick(ODD))
    return sx.Sym(c.pick(NAMES))


CHARS = [ord(ch) for ch in 'abcxyzABCXYZ019 _-()"\\;#|\''] + [0, 1, 7, 8, 9, 10, 13, 27, 31, 127, 128, 0xA0, 0xDF, 0xE9, 0xC9, 0xFF, 0x100, 0x131, 0x17F,
         0x3A3, 0x3B1, 0x3BB, 0x3C2, 0x3C3, 0x410, 0x430, 0x7FF, 0x800, 0x1E9E, 0x2028, 0x20AC, 0x3042, 0x65E5, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF,
         0x10000, 0x10400, 0x10428, 0x1F600, 0x10FFFF]


def codepoint(c, ascii_only=False):
    k = c.draw(4)
    if k < 2 or ascii_only:
        return ord('a') + c.draw(26) if c.bool(0.8) else 32 + c.draw(95)
    if k == 2:
        return c.pick(CHARS)
    n = c.draw(0x110000 - 0x800)
    return n if n < 0xD800 else n + 0x800


def string(c, hi=8, ascii_only=False):
    return ''.join(chr(codepoint(c, ascii_only)) for _ in range(c.int(0, hi)))


def atom(c, flonums=False, odd=False):
    k = c.draw(9)
    if k < 3:
        return c.int(-9, 9)
    if k == 3:
        return symbol(c, odd)
    if k == 4:
        return c.bool()
    if k == 5:
        return sx.Char(codepoint(c))
    if k == 6:
        return string(c, 5)
    if k == 7:
        return exact(c, 80)
    return flonum(c) if flonums else []


def tree(c, depth=3, **kw):
    """A random datum."""
    if depth <= 0 or c.bool(0.4):
        return atom(c, **kw)
    k = c.draw(10)
    n = c.int(0, 4)
    if k < 6:
        return [tree(c, depth - 1, **kw) for _ in range(n)]
    if k == 6:
        items = [tree(c, depth - 1, **kw) for _ in range(max(1, n))]
        t = atom(c, **kw)
        return sx.Dot(items, t) if not isinstance(t, list) else items
    if k == 7:
        return bytes(c.draw(256) for _ in range(n))
    return sx.Vec(tree(c, depth - 1, **kw) for _ in range(n))
