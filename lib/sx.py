"""Scheme data in Python: source literals, expected printed forms, and an independent datum parser.

Python value     Scheme
bool             #t #f
int / Fraction   exact rational
float            flonum
Sym              symbol
Char             character
str              string
list             proper list
Dot(items, tail) improper list
Vec              vector
bytes            bytevector
UNSPEC, EOF      unspecified value, eof object
"""
import math
import re
from fractions import Fraction


class Sym:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(('sym', self.name))

    def __repr__(self):
        return 'Sym(%r)' % self.name


class Char:
    __slots__ = ('cp',)

    def __init__(self, cp):
        self.cp = cp if isinstance(cp, int) else ord(cp)

    def __eq__(self, o):
        return isinstance(o, Char) and o.cp == self.cp

    def __hash__(self):
        return hash(('chr', self.cp))

    def __repr__(self):
        return 'Char(%d)' % self.cp


class Dot:
    __slots__ = ('items', 'tail')

    def __init__(self, items, tail):
        self.items, self.tail = list(items), tail

    def __eq__(self, o):
        return isinstance(o, Dot) and o.items == self.items and same(o.tail, self.tail)

    def __repr__(self):
        return 'Dot(%r, %r)' % (self.items, self.tail)


class Vec(list):
    def __eq__(self, o):
        return isinstance(o, Vec) and list.__eq__(self, o)

    __hash__ = None

    def __repr__(self):
        return 'Vec(%s)' % list.__repr__(self)


class Cplx:
    """Rectangular complex with exact or flonum parts."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __eq__(self, o):
        return isinstance(o, Cplx) and same(o.re, self.re) and same(o.im, self.im)

    def __repr__(self):
        return 'Cplx(%r, %r)' % (self.re, self.im)


class Const:
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


UNSPEC = Const('#;unspecified')
EOF = Const('#,(eof-object)')


def cons(a, b):
    if isinstance(b, Vec) or not isinstance(b, (list, Dot)):
        return Dot([a], b)
    if isinstance(b, Dot):
        return Dot([a] + b.items, b.tail)
    return [a] + b


def same(a, b):
    """equal? with exactness and NaN treated as data."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and (
            (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b)))
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Dot):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items)) and same(a.tail, b.tail)
    return a == b


# -- numbers -----------------------------------------------------------------

def flo(x):
    """A flonum literal that always reads as a flonum."""
    if math.isnan(x):
        return '+nan.0'
    if math.isinf(x):
        return '+inf.0' if x > 0 else '-inf.0'
    r = repr(x)
    if 'e' in r and '.' not in r:
        m, e = r.split('e')
        r = m + '.0e' + e
    return r


FLO = re.compile(r'~([^ ()"]+)')


def canon_float(x):
    if math.isnan(x):
        return '~nan'
    if math.isinf(x):
        return '~inf' if x > 0 else '~-inf'
    return '~' + repr(x)


def _canon(m):
    t = m.group(1)
    try:
        return canon_float(float(t.replace('.0', '') if t[1:] in ('inf.0', 'nan.0') else t))
    except ValueError:
        return m.group(0)


def canon(text):
    """Flonum tokens (~1e+07) of a shown text in canonical spelling: how a flonum is spelled is no concern of most checks."""
    return FLO.sub(_canon, text) if '~' in text else text


# -- source ------------------------------------------------------------------

def strlit(s):
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out.append('\\' + ch)
        elif o < 32 or o >= 127:
            out.append('\\x%x;' % o)
        else:
            out.append(ch)
    out.append('"')
    return ''.join(out)


def charlit(c):
    o = c.cp
    if 33 <= o < 127:
        return '#\\' + chr(o)
    return '#\\x%x' % o


def symlit(name):
    if name and all(ch.isascii() and (ch.isalnum() or ch in '!$%&*/:<=>?^_~+-@') for ch in name) \
            and not name[0].isdigit() and (name in '+-' or name[0] not in '+-@') and name.isascii():
        return name
    out = ['|']
    for ch in name:
        o = ord(ch)
        if ch in '|\\':
            out.append('\\' + ch)
        elif o < 32 or o >= 127:
            out.append('\\x%x;' % o)
        else:
            out.append(ch)
    out.append('|')
    return ''.join(out)


def datum(x):
    """Source text of the datum x (inside a quote)."""
    if x is True:
        return '#t'
    if x is False:
        return '#f'
    if isinstance(x, (int, Fraction)):
        return str(x)
    if isinstance(x, float):
        return flo(x)
    if isinstance(x, Cplx):
        return None
    if isinstance(x, Sym):
        return symlit(x.name)
    if isinstance(x, Char):
        return charlit(x)
    if isinstance(x, str):
        return strlit(x)
    if isinstance(x, Vec):
        return '#(' + ' '.join(map(datum, x)) + ')'
    if isinstance(x, list):
        return '(' + ' '.join(map(datum, x)) + ')'
    if isinstance(x, Dot):
        return '(' + ' '.join(map(datum, x.items)) + ' . ' + datum(x.tail) + ')'
    if isinstance(x, (bytes, bytearray)):
        return '#u8(' + ' '.join(map(str, x)) + ')'
    raise TypeError(repr(x))


def lit(x):
    """Expression evaluating to a constant x."""
    if isinstance(x, (Sym, list, Dot)):
        return "'" + datum(x)
    return datum(x)


def fresh(x):
    """Expression allocating a fresh, mutable x."""
    if isinstance(x, str):
        return '(string-copy %s)' % strlit(x)
    if isinstance(x, (bytes, bytearray)):
        return '(bytevector %s)' % ' '.join(map(str, x))
    if isinstance(x, Vec):
        return '(vector %s)' % ' '.join(map(fresh, x))
    if isinstance(x, list):
        return '(list %s)' % ' '.join(map(fresh, x)) if x else "'()"
    if isinstance(x, Dot):
        return '(cons* %s %s)' % (' '.join(map(fresh, x.items)), fresh(x.tail))
    return lit(x)


# -- the `show' form: what the batch prelude prints -----------------------------

SHOW = r'''
(define (verif-show x port)
  (cond ((pair? x)
         (write-char #\( port)
         (verif-show (car x) port)
         (let loop ((x (cdr x)))
           (cond ((pair? x) (write-char #\space port) (verif-show (car x) port) (loop (cdr x)))
                 ((null? x) (write-char #\) port))
                 (else (write-string " . " port) (verif-show x port) (write-char #\) port)))))
        ((null? x) (write-string "()" port))
        ((eq? x #t) (write-string "#t" port))
        ((eq? x #f) (write-string "#f" port))
        ((and (number? x) (inexact? x)) (write-char #\~ port) (write x port))
        ((char? x) (write-char #\$ port) (write (char->integer x) port))
        ((string? x)
         (write-char #\" port)
         (string-for-each (lambda (c)
           (let ((n (char->integer c)))
             (if (and (< 31 n 126) (not (= n 34)) (not (= n 92)))
                 (write-char c port)
                 (begin (write-char #\\ port) (write n port) (write-char #\; port))))) x)
         (write-char #\" port))
        ((vector? x)
         (write-string "#(" port)
         (let loop ((i 0))
           (if (< i (vector-length x))
               (begin (if (< 0 i) (write-char #\space port))
                      (verif-show (vector-ref x i) port) (loop (+ i 1)))))
         (write-char #\) port))
        (else (write x port))))
'''


def show(x):
    if x is True:
        return '#t'
    if x is False:
        return '#f'
    if isinstance(x, (int, Fraction)):
        return str(x)
    if isinstance(x, float):
        return canon_float(x)
    if isinstance(x, Sym):
        return x.name
    if isinstance(x, Char):
        return '$%d' % x.cp
    if isinstance(x, str):
        return '"' + ''.join(ch if 31 < ord(ch) < 126 and ch not in '"\\' else '\\%d;' % ord(ch) for ch in x) + '"'
    if isinstance(x, Vec):
        return '#(' + ' '.join(map(show, x)) + ')'
    if isinstance(x, list):
        return '(' + ' '.join(map(show, x)) + ')'
    if isinstance(x, Dot):
        return '(' + ' '.join(map(show, x.items)) + ' . ' + show(x.tail) + ')'
    if isinstance(x, (bytes, bytearray)):
        return '#u8(' + ' '.join(map(str, x)) + ')'
    if isinstance(x, Const):
        return x.text
    raise TypeError(repr(x))
