"""write, then read: the same datum."""
import math
from fractions import Fraction
import gen
import pbt
import sx
from sx import Char, Sym, Vec, Dot, Cplx

SPECIAL = ['.', '..', '...', '+', '-', '+i', '-i', '1', '-1', '1/2', '1.5', '.5', '1e3', '+inf.0', '-nan.0', '1+', '-1+', '+5', '#t', '#', '#\\a', '', '|', '||', '\\', '"', "'", '`', ',', ',@', '@',
           ';', 'a;b', '(', ')', '[', '{', 'a b', ' ', '\n', '\t', '\r', '\0', 'ABC', 'aBc', '\x7f', '\x80', 'λ', '#"a"', '#0=', '#1#', 'x"y', '\\x41;', '1a', 'a.b', '--', '+a', '.a', '-.5', '1_', '\u2028', '\U0001F600', 'nan', 'inf', 'e', '1e', '0x1', '1.', '#!eof', '#;', '#|']


def name(c):
    k = c.draw(5)
    if k == 0:
        return c.pick(gen.NAMES)
    if k < 3:
        return c.pick(SPECIAL)
    if k == 3:
        return ''.join(c.pick(SPECIAL + ['a', 'b', '0']) for _ in range(c.int(0, 3)))
    return gen.string(c, 6)


def text(c):
    k = c.draw(3)
    if k == 0:
        return gen.string(c, 6)
    if k == 1:
        return ''.join(chr(c.pick(gen.CHARS)) for _ in range(c.int(0, 6)))
    return ''.join(c.pick(SPECIAL + ['\\n', 'x', ';', '\a', '\b', '\r\n']) for _ in range(c.int(0, 4)))


def atom(c):
    k = c.draw(12)
    if k == 0:
        return c.bool()
    if k == 1:
        return gen.integer(c)
    if k == 2:
        return gen.exact(c)
    if k == 3:
        x = gen.flonum(c, finite=False)
        return x if math.isnan(x) or math.isinf(x) or x != int(x) else x + 0.5 if x + 0.5 != int(x + 0.5) else 0.5
    if k == 4:
        a, b = gen.exact(c, 40), gen.exact(c, 40)
        return Cplx(a, b if b else 1)
    if k < 7:
        return Char(gen.codepoint(c) if c.bool() else c.pick(gen.CHARS))
    if k < 9:
        return text(c)
    if k < 11:
        return Sym(name(c))
    return []


def tree(c, depth):
    if depth <= 0 or c.bool(0.35):
        return atom(c)
    k = c.draw(10)
    n = c.int(0, 4)
    if k < 5:
        return [tree(c, depth - 1) for _ in range(n)]
    if k == 5:
        t = tree(c, depth - 1)
        x = t
        for _ in range(max(n, 1)):
            x = sx.cons(tree(c, depth - 1), x)
        return x
    if k == 6:
        return bytes(c.draw(256) for _ in range(n))
    if k == 7:      # what looks like an abbreviation
        q = Sym(c.pick(['quote', 'quasiquote', 'unquote', 'unquote-splicing']))
        return sx.cons(q, c.pick([lambda: [tree(c, depth - 1)], lambda: [], lambda: tree(c, depth - 1), lambda: [1, 2]])())
    return Vec(tree(c, depth - 1) for _ in range(n))


def string_code(s):
    if all(31 < ord(ch) < 127 and ch not in '"\\' for ch in s):
        return '"%s"' % s
    return '(string %s)' % ' '.join('(integer->char %d)' % ord(ch) for ch in s)


def code(x):
    """An expression that makes x with constructors."""
    if isinstance(x, Sym):
        return '(string->symbol %s)' % string_code(x.name)
    if isinstance(x, str):
        return string_code(x)
    if isinstance(x, Char):
        return '(integer->char %d)' % x.cp
    if isinstance(x, Cplx):
        return '(make-rectangular %s %s)' % (x.re, x.im)
    if isinstance(x, Vec):
        return '(vector %s)' % ' '.join(map(code, x))
    if isinstance(x, list):
        return '(list %s)' % ' '.join(map(code, x))
    if isinstance(x, Dot):
        return '(cons* %s %s)' % (' '.join(map(code, x.items)), code(x.tail))
    if isinstance(x, bytes):
        return '(bytevector %s)' % ' '.join(map(str, x))
    return sx.lit(x)


def enc(x):
    """The datum with each symbol replaced by a structure that names it."""
    if isinstance(x, Sym):
        return Dot([Sym('sym')], x.name)
    if isinstance(x, Cplx):
        return [Sym('rect'), x.re, x.im]
    if isinstance(x, Vec):
        return Vec(map(enc, x))
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, Dot):
        t = enc(x.tail)
        for y in reversed(x.items):
            t = sx.cons(enc(y), t)
        return t
    return x


ENC = '''
(define (enc x)
  (cond ((symbol? x) (cons 'sym (symbol->string x)))
        ((pair? x) (cons (enc (car x)) (enc (cdr x))))
        ((vector? x) (vector-map enc x))
        ((and (number? x) (not (real? x))) (list 'rect (real-part x) (imag-part x)))
        (else x)))
(define (written x)
  (let ((p (open-output-string))) (write x p) (get-output-string p)))
(define (displayed x)
  (let ((p (open-output-string))) (display x p) (get-output-string p)))
(define (read-all s)
  (let ((p (open-input-string s)))
    (let loop ((x (read p)) (xs '()))
      (if (eof-object? x) (reverse xs) (loop (read p) (cons x xs))))))
'''


def displayed(x):
    if isinstance(x, bool):
        return '#t' if x else '#f'
    if isinstance(x, (int, Fraction)):
        return str(x)
    if isinstance(x, Sym):
        return x.name
    if isinstance(x, str):
        return x
    if isinstance(x, Char):
        return chr(x.cp)
    if isinstance(x, Vec):
        return '#(' + ' '.join(map(displayed, x)) + ')'
    if isinstance(x, list):
        return '(' + ' '.join(map(displayed, x)) + ')'
    if isinstance(x, Dot):
        return '(' + ' '.join(map(displayed, x.items)) + ' . ' + displayed(x.tail) + ')'
    if isinstance(x, bytes):
        return '#u8(' + ' '.join(map(str, x)) + ')'
    raise KeyError


def leaves(x):
    if isinstance(x, (Vec, list)):
        for y in x:
            yield from leaves(y)
    elif isinstance(x, Dot):
        for y in x.items + [x.tail]:
            yield from leaves(y)
    else:
        yield x


class Check(pbt.Property):
    id = 'P01'
    imports = '(import (scheme read) (scheme complex) (only (srfi 1) cons*))\n'
    prelude = ENC
    batch = 60
    quick = 500
    thorough = 30000
    rule = 'the data contain a flonum or a string, character or symbol that the writer must quote or escape, and are nested'
    assumptions = ['flonums that are integers are not generated: write spells them as exact integers (finding write-integral-flonum of P09)',
                   'data without cycles (cycles are P04)']

    def gen(self, c):
        xs = [tree(c, c.int(0, 4)) for _ in range(1 if c.bool(0.6) else c.int(1, 4))]
        sep = c.pick([' ', '\n', ' ;c\n', ' #|x|# ', '\t'])
        lv = [y for x in xs for y in leaves(x)]
        odd = any(isinstance(y, float) or
                  isinstance(y, (str, Char, Sym)) and not (isinstance(y, Char) and 33 <= y.cp < 127) and
                  not (lambda s: s.isascii() and s.isalnum() and not s[0].isdigit())((y.name if isinstance(y, Sym) else y if isinstance(y, str) else '') or '1') for y in lv)
        nested = any(isinstance(x, (list, Dot)) and len(list(leaves(x))) > 1 for x in xs)
        stmts = '''(let* ((xs (list %s))
       (ts (map written xs))
       (ys (read-all (apply string-append (map (lambda (t) (string-append t %s)) ts)))))
  (list (equal? xs ys) (enc ys) (equal? ts (map written ys))''' % (' '.join(map(code, xs)), sx.strlit(sep))
        nan = any(isinstance(y, float) and math.isnan(y) for y in lv)
        expect = [True, [enc(x) for x in xs], True]
        try:
            d = [displayed(x) for x in xs]
            stmts += ' (map displayed xs)'
            expect.append(d)
        except KeyError:
            pass
        if nan:
            stmts = stmts.replace('(equal? xs ys)', '#t')
        return pbt.Case(stmts + "))", sx.show(expect), nontrivial=odd and nested,
                        labels=['flonum'] * any(isinstance(y, float) for y in lv) + ['symbol'] * any(isinstance(y, Sym) for y in lv) +
                        ['string'] * any(isinstance(y, str) for y in lv) + ['char'] * any(isinstance(y, Char) for y in lv))
