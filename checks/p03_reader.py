"""Spellings of data: the generator knows which datum its text denotes."""
import math
from fractions import Fraction
import gen
import pbt
import sx
import p01_roundtrip as p01
from sx import Char, Sym, Vec, Dot, Cplx

NAMES = {'alarm': 7, 'backspace': 8, 'delete': 127, 'escape': 27, 'newline': 10, 'null': 0, 'return': 13, 'space': 32, 'tab': 9}
ESC = {'\a': 'a', '\b': 'b', '\t': 't', '\n': 'n', '\r': 'r', '"': '"', '\\': '\\', '|': '|'}
INITIAL = 'abcdefghijklmnopqrstuvwxyzABCXYZ!$%&*/:<=>?^_~'
SUBSEQUENT = INITIAL + '0123456789+-.@'


def digits(n, radix):
    if n == 0:
        return '0'
    s = ''
    while n:
        s = '0123456789abcdef'[n % radix] + s
        n //= radix
    return s


class Text:
    """Spells data; every method returns (text, value, closed): closed when no delimiter must follow."""

    def __init__(self, c):
        self.c = c
        self.fold = False
        self.kinds = set()

    def gap(self, must):
        """Intertoken space."""
        c = self.c
        k = c.draw(14)
        if k < 5:
            return ' ' if must else c.pick(['', '', ' '])
        if k < 7:
            return c.pick(['\n', '\t', '  ', ' \n ', '\r\n', '\n\n'])
        if k == 7:
            self.kinds.add('line comment')
            return ' ;' + c.pick(['', ' x', ')', ' (', '"', '#|', '|#', ' λ', '\\', "'"]) + '\n'
        if k == 8:
            self.kinds.add('block comment')
            return self.block(c.int(0, 2))
        if k == 9:
            self.kinds.add('datum comment')
            t, _, closed = self.datum(c.int(0, 2))
            return ' #;' + c.pick(['', ' ', '\n']) + t + ('' if closed and c.bool() else ' ')
        if k == 10 and c.bool(0.4):
            self.kinds.add('directive')
            self.fold = c.bool()
            return ' #!fold-case ' if self.fold else ' #!no-fold-case '
        return ' ' if must else ''

    def block(self, d):
        c = self.c
        s = ''.join(c.pick(['', 'x', '(', '"', ';', '|', '#', ' ', '\n', 'λ', '||', '##', "\\"]) for _ in range(c.int(0, 3)))
        # no accidental openings or closings
        while '|#' in s or '#|' in s:
            s = s.replace('|#', '').replace('#|', '')
        s = s.strip('|#')
        if d:
            s += ' ' + self.block(d - 1) + ' '
        return '#|' + s + '|#'

    def integer(self):
        c = self.c
        n = gen.integer(c, 100)
        if c.bool(0.6):
            s = str(n) if n < 0 else c.pick(['', '', '+']) + c.pick(['', '', '0', '000']) + str(n)
            return s, n
        radix = c.pick([2, 8, 10, 16])
        p = {2: '#b', 8: '#o', 10: '#d', 16: '#x'}[radix]
        s = ('-' if n < 0 else c.pick(['', '+'])) + digits(abs(n), radix)
        if c.bool(0.2):
            p = p.upper()
        if c.bool(0.3):
            s = s.upper()
        e = c.pick(['', '', '#e', '#i', '#E'])
        if e.lower() == '#i':
            try:
                n = float(n)
            except OverflowError:
                n = math.inf if n > 0 else -math.inf
        p = p + e if c.bool() else e + p
        self.kinds.add('prefix')
        return p + s, n

    def number(self):
        c = self.c
        k = c.draw(7)
        if k < 3:
            return self.integer()
        if k == 3:
            q = gen.ratio(c, 60)
            return c.pick(['', '', '#e']) + '%d/%d' % (q.numerator, q.denominator) if c.bool(0.7) else '%d/%d' % (q.numerator * 6, q.denominator * 6), gen.norm(q)
        if k == 4:
            a, b = str(c.draw(10**c.int(0, 6))), str(c.draw(10**c.int(0, 8)))
            sign = c.pick(['', '-', '+'])
            s = sign + c.pick([a + '.' + b, a + '.', '.' + b, a + '.' + b + 'e' + str(c.int(-20, 20)), a + 'e' + c.pick(['', '+', '-']) + str(c.draw(20)), a + '.e2', '.' + b + 'E3'])
            v = float(s)
            e = Fraction(s if not s.endswith('.') else s[:-1]) if '.e' not in s and not s.lstrip('+-').startswith('.') else None
            if e is not None and e == v and c.bool(0.3):
                self.kinds.add('prefix')
                return '#e' + s, gen.norm(e)
            return c.pick(['', '', '#i']) + s, v
        if k == 5:
            s = c.pick(['+inf.0', '-inf.0', '+nan.0'])
            return s, {'+inf.0': math.inf, '-inf.0': -math.inf, '+nan.0': math.nan}[s]
        re = gen.exact(c, 30)
        im = gen.exact(c, 30) or 1
        unit = c.bool(0.2)
        if unit:
            im = c.pick([1, -1])
        s = ('' if re == 0 and c.bool() else str(re)) + ('+' if im > 0 else '-') + ('' if unit else str(abs(im))) + 'i'
        self.kinds.add('complex')
        return s, Cplx(re, im)

    def symbol(self):
        c = self.c
        k = c.draw(4)
        if k < 2:
            if c.bool(0.2):
                s = c.pick(['+', '-', '...', '->x', '+a', '-a', '--', '..', '+.a', '-.x', '.a', '+@', '.+', 'λ', 'é', '日本x', 'a.b', 'x-1', 'e1', 'inf', 'nan.0', 'a@b'])
            else:
                s = c.pick(INITIAL) + ''.join(c.pick(SUBSEQUENT) for _ in range(c.int(0, 5)))
            return s, Sym(s.lower() if self.fold and s.isascii() else s), False
        name = p01.name(c)
        self.kinds.add('|symbol|')
        return '|' + self.escaped(name, '|') + '|', Sym(name), True

    def escaped(self, s, q):
        c = self.c
        out = []
        for ch in s:
            k = c.draw(6)
            if ch == q or ch == '\\' or ch == '\r':
                out.append('\\' + ESC[ch] if ch != '\r' and c.bool(0.8) else '\\x%x;' % ord(ch))
            elif k == 0:
                self.kinds.add('hex escape')
                out.append('\\x' + c.pick(['', '0', '00']) + c.pick(['%x', '%X']) % ord(ch) + ';')
            elif ch in ESC and ch not in '"|' and (k < 4):
                out.append('\\' + ESC[ch])
            else:
                out.append(ch)
        return ''.join(out)

    def string(self):
        c = self.c
        s = p01.text(c)
        out, val = [], []
        for ch in s:
            if c.draw(16) == 1:
                self.kinds.add('continuation')
                out.append('\\' + c.pick(['', ' ', '\t ']) + c.pick(['\n', '\n', '\r\n']) + c.pick(['', ' ', '  \t']) + 'z')
                val.append('z')
            out.append(self.escaped_char(ch))
            val.append(ch)
        return '"' + ''.join(out) + '"', ''.join(val), True

    def escaped_char(self, ch):
        c = self.c
        k = c.draw(6)
        if ch in '"\\\r':
            return '\\' + ESC[ch] if c.bool(0.8) else '\\x%x;' % ord(ch)
        if k == 0:
            self.kinds.add('hex escape')
            return '\\x' + c.pick(['', '0', '00']) + c.pick(['%x', '%X']) % ord(ch) + ';'
        if ch in ESC and ch != '|' and k < 4:
            return '\\' + ESC[ch]
        return ch

    def char(self):
        c = self.c
        k = c.draw(3)
        if k == 0:
            n = c.pick(sorted(NAMES))
            return '#\\' + (n.upper() if self.fold and c.bool() else n), Char(NAMES[n]), False
        cp = gen.codepoint(c)
        if k == 1 or cp < 33 or 0x7f <= cp < 0xA1 or 0x2028 <= cp <= 0x2029:
            self.kinds.add('hex character')
            return '#\\x' + c.pick(['', '0']) + c.pick(['%x', '%X']) % cp, Char(cp), False
        return '#\\' + chr(cp), Char(cp), False

    def atom(self):
        c = self.c
        k = c.draw(9)
        if k < 2:
            s, v = self.number()
            return s, v, False
        if k < 4:
            return self.symbol()
        if k < 6:
            return self.string()
        if k == 6:
            return self.char()
        if k == 7:
            b = c.bool()
            return c.pick(['#t', '#true', '#T'] if b else ['#f', '#false', '#F']), b, False
        return '()', [], True

    def items(self, n, d):
        """n data with the space before each; text ends so that a closing parenthesis may follow."""
        out, vals, closed = '', [], True
        for _ in range(n):
            g = self.gap(not closed)
            t, v, cl = self.datum(d)
            if out and not g and not closed:
                g = ' '
            # a token must not grow into its neighbour
            if not g and out and not (out[-1] in '()"|' and t[0] in '(")' or t[0] in '(")' or out[-1] in '()"'):
                g = ' '
            out += g + t
            vals.append(v)
            closed = cl
        return out, vals, closed

    def datum(self, d):
        c = self.c
        if d <= 0 or c.bool(0.3):
            return self.atom()
        k = c.draw(10)
        n = c.int(0, 4)
        if k < 4:
            t, vs, closed = self.items(n, d - 1)
            return '(' + t + self.gap(False) + ')', vs, True
        if k < 6:
            t, vs, closed = self.items(max(n, 1), d - 1)
            g = self.gap(True)
            if not g[-1:].isspace():
                g += ' '
            t += g + '.'
            g = self.gap(True)
            if not g[:1].isspace():
                g = ' ' + g
            tt, tv, closed = self.datum(d - 1)
            for v in reversed(vs):
                tv = sx.cons(v, tv)
            self.kinds.add('dotted')
            return '(' + t + g + tt + self.gap(False) + ')', tv, True
        if k == 6:
            t, vs, closed = self.items(n, d - 1)
            return '#(' + t + self.gap(False) + ')', Vec(vs), True
        if k == 7:
            bs = [c.draw(256) for _ in range(n)]
            t = c.pick([' ', '\n', ' ;c\n', ' #|x|# ']).join(c.pick(['%d', '%d', '#x%x', '#o%o']) % b for b in bs)
            return c.pick(['#u8(', '#u8(', '#U8(']) + t + ')', bytes(bs), True
        q, s = c.pick([("'", 'quote'), ('`', 'quasiquote'), (',', 'unquote'), (',@', 'unquote-splicing')])
        self.kinds.add('abbreviation')
        g = c.pick(['', '', '', ' ', '\n']) if c.bool(0.8) else self.gap(False)
        t, v, closed = self.datum(d - 1)
        return q + (g if g or not t.startswith('@') else ' ') + t, [Sym(s), v], closed


class Check(pbt.Property):
    id = 'P03'
    imports = '(import (scheme read) (scheme complex))\n'
    prelude = p01.ENC + '''
(define (rest-of p)
  (let loop ((cs '()))
    (let ((c (read-char p)))
      (if (eof-object? c) (list->string (reverse cs)) (loop (cons c cs))))))
(define (read-some p n)
  (let loop ((n n) (xs '()))
    (if (= n 0) (let ((xs (reverse xs))) (list (enc xs) (rest-of p)))
        (loop (- n 1) (cons (read p) xs)))))
'''
    batch = 60
    quick = 500
    thorough = 30000
    rule = 'the text uses a comment, directive, escape, prefix, abbreviation, dotted tail or |symbol| and is not a single token'
    assumptions = ['square brackets, raw carriage returns inside strings and #e before a decimal that no flonum equals are not generated']
    demos = {'exact-decimal': ("'(#e1.1)", '(11/10)')}

    def gen(self, c):
        t = Text(c)
        n = 1 if c.bool(0.6) else c.int(1, 3)
        text, vals, closed = '', [], True
        for _ in range(n):
            g = t.gap(not closed)
            if text and not closed and not g:
                g = ' '
            s, v, closed2 = t.datum(c.int(0, 4))
            if text and not g:
                g = ' '
            text += g + s
            closed = closed2
            vals.append(v)
        rest = c.pick(['', ' ', '(', ')', '"s"', ' x', '\n', ';c', '(a . b)'] + ([] if not closed else ['x', '1', '#t', "'"]))
        return pbt.Case('(read-some (open-input-string %s) %d)' % (sx.strlit(text + rest), n),
                        sx.show([[p01.enc(v) for v in vals], rest]),
                        nontrivial=bool(t.kinds) and len(text) > 6, labels=sorted(t.kinds))
