"""Strings and characters against Python's Unicode strings and tables."""
import unicodedata as ud

import gen
import pbt
import sx
from sx import Char


def simple(cp):
    """Characters whose simple, full and folding case mappings agree, so that every reading of R7RS gives the same answer."""
    if 0xD800 <= cp < 0xE000:
        return False
    ch = chr(cp)
    return len(ch.upper()) == 1 and len(ch.lower()) == 1 and ch.casefold() == ch.lower() and ud.category(ch) != 'Cn'


POOL = [cp for cp in list(range(0x250)) + list(range(0x370, 0x530)) + list(range(0x10A0, 0x1100)) + list(range(0x13A0, 0x1400)) +
        list(range(0x1C80, 0x1CC0)) + list(range(0x1E00, 0x2000)) + list(range(0x2C00, 0x2D30)) + list(range(0xA640, 0xA7F0)) +
        list(range(0xFF00, 0xFF60)) + list(range(0x10400, 0x10500)) + list(range(0x1E900, 0x1E944)) if simple(cp)]
CASED = [cp for cp in POOL if chr(cp).upper() != chr(cp).lower()]
WS = [9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2000, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
# Properties that UnicodeData.txt alone does not give: the derived Alphabetic, Uppercase and Lowercase (see DESIGN.md)
LETTER = ('Lu', 'Ll', 'Lt', 'Lm', 'Lo')


def white(cp):
    return cp in WS or 0x2000 <= cp <= 0x200A


def derived(cp):
    """The derived properties go beyond the general category here."""
    ch = chr(cp)
    cat = ud.category(ch)
    return cat in ('Nl', 'Mn', 'Mc', 'So', 'Lm', 'Lo', 'Me') or cat == 'Cn'


def fold(cps):
    return [ord(chr(x).lower()) for x in cps]


CMP = [('=?', lambda a, b: a == b), ('<?', lambda a, b: a < b), ('>?', lambda a, b: a > b), ('<=?', lambda a, b: a <= b), ('>=?', lambda a, b: a >= b)]


def text(cps):
    return ''.join(map(chr, cps))


class Check(pbt.Property):
    id = 'P12'
    imports = '(import (scheme char) (scheme cxr) (srfi 1))\n'
    batch = 60
    quick = 700
    thorough = 40000
    rule = 'a history with a mutation or copy and a string of more than one character, a comparison of nonempty strings, a case mapping of a cased character, a non-ASCII conversion, or a table block'
    assumptions = ['Unicode tables of Python (15.0) for characters assigned there', 'case conversion is generated for characters whose simple and full mappings and folding agree',
                   'char-alphabetic?, char-upper-case? and char-lower-case? are compared where general category and derived property agree']
    prelude = '''
(define (bits . bs) (let loop ((n 0) (bs bs)) (if (null? bs) n (loop (+ (* 2 n) (if (car bs) 1 0)) (cdr bs)))))
'''

    demos = {
        'alphabetic-nl': ('(char-alphabetic? (integer->char #x2160))', '#t'),
        'upper-case-other': ('(char-upper-case? (integer->char #x24B6))', '#t'),
        'foldcase-final-sigma': ('(char-foldcase (integer->char #x3C2))', '$963'),
        'upcase-sharp-s': ('(string-upcase (string (integer->char #xDF)))', '"SS"'),
    }

    def cp(self, c):
        k = c.draw(5)
        if k < 2:
            return ord('a') + c.draw(4)
        if k == 2:
            return gen.codepoint(c)
        return c.pick(POOL)

    def cps(self, c, hi=7):
        return [self.cp(c) for _ in range(c.int(0, hi))]

    def cased(self, c, hi=6):
        return [c.pick(CASED) if c.bool(0.7) else c.pick([ord(x) for x in 'abAB09 _[^`{'] + POOL) for _ in range(c.int(0, hi))]

    def gen(self, c):
        k = c.draw(20)
        if k < 9:
            return self.history(c)
        if k < 13:
            return self.compare(c)
        if k < 15:
            return self.mapping(c)
        if k == 15:
            return self.block(c)
        if k < 18:
            return self.utf8(c)
        return self.char(c)

    def compare(self, c):
        """n-ary string and char comparisons, with arguments that share prefixes."""
        ci = c.bool()
        n = c.int(2, 4)
        base = self.cased(c) if ci else self.cps(c)
        args = []
        for _ in range(n):
            a = list(base)
            for _ in range(c.draw(3)):
                j = c.draw(5)
                if j == 0:
                    a = a[:c.draw(len(a) + 1)]
                elif j == 1:
                    a = a + [c.pick(CASED) if ci else self.cp(c)]
                elif j == 2 and a:
                    i = c.draw(len(a))
                    a[i] = c.pick(CASED) if ci else self.cp(c)
                elif j == 3 and a:
                    i = c.draw(len(a))
                    a[i] = ord(chr(a[i]).swapcase()) if ci else a[i] + 1 if a[i] + 1 not in (0xD800, 0x110000) else a[i]
                    if ci and not simple(a[i]):
                        a[i] = 65
            args.append(a)
        if c.bool(0.2):
            args.sort(key=fold if ci else list, reverse=c.bool())
        op, f = c.pick(CMP)
        key = fold if ci else list
        if c.bool(0.3):
            chars = [[c.pick(a)] if a else [97] for a in args]
            code = '(char%s%s %s)' % ('-ci' if ci else '', op, ' '.join(sx.datum(Char(a[0])) for a in chars))
            args = chars
        else:
            code = '(string%s%s %s)' % ('-ci' if ci else '', op, ' '.join(sx.datum(text(a)) for a in args))
        r = all(f(key(a), key(b)) for a, b in zip(args, args[1:]))
        return pbt.Case(code, expect=sx.show(r), nontrivial=any(args), labels=['compare' + ('-ci' if ci else '')])

    def mapping(self, c):
        s = self.cased(c)
        p = text(s)
        code = '(let ((s %s)) (list (string-upcase s) (string-downcase s) (string-foldcase s) (map char-upcase (string->list s)) (map char-downcase (string->list s)) (map char-foldcase (string->list s)) s))' % sx.datum(p)
        up, lo = [ord(chr(x).upper()) for x in s], fold(s)
        return pbt.Case(code, expect=sx.show([text(up), text(lo), text(lo), [Char(x) for x in up], [Char(x) for x in lo], [Char(x) for x in lo], p]),
                        nontrivial=any(x in CASED for x in s), labels=['case mapping'])

    def block(self, c):
        """A block of consecutive code points: the tables as a whole are covered by sampling."""
        base = c.pick([c.draw(0x3400), c.draw(0x20000), 0xA000 + c.draw(0x6000), c.draw(0x110000), c.pick(POOL)])
        cps = [x for x in range(base, min(base + 48, 0x110000)) if not 0xD800 <= x < 0xE000]
        out = []
        rows = []
        for x in cps:
            ch = chr(x)
            cat = ud.category(ch)
            if cat == 'Cn':
                continue
            rows.append(x)
            num = cat == 'Nd'
            m = [-1 if derived(x) and not (cat in LETTER) else int(cat in LETTER), int(num), int(white(x)),
                 -1 if derived(x) else int(cat == 'Lu'), -1 if derived(x) else int(cat == 'Ll'),
                 ud.digit(ch) if num else False,
                 ord(ch.upper()) if simple(x) else -1, ord(ch.lower()) if simple(x) else -1, ord(ch.lower()) if simple(x) else -1]
            out.append(m)
        names = ['(if (char-alphabetic? c) 1 0)', '(if (char-numeric? c) 1 0)', '(if (char-whitespace? c) 1 0)', '(if (char-upper-case? c) 1 0)', '(if (char-lower-case? c) 1 0)',
                 '(digit-value c)', '(char->integer (char-upcase c))', '(char->integer (char-downcase c))', '(char->integer (char-foldcase c))']
        code = "(map (lambda (n) (let ((c (integer->char n))) (list %s))) '(%s))" % (' '.join(names), ' '.join(map(str, rows)))

        def judge(got):
            body = got.strip()
            if not rows:
                return None if body == '()' else 'got ' + got
            if not body.startswith('((') or not body.endswith('))'):
                return 'got ' + got[:200]
            lines = body[2:-2].split(') (')
            if len(lines) != len(rows):
                return 'got ' + got[:200]
            for x, want, line in zip(rows, out, lines):
                g = line.split()
                for name, w, v in zip(names, want, g):
                    if w == -1:
                        continue
                    w = '#f' if w is False else str(w)
                    if v != w:
                        return 'U+%04X: %s is %s, must be %s' % (x, name, v, w)
        return pbt.Case(code, judge=judge, nontrivial=len(rows) > 0, labels=['table block'])

    def utf8(self, c):
        s = self.cps(c, 10)
        p = text(s)
        i = c.draw(len(s) + 1)
        j = c.int(i, len(s))
        form = c.draw(3)
        rng = ['', ' %d' % i, ' %d %d' % (i, j)][form]
        sub = [p, p[i:], p[i:j]][form]
        pre, post = bytes(c.draw(128) for _ in range(c.draw(3))), bytes(c.draw(128) for _ in range(c.draw(3)))
        b = p.encode()
        code = '(let* ((s %s) (b (string->utf8 s%s)) (b2 (bytevector-append %s (string->utf8 s) %s))) (list b (utf8->string b) (utf8->string b2 %d) (utf8->string b2 %d %d) (string-length s) (bytevector-length (string->utf8 s))))' % (
            sx.datum(p), rng, sx.datum(pre), sx.datum(post), len(pre), len(pre), len(pre) + len(b))
        return pbt.Case(code, expect=sx.show([sub.encode(), sub, p + post.decode(), p, len(p), len(b)]), nontrivial=any(x > 127 for x in s), labels=['utf8'])

    def char(self, c):
        k = c.draw(3)
        if k == 0:
            x = self.cp(c)
            return pbt.Case('(list (char->integer %s) (integer->char %d) (string-ref (string %s) 0) (char? %s) (eqv? (integer->char %d) %s))' % (
                sx.datum(Char(x)), x, sx.datum(Char(x)), sx.datum(Char(x)), x, sx.datum(Char(x))), expect=sx.show([x, Char(x), Char(x), True, True]),
                nontrivial=x > 127, labels=['char'])
        if k == 1:
            names = [text([c.pick([97, 98, 32, 955, 0x65e5, 66]) for _ in range(c.int(1, 3))]) for _ in range(c.int(2, 3))]
            if c.bool():
                names = [names[0]] * len(names)
            code = '(list (symbol=? %s) (map symbol->string (map string->symbol (list %s))))' % (' '.join('(string->symbol %s)' % sx.datum(n) for n in names), ' '.join(sx.datum(n) for n in names))
            return pbt.Case(code, expect=sx.show([len(set(names)) == 1, names]), labels=['symbol names'])
        bs = [c.bool() for _ in range(c.int(2, 4))]
        if c.bool():
            bs = [bs[0]] * len(bs)
        return pbt.Case('(boolean=? %s)' % ' '.join(sx.datum(b) for b in bs), expect=sx.show(len(set(bs)) == 1), nontrivial=False, labels=['boolean=?'])

    def history(self, c):
        """A history of operations over several strings, some of them aliases."""
        nvar = c.int(1, 3)
        objs, binds = [], []
        for v in range(nvar):
            k = c.draw(5)
            if k == 0 and v:
                w = c.draw(v)
                binds.append('(s%d s%d)' % (v, w))
                objs.append(objs[w])
            elif k == 1:
                n, x = c.int(0, 6), self.cp(c)
                binds.append('(s%d (make-string %d %s))' % (v, n, sx.datum(Char(x))))
                objs.append([x] * n)
            else:
                s = self.cps(c)
                binds.append('(s%d (%s))' % (v, ('string-copy ' + sx.datum(text(s))) if c.bool() else 'string ' + ' '.join(sx.datum(Char(x)) for x in s)))
                objs.append(list(s))
        stmts, outs, muts = [], [], 0

        def record(code, value):
            stmts.append('(set! out (cons %s out))' % code)
            outs.append(value)

        for _ in range(c.int(1, 8)):
            v = c.draw(nvar)
            s = objs[v]
            n = len(s)
            name = 's%d' % v
            i = c.draw(n + 1)
            j = c.int(i, n)
            rng, sl = c.pick([('', slice(0, n)), (' %d' % i, slice(i, n)), (' %d %d' % (i, j), slice(i, j))])
            part = s[sl]
            k = c.draw(21)
            w = c.draw(nvar)
            t = objs[w]
            if k == 0 and n:
                q = c.draw(n)
                record('(string-ref %s %d)' % (name, q), Char(s[q]))
            elif k in (1, 2) and n:
                q, x = c.draw(n), self.cp(c)
                stmts.append('(string-set! %s %d %s)' % (name, q, sx.datum(Char(x))))
                s[q] = x
                muts += 1
            elif k == 3:
                x = self.cp(c)
                stmts.append('(string-fill! %s %s%s)' % (name, sx.datum(Char(x)), rng))
                s[sl] = [x] * len(part)
                muts += 1
            elif k in (4, 5, 6):
                # string-copy! to v from w (possibly the same string)
                a = c.draw(len(t) + 1)
                b = c.int(a, len(t))
                r2, sl2 = c.pick([('', slice(0, len(t))), (' %d' % a, slice(a, len(t))), (' %d %d' % (a, b), slice(a, b))])
                src = list(t[sl2])
                if len(src) > n:
                    continue
                at = c.int(0, n - len(src))
                stmts.append('(string-copy! %s %d s%d%s)' % (name, at, w, r2))
                s[at:at + len(src)] = src
                muts += 1
            elif k == 7:
                record('(string-copy %s%s)' % (name, rng), text(part))
                muts += 1
            elif k == 8:
                record('(substring %s %d %d)' % (name, i, j), text(s[i:j]))
            elif k == 9:
                record('(string->list %s%s)' % (name, rng), [Char(x) for x in part])
            elif k == 10:
                record('(string->vector %s%s)' % (name, rng), sx.Vec(Char(x) for x in part))
            elif k == 11:
                record('(vector->string (string->vector %s)%s)' % (name, rng), text(part))
            elif k == 12:
                record('(list->string (reverse (string->list %s%s)))' % (name, rng), text(part[::-1]))
            elif k == 13:
                m = c.int(0, 3)
                ws = [c.draw(nvar) for _ in range(m)]
                record('(string-append %s)' % ' '.join('s%d' % q for q in ws), text(sum((objs[q] for q in ws), [])))
                muts += 1
            elif k == 14:
                record('(string-map (lambda (a b) (if (char<? a b) a b)) %s s%d)' % (name, w), text([min(x, y) for x, y in zip(s, t)]))
            elif k == 15:
                record("(let ((o '())) (string-for-each (lambda (a b) (set! o (cons (char->integer b) (cons (char->integer a) o)))) %s s%d) o)" % (name, w),
                       [z for p in zip(s, t) for z in p][::-1])
            elif k == 16:
                record('(string-length %s)' % name, n)
            elif k == 17:
                record('(list (string=? %s s%d) (equal? %s s%d) (eq? %s %s))' % (name, w, name, w, name, name), [s == t, s == t, True])
            elif k == 18:
                # a copy must not alias; an append of one string neither
                x = self.cp(c)
                how = c.pick(['(string-copy %s)', '(string-append %s)', '(substring %s 0 (string-length %s))', '(list->string (string->list %s))', '(string-map (lambda (x) x) %s)']).replace('%s', name)
                if not n:
                    continue
                q = c.draw(n)
                record('(let ((t %s)) (string-set! t %d %s) t)' % (how, q, sx.datum(Char(x))), text(s[:q] + [x] + s[q + 1:]))
                muts += 1
            elif k == 19:
                record('(string-map (lambda (x) (if (char=? x #\\a) #\\x3bb x)) %s)' % name, text([0x3bb if x == 97 else x for x in s]))
            else:
                record('(symbol->string (string->symbol %s))' % name, text(s))
        code = "(let* (%s (out '())) %s (list out %s))" % (' '.join(binds), ' '.join(stmts), ' '.join('s%d' % v for v in range(nvar)))
        return pbt.Case(code, expect=sx.show([outs[::-1]] + [text(o) for o in objs]), nontrivial=muts > 0 and any(len(o) > 1 for o in objs), labels=['history'])
