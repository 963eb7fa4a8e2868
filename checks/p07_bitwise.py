"""SRFI 151 against Python integers."""
import gen
import pbt
import sx


def mask(w): return (1 << w) - 1
def popcount(n): return bin(n).count('1') if n >= 0 else bin(~n).count('1')
def length(n): return n.bit_length() if n >= 0 else (~n).bit_length()


def sh(n, k): return n << k if k >= 0 else n >> -k


class Check(pbt.Property):
    id = 'P07'
    imports = '(import (srfi 151))'
    prelude = '''
(define (fold-bits i) (bitwise-fold (lambda (b r) (cons b r)) '() i))
(define (each-bits i) (let ((r '())) (bitwise-for-each (lambda (b) (set! r (cons b r))) i) r))
(define (gen-bits n i) (let ((g (make-bitwise-generator i))) (let loop ((n n) (r '())) (if (= n 0) (reverse r) (let ((b (g))) (loop (- n 1) (cons b r)))))))
(define (unfold-bits l) (bitwise-unfold null? car cdr l))
'''
    batch = 60
    quick = 1500
    thorough = 60000
    rule = 'an operand is negative or outside the 32-bit range, or a field is nonempty and not at position 0'
    assumptions = ['Python 3.12 int is correct']

    def gen(self, c):
        i = lambda: gen.integer(c, 150)
        n = i()
        big = n < 0 or abs(n) >= 2**31
        k = c.draw(26)
        a, e, m = None, None, None
        width = max(8, n.bit_length() + 4)
        pos = c.int(0, width)
        lo = c.int(0, width)
        hi = lo + c.int(0, width)
        w = hi - lo
        fm = mask(w) << lo
        if k == 0:
            a, e = '(bitwise-not %d)' % n, ~n
        elif k in (1, 2, 3):
            f, g, z = [('bitwise-and', lambda x, y: x & y, -1), ('bitwise-ior', lambda x, y: x | y, 0),
                       ('bitwise-xor', lambda x, y: x ^ y, 0)][k - 1]
            xs = [i() for _ in range(c.int(0, 4))]
            e = z
            for x in xs:
                e = g(e, x)
            a = '(%s%s)' % (f, ''.join(' %d' % x for x in xs))
            big = any(x < 0 or abs(x) >= 2**31 for x in xs)
        elif k == 4:
            xs = [i() for _ in range(c.int(0, 4))]
            e = -1
            for x in xs:
                e = ~(e ^ x)
            a = '(bitwise-eqv%s)' % ''.join(' %d' % x for x in xs)
        elif k in (5, 6):
            f, g = c.pick([('nand', lambda x, y: ~(x & y)), ('nor', lambda x, y: ~(x | y)), ('andc1', lambda x, y: ~x & y),
                           ('andc2', lambda x, y: x & ~y), ('orc1', lambda x, y: ~x | y), ('orc2', lambda x, y: x | ~y)])
            y = i()
            a, e = '(bitwise-%s %d %d)' % (f, n, y), g(n, y)
        elif k in (7, 8):
            s = c.int(-200, 200) if c.bool(0.7) else c.pick([31, 32, 33, 63, 64, 65, -31, -32, -33, -63, -64, -65])
            a, e = '(arithmetic-shift %d %d)' % (n, s), sh(n, s)
        elif k == 9:
            a, e = '(bit-count %d)' % n, popcount(n)
        elif k == 10:
            a, e = '(integer-length %d)' % n, length(n)
        elif k == 11:
            x, y = i(), i()
            a, e = '(bitwise-if %d %d %d)' % (n, x, y), (n & x) | (~n & y)
        elif k == 12:
            a, e = '(bit-set? %d %d)' % (pos, n), bool((n >> pos) & 1)
        elif k == 13:
            b = c.bool()
            a, e = '(copy-bit %d %d %s)' % (pos, n, sx.show(b)), (n | 1 << pos) if b else n & ~(1 << pos)
        elif k == 14:
            p2 = c.int(0, width)
            b1, b2 = (n >> pos) & 1, (n >> p2) & 1
            e = n & ~(1 << pos) & ~(1 << p2)
            e |= (b2 << pos) | (b1 << p2)
            if pos == p2:
                e = n
            a = '(bit-swap %d %d %d)' % (pos, p2, n)
        elif k == 15:
            t = i()
            if c.bool():
                t = n & t
            a, e = c.pick([('(any-bit-set? %d %d)' % (t, n), (t & n) != 0), ('(every-bit-set? %d %d)' % (t, n), (t & n) == t)])
        elif k == 16:
            if c.bool(0.7):
                n = n << c.int(0, 70)
            a, e = '(first-set-bit %d)' % n, -1 if n == 0 else (n & -n).bit_length() - 1
        elif k == 17:
            a, e = '(bit-field %d %d %d)' % (n, lo, hi), (n >> lo) & mask(w)
        elif k == 18:
            if c.bool(0.3):
                n |= fm
            elif c.bool(0.3):
                n &= ~fm
            a, e = c.pick([('(bit-field-any? %d %d %d)' % (n, lo, hi), (n & fm) != 0),
                           ('(bit-field-every? %d %d %d)' % (n, lo, hi), (n & fm) == fm)])
        elif k == 19:
            a, e = c.pick([('(bit-field-clear %d %d %d)' % (n, lo, hi), n & ~fm), ('(bit-field-set %d %d %d)' % (n, lo, hi), n | fm)])
        elif k == 20:
            x = i()
            a, e = c.pick([('(bit-field-replace %d %d %d %d)' % (n, x, lo, hi), (n & ~fm) | ((x & mask(w)) << lo)),
                           ('(bit-field-replace-same %d %d %d %d)' % (n, x, lo, hi), (n & ~fm) | (x & fm))])
        elif k == 21:
            f = (n >> lo) & mask(w)
            s = c.int(-2 * w - 1, 2 * w + 1)
            t = s % w if w else 0
            r = ((f << t) | (f >> (w - t))) & mask(w) if w else 0
            a, e = '(bit-field-rotate %d %d %d %d)' % (n, s, lo, hi), (n & ~fm) | (r << lo)
        elif k == 22:
            f = (n >> lo) & mask(w)
            r = int(format(f, '0%db' % w)[::-1], 2) if w else 0
            a, e = '(bit-field-reverse %d %d %d)' % (n, lo, hi), (n & ~fm) | (r << lo)
        elif k == 23:
            n = abs(n)
            l = [bool((n >> j) & 1) for j in range(n.bit_length())]
            if c.bool():
                m = c.int(0, width)
                l = [bool((n >> j) & 1) for j in range(m)]
                f = c.bool()
                a, e = '(%s %d %d)' % ('bits->vector' if f else 'bits->list', n, m), sx.Vec(l) if f else l
            else:
                f = c.bool()
                a, e = '(%s %d)' % ('bits->vector' if f else 'bits->list', n), sx.Vec(l) if f else l
        elif k == 24:
            l = [c.bool() for _ in range(c.int(0, 80))]
            e = sum(1 << j for j, b in enumerate(l) if b)
            f = c.draw(4)
            s = ' '.join(map(sx.show, l))
            a = ["(list->bits '(%s))", '(vector->bits #(%s))', '(bits %s)', "(unfold-bits '(%s))"][f] % s
            big = len(l) > 8
        else:
            l = [bool((n >> j) & 1) for j in range(length(n))]
            f = c.draw(3)
            if f == 2:
                m = c.int(0, width)
                a, e = '(gen-bits %d %d)' % (m, n), [bool((n >> j) & 1) for j in range(m)]
            else:
                a, e = '(%s %d)' % (('fold-bits', 'each-bits')[f], n), l[::-1]
        return pbt.Case(a, expect=sx.show(e), nontrivial=big or (w > 0 and lo > 0 and 17 <= k <= 22), labels=[a.split()[0][1:].rstrip(')')])
