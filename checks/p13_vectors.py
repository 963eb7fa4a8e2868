"""Histories over vectors, bytevectors and SRFI 4 vectors against a model of arrays."""
import struct
from fractions import Fraction

import gen
import pbt
import sx
from sx import Char

TAGS = {'u8': (0, 2**8 - 1), 's8': (-2**7, 2**7 - 1), 'u16': (0, 2**16 - 1), 's16': (-2**15, 2**15 - 1), 'u32': (0, 2**32 - 1), 's32': (-2**31, 2**31 - 1),
        'u64': (0, 2**64 - 1), 's64': (-2**63, 2**63 - 1), 'f32': None, 'f64': None}


class Check(pbt.Property):
    id = 'P13'
    imports = '(import (srfi 4))\n'
    batch = 60
    quick = 600
    thorough = 40000
    rule = 'a history with a mutation, copy or append and a vector of more than one element'
    assumptions = ['overlapping copies behave as if through a temporary', 'SRFI 4 vectors are compared element by element as numbers; elements are in range of the type']

    def gen(self, c):
        k = c.draw(10)
        if k < 5:
            return self.vectors(c)
        if k < 8:
            return self.numeric(c, 'bytevector')
        return self.numeric(c, c.pick(list(TAGS)))

    def element(self, c):
        k = c.draw(6)
        if k < 3:
            return c.int(-9, 99)
        if k == 3:
            return Char(97 + c.draw(26))
        if k == 4:
            return gen.string(c, 3, True)
        return gen.integer(c, 100)

    def aliases(self, c, n, make):
        objs, binds = [], []
        for v in range(n):
            if v and c.bool(0.2):
                w = c.draw(v)
                binds.append('(v%d v%d)' % (v, w))
                objs.append(objs[w])
            else:
                code, o = make()
                binds.append('(v%d %s)' % (v, code))
                objs.append(o)
        return objs, binds

    def span(self, c, n):
        i = c.draw(n + 1)
        j = c.int(i, n)
        return c.pick([('', slice(0, n)), (' %d' % i, slice(i, n)), (' %d %d' % (i, j), slice(i, j))])

    def finish(self, binds, stmts, outs, objs, wrap, muts, label):
        code = "(let* (%s (out '())) %s (list out %s))" % (' '.join(binds), ' '.join(stmts), ' '.join('v%d' % v for v in range(len(objs))))
        return pbt.Case(code, expect=sx.show([outs[::-1]] + [wrap(o) for o in objs]), nontrivial=muts > 0 and any(len(o) > 1 for o in objs), labels=[label])

    def vectors(self, c):
        def make():
            k = c.draw(4)
            if k == 0:
                n, x = c.int(0, 6), self.element(c)
                return '(make-vector %d %s)' % (n, sx.datum(x)), [x] * n
            xs = [self.element(c) for _ in range(c.int(0, 7))]
            if k == 1:
                return "(list->vector (list %s))" % ' '.join(map(sx.datum, xs)), xs
            if k == 2:
                return "(vector-copy '#(%s))" % ' '.join(map(sx.datum, xs)), list(xs)
            return '(vector %s)' % ' '.join(map(sx.datum, xs)), xs

        nvar = c.int(1, 3)
        objs, binds = self.aliases(c, nvar, make)
        stmts, outs, muts = [], [], 0

        def record(code, value):
            stmts.append('(set! out (cons %s out))' % code)
            outs.append(value)
        V = sx.Vec
        for _ in range(c.int(1, 9)):
            v, w = c.draw(nvar), c.draw(nvar)
            s, t = objs[v], objs[w]
            n = len(s)
            name = 'v%d' % v
            rng, sl = self.span(c, n)
            k = c.draw(17)
            x = self.element(c)
            dx = sx.datum(x)
            if k in (0, 1) and n:
                q = c.draw(n)
                stmts.append('(vector-set! %s %d %s)' % (name, q, dx))
                s[q] = x
                muts += 1
            elif k == 2 and n:
                q = c.draw(n)
                record('(vector-ref %s %d)' % (name, q), s[q])
            elif k in (3, 4):
                stmts.append('(vector-fill! %s %s%s)' % (name, dx, rng))
                s[sl] = [x] * len(s[sl])
                muts += 1
            elif k in (5, 6, 7):
                r2, sl2 = self.span(c, len(t))
                src = list(t[sl2])
                if len(src) > n:
                    continue
                at = c.int(0, n - len(src))
                stmts.append('(vector-copy! %s %d v%d%s)' % (name, at, w, r2))
                s[at:at + len(src)] = src
                muts += 1
            elif k == 8:
                # the copy is fresh
                part = list(s[sl])
                if part:
                    q = c.draw(len(part))
                    record('(let ((t (vector-copy %s%s))) (vector-set! t %d %s) t)' % (name, rng, q, dx), V(part[:q] + [x] + part[q + 1:]))
                else:
                    record('(vector-copy %s%s)' % (name, rng), V(part))
                muts += 1
            elif k == 9:
                ws = [c.draw(nvar) for _ in range(c.int(0, 3))]
                all_ = sum((objs[q] for q in ws), [])
                if all_ and c.bool():
                    q = c.draw(len(all_))
                    record('(let ((t (vector-append %s))) (vector-set! t %d %s) t)' % (' '.join('v%d' % z for z in ws), q, dx), V(all_[:q] + [x] + all_[q + 1:]))
                else:
                    record('(vector-append %s)' % ' '.join('v%d' % z for z in ws), V(all_))
                muts += 1
            elif k == 10:
                record('(vector->list %s%s)' % (name, rng), list(s[sl]))
            elif k == 11:
                record('(list->vector (reverse (vector->list %s%s)))' % (name, rng), V(s[sl][::-1]))
            elif k == 12:
                r = c.draw(3)
                if r == 0:
                    record('(vector-map (lambda (a b) (list b a)) %s v%d)' % (name, w), V([b, a] for a, b in zip(s, t)))
                elif r == 1:
                    record('(vector-map list %s)' % name, V([a] for a in s))
                else:
                    record("(vector-map (lambda (a b d) (cons d b)) %s v%d '#(1 2 3))" % (name, w), V(sx.cons(d, b) for a, b, d in zip(s, t, [1, 2, 3])))
            elif k == 13:
                record("(let ((o '())) (vector-for-each (lambda (a b) (set! o (cons a (cons b o)))) %s v%d) o)" % (name, w), [z for a, b in reversed(list(zip(s, t))) for z in (a, b)])
            elif k == 14:
                record('(vector-length %s)' % name, n)
            elif k == 15:
                record('(list (eq? %s %s) (eq? %s v%d) (equal? %s v%d) (equal? %s (vector-copy %s)) (vector? %s))' % (name, name, name, w, name, w, name, name, name),
                       [True, s is t, s is t or (len(s) == len(t) and all(type(a) == type(b) and a == b for a, b in zip(s, t))), True, True])
            else:
                # strings
                cs = [Char(97 + c.draw(4)) for _ in range(c.int(0, 5))]
                r3, sl3 = self.span(c, len(cs))
                record("(vector->string (vector %s)%s)" % (' '.join(map(sx.datum, cs)), r3), ''.join(chr(q.cp) for q in cs[sl3]))
        return self.finish(binds, stmts, outs, objs, lambda o: V(o), muts, 'vector')

    def number(self, c, tag):
        if tag == 'f64':
            return gen.flonum(c, True)
        if tag == 'f32':
            k = c.draw(3)
            if k == 0:
                return float(c.int(-1000, 1000)) / 2**c.int(0, 6)
            x = struct.unpack('f', struct.pack('I', c.draw(2**32)))[0]
            return x if x == x and abs(x) != float('inf') else 0.5
        lo, hi = TAGS[tag]
        k = c.draw(4)
        if k == 0:
            return c.pick([lo, hi, lo + 1, hi - 1, max(lo, 0)])
        if k == 1:
            return c.int(max(lo, -5), min(hi, 5))
        return c.int(lo, hi)

    def numeric(self, c, kind):
        """bytevector operations of R7RS, or a SRFI 4 type."""
        byte = kind == 'bytevector'
        tag = 'u8' if byte else kind
        P = 'bytevector' if byte else tag + 'vector'
        REF, SET = ('bytevector-u8-ref', 'bytevector-u8-set!') if byte else (P + '-ref', P + '-set!')
        flo = tag[0] == 'f'

        # a single is compared as the exact number it holds
        TOLIST = '(map exact (%s->list %s))' if tag == 'f32' else '(%s->list %s)'

        def val(x):
            return gen.norm(Fraction(x)) if tag == 'f32' else x

        def d(x):
            return sx.flo(x) if flo else str(x)

        def given(x):
            """What can be stored to get x."""
            if flo and x == int(x) and abs(x) < 2**50 and (x or str(x)[0] != '-') and c.bool(0.3):
                return str(int(x))
            return d(x)

        def wrap(o):
            return bytes(o) if byte else list(o)

        def make():
            k = c.draw(4)
            if k == 0:
                n, x = c.int(0, 6), self.number(c, tag)
                return '(make-%s %d %s)' % (P, n, given(x)), [x] * n
            xs = [self.number(c, tag) for _ in range(c.int(0, 7))]
            if k == 1 and not byte:
                return "(list->%s (list %s))" % (P, ' '.join(map(given, xs))), xs
            if k == 2 and byte:
                return '(bytevector-copy #u8(%s))' % ' '.join(map(d, xs)), xs
            if k == 3 and not byte:
                return '(make-%s %d)' % (P, len(xs)), [0.0 if flo else 0] * len(xs)
            return '(%s %s)' % (P, ' '.join(map(given, xs))), xs

        nvar = c.int(1, 3)
        objs, binds = self.aliases(c, nvar, make)
        stmts, outs, muts = [], [], 0

        def record(code, value):
            stmts.append('(set! out (cons %s out))' % code)
            outs.append(value)
        for _ in range(c.int(1, 9)):
            v, w = c.draw(nvar), c.draw(nvar)
            s, t = objs[v], objs[w]
            n = len(s)
            name = 'v%d' % v
            rng, sl = self.span(c, n)
            k = c.draw(12)
            x = self.number(c, tag)
            if k in (0, 1) and n:
                q = c.draw(n)
                stmts.append('(%s %s %d %s)' % (SET, name, q, given(x)))
                s[q] = x
                muts += 1
            elif k == 2 and n:
                q = c.draw(n)
                record(('(exact (%s %s %d))' if tag == 'f32' else '(%s %s %d)') % (REF, name, q), val(s[q]))
                if not flo:
                    record('(eqv? (%s %s %d) %d)' % (REF, name, q, s[q]), True)
            elif k == 3:
                record('(%s-length %s)' % (P, name), n)
            elif k in (4, 5, 6) and byte:
                r2, sl2 = self.span(c, len(t))
                src = list(t[sl2])
                if len(src) > n:
                    continue
                at = c.int(0, n - len(src))
                stmts.append('(bytevector-copy! %s %d v%d%s)' % (name, at, w, r2))
                s[at:at + len(src)] = src
                muts += 1
            elif k == 7 and byte:
                part = list(s[sl])
                if part:
                    q = c.draw(len(part))
                    record('(let ((t (bytevector-copy %s%s))) (bytevector-u8-set! t %d %d) t)' % (name, rng, q, x), bytes(part[:q] + [x] + part[q + 1:]))
                else:
                    record('(bytevector-copy %s%s)' % (name, rng), b'')
                muts += 1
            elif k == 8 and byte:
                ws = [c.draw(nvar) for _ in range(c.int(0, 4))]
                record('(bytevector-append %s)' % ' '.join('v%d' % z for z in ws), bytes(sum((objs[q] for q in ws), [])))
                muts += 1
            elif k == 9 and not byte:
                record(TOLIST % (P, name), list(map(val, s)))
            elif k == 10 and not byte:
                record('(list (%s? %s) (%svector? %s) (vector? %s))' % (P, name, 'u16' if tag != 'u16' else 's16', name, name), [True, False, False])
            elif k == 11 and not flo:
                record('(list (equal? %s v%d) (eq? %s %s))' % (name, w, name, name), [s == t, True])
        if byte:
            return self.finish(binds, stmts, outs, objs, bytes, muts, 'bytevector')
        code = "(let* (%s (out '())) %s (list out %s))" % (' '.join(binds), ' '.join(stmts), ' '.join(TOLIST % (P, 'v%d' % v) for v in range(nvar)))
        return pbt.Case(code, expect=sx.show([outs[::-1]] + [list(map(val, o)) for o in objs]), nontrivial=muts > 0 and any(len(o) > 1 for o in objs), labels=[tag + 'vector'])
