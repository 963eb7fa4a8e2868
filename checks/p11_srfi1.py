"""SRFI 1 calls against a Python model of the SRFI text."""
import functools

import gen
import pbt
import sx
from sx import Sym as S, Dot

P1 = [('odd?', lambda x: x % 2 == 1), ('even?', lambda x: x % 2 == 0), ('negative?', lambda x: x < 0), ('zero?', lambda x: x == 0),
      ('(lambda (x) (< x 3))', lambda x: x < 3), ('(lambda (x) #t)', lambda x: True), ('(lambda (x) #f)', lambda x: False),
      ('(lambda (x) (= 1 (modulo x 3)))', lambda x: x % 3 == 1)]
# partial answers: any value counts as true
F1 = [('(lambda (x) (if (odd? x) (* x 10) #f))', lambda x: x * 10 if x % 2 else False),
      ('(lambda (x) (and (< x 2) (list x)))', lambda x: [x] if x < 2 else False), ('(lambda (x) x)', lambda x: x)]
G1 = [('-', lambda x: -x), ('list', lambda x: [x]), ('(lambda (x) (* x x))', lambda x: x * x)]
G2 = [('+', lambda x, y: x + y), ('list', lambda x, y: [x, y]), ('cons', lambda x, y: sx.cons(x, y)), ('-', lambda x, y: x - y)]
P2 = [('=', lambda x, y: x == y), ('<', lambda x, y: x < y), ('(lambda (x y) (= (+ x 1) y))', lambda x, y: x + 1 == y),
      ('(lambda (x y) (odd? (+ x y)))', lambda x, y: (x + y) % 2 == 1)]
EQ = [('=', lambda x, y: x == y), ('eqv?', lambda x, y: x == y), ('equal?', lambda x, y: x == y), ('(lambda (x y) (= (modulo x 3) (modulo y 3)))', lambda x, y: x % 3 == y % 3),
      ('(lambda (x y) (= (abs x) (abs y)))', lambda x, y: abs(x) == abs(y))]
A = "(lambda (x acc) (list x acc))", lambda x, acc: [x, acc]
FOLD1 = [('cons', lambda x, acc: sx.cons(x, acc)), A, ('+', lambda x, acc: x + acc), ('-', lambda x, acc: x - acc)]


class Check(pbt.Property):
    id = 'P11'
    imports = '(import (except (srfi 1) for-each))\n'
    prelude = '''
(define (values->list thunk) (call-with-values thunk list))
(define-syntax vals (syntax-rules () ((_ e) (values->list (lambda () e)))))
(define (sorted xs)
  (let loop ((xs xs) (out '()))
    (if (null? xs) out
        (loop (cdr xs)
              (let ins ((o out)) (cond ((null? o) (list (car xs))) ((<= (car xs) (car o)) (cons (car xs) o)) (else (cons (car o) (ins (cdr o))))))))))
(define (limit c n) (if (= n 0) '() (cons (car c) (limit (cdr c) (- n 1)))))
'''
    batch = 60
    quick = 1000
    thorough = 40000
    rule = 'at least one list argument of two or more elements, or a constructor with a count above one'
    assumptions = ['the order of elements of lset-union, lset-adjoin and lset-xor is not specified: compared as sets', 'predicates of set operations are equivalences']

    def lst(self, c, lo=0, hi=7):
        return [c.int(-4, 6) for _ in range(c.int(lo, hi))]

    def gen(self, c):
        xs, ys, zs = self.lst(c), self.lst(c), self.lst(c)
        k = c.draw(60)
        code, v = self.case(c, k, xs, ys, zs)
        # arguments are not changed
        return pbt.Case('(let ((xs (list %s)) (ys (list %s)) (zs (list %s))) (let ((r %s)) (list r xs ys zs)))' % (
            ' '.join(map(str, xs)), ' '.join(map(str, ys)), ' '.join(map(str, zs)), code),
            expect=sx.show([v, xs, ys, zs]), nontrivial=len(xs) > 1, labels=[code.strip('(').split()[0]])

    def case(self, c, k, xs, ys, zs):
        n = len(xs)
        p, f = c.pick(P1)
        i = c.draw(n + 1)
        if k == 0:
            return '(list (xcons 1 2) (cons* 1 2 xs) (cons* xs))', [Dot([2], 1), [1, 2] + xs, xs]
        if k == 1:
            m = c.int(0, 6)
            g, h = c.pick(G1)
            return '(list-tabulate %d %s)' % (m, g), [h(j) for j in range(m)]
        if k == 2:
            m, a, s = c.int(0, 6), c.int(-5, 5), c.int(-3, 3)
            j = c.draw(3)
            if j == 0:
                return '(iota %d)' % m, list(range(m))
            if j == 1:
                return '(iota %d %d)' % (m, a), [a + q for q in range(m)]
            return '(iota %d %d %d)' % (m, a, s), [a + s * q for q in range(m)]
        if k == 3:
            if not xs:
                return '(make-list 3 7)', [7] * 3
            m = c.int(0, 12)
            return '(limit (apply circular-list xs) %d)' % m, [xs[j % n] for j in range(m)]
        if k == 4:
            t = c.pick(["xs", "'()", "(append xs 5)", "(if (pair? xs) (apply circular-list xs) (circular-list 1))", "7"])
            proper = t in ("xs", "'()") or False
            circ = 'circular' in t
            dotted = t == '7' or t.startswith('(append')
            return '(let ((t %s)) (list (proper-list? t) (circular-list? t) (dotted-list? t) (not-pair? t)))' % t, \
                [proper, circ, dotted, t in ("'()", '7') or (not circ and not xs)]
        if k == 5:
            e, g = c.pick(EQ)
            if c.bool():
                w = [xs] * c.int(1, 3)
                return '(list= %s %s)' % (e, ' '.join(['xs'] * len(w))), True
            a = list(xs)
            if a and c.bool():
                a[c.draw(n)] = c.int(-4, 6)
            elif a:
                a = a[:-1]
            r = len(a) == n and all(g(q, w) for q, w in zip(xs, a))
            return "(list= %s xs '%s)" % (e, sx.datum(a)), r
        if k == 6:
            names = 'first second third fourth fifth sixth seventh eighth ninth tenth'.split()
            j = c.draw(10)
            return "(%s (append xs '(20 21 22 23 24 25 26 27 28 29)))" % names[j], (xs + list(range(20, 30)))[j]
        if k == 7:
            return '(list (take xs %d) (drop xs %d))' % (i, i), [xs[:i], xs[i:]]
        if k == 8:
            return '(list (take-right xs %d) (drop-right xs %d))' % (i, i), [xs[n - i:], xs[:n - i]]
        if k == 9:
            return '(vals (split-at%s %d))' % (c.pick([' xs', '! (list-copy xs)']), i), [xs[:i], xs[i:]]
        if k == 10:
            return '(list (take! (list-copy xs) %d) (drop-right! (list-copy xs) %d))' % (i, i), [xs[:i], xs[:n - i]]
        if k == 11:
            if not xs:
                return '(last-pair (list 1))', [1]
            return '(list (last xs) (last-pair xs) (vals (car+cdr xs)))', [xs[-1], xs[-1:], [xs[0], xs[1:]]]
        if k == 12:
            return '(list (length+ xs) (length+ (circular-list 1 2)) (null-list? xs))', [n, False, n == 0]
        if k == 13:
            nm = c.pick(['concatenate', 'concatenate!'])
            return '(%s (list (list-copy xs) (list-copy ys) (list-copy zs)))' % nm, xs + ys + zs
        if k == 14:
            return '(list (append-reverse xs ys) (append-reverse! (list-copy xs) ys) (append-reverse xs 3) (reverse! (list-copy xs)) (append! (list-copy xs) (list-copy ys) zs))', \
                [xs[::-1] + ys, xs[::-1] + ys, sx.Dot(xs[::-1], 3) if xs else 3, xs[::-1], xs + ys + zs]
        if k == 15:
            return '(list (zip xs ys) (zip xs ys zs) (zip xs))', [[list(t) for t in zip(xs, ys)], [list(t) for t in zip(xs, ys, zs)], [[x] for x in xs]]
        if k == 16:
            w = c.int(1, 5)
            rows = [[c.int(0, 9) for _ in range(w)] for _ in range(c.int(0, 4))]
            e = [[r[j] for r in rows] for j in range(w)]
            if w == 1:
                return "(unzip1 '%s)" % sx.datum(rows), e[0]
            return "(vals (unzip%d '%s))" % (w, sx.datum(rows)), e
        if k == 17:
            if c.bool():
                return '(count %s xs)' % p, sum(1 for x in xs if f(x))
            q, g = c.pick(P2)
            return '(count %s xs ys)' % q, sum(1 for x, y in zip(xs, ys) if g(x, y))
        if k in (18, 19):
            q, g = c.pick(FOLD1)
            right = k == 19
            init = 0 if q in '+-' else []
            acc = init
            for x in (xs[::-1] if right else xs):
                acc = g(x, acc)
            return "(fold%s %s %s xs)" % ('-right' if right else '', q, sx.lit(init)), acc
        if k in (20, 21):
            right = k == 21
            acc = []
            z = list(zip(xs, ys))
            for x, y in (z[::-1] if right else z):
                acc = [x, y, acc]
            return "(fold%s list '() xs ys)" % ('-right' if right else ''), acc
        if k == 22:
            acc = []
            for j in range(n):
                acc = sx.cons(xs[j:], acc)
            return "(pair-fold cons '() xs)", acc
        if k == 23:
            acc = []
            for j in reversed(range(n)):
                acc = sx.cons(xs[j:], acc)
            return "(pair-fold-right cons '() xs)", acc
        if k == 24:
            m = min(n, len(ys))
            acc = []
            for j in range(m):
                acc = [xs[j:], ys[j:], acc]
            return "(pair-fold (lambda (a b acc) (list a b acc)) '() xs ys)", acc
        if k == 25:
            q, g = c.pick([('+', lambda x, a: x + a), ('-', lambda x, a: x - a), ('max', max), ('list', lambda x, a: [x, a])])
            if not xs:
                return '(reduce %s 99 xs)' % q, 99
            acc = xs[0]
            for x in xs[1:]:
                acc = g(x, acc)
            return '(reduce %s 99 xs)' % q, acc
        if k == 26:
            q, g = c.pick([('+', lambda x, a: x + a), ('-', lambda x, a: x - a), ('list', lambda x, a: [x, a])])
            if not xs:
                return '(reduce-right %s 99 xs)' % q, 99
            acc = xs[-1]
            for x in reversed(xs[:-1]):
                acc = g(x, acc)
            return '(reduce-right %s 99 xs)' % q, acc
        if k == 27:
            m = c.int(0, 6)
            s, t = c.int(-3, 3), c.pick(['', " (lambda (s) (list 'tail s))"])
            tail = [S('tail'), s + m] if t else []
            return "(unfold (lambda (s) (= s %d)) (lambda (s) (* s s)) (lambda (s) (+ s 1)) %d%s)" % (s + m, s, t), [(s + j) ** 2 for j in range(m)] + tail
        if k == 28:
            m = c.int(0, 6)
            s = c.int(-3, 3)
            tail = c.pick([None, [8, 9]])
            return "(unfold-right (lambda (s) (= s %d)) (lambda (s) (* s s)) (lambda (s) (+ s 1)) %d%s)" % (s + m, s, " '(8 9)" if tail else ''), \
                [(s + j) ** 2 for j in range(m)][::-1] + (tail or [])
        if k == 29:
            nm = c.pick(['append-map', 'append-map!'])
            if c.bool():
                return '(%s (lambda (x) (list x (- x))) xs)' % nm, [w for x in xs for w in (x, -x)]
            return '(%s (lambda (x y) (if (< x y) (list x y) (list))) xs ys)' % nm, [w for x, y in zip(xs, ys) if x < y for w in (x, y)]
        if k == 30:
            q, g = c.pick(F1)
            if c.bool():
                r = [g(x) for x in xs]
                return '(filter-map %s xs)' % q, [x for x in r if x is not False]
            return '(filter-map (lambda (x y) (and (< x y) (- y x))) xs ys)', [y - x for x, y in zip(xs, ys) if x < y]
        if k == 31:
            q, g = c.pick(G1)
            return "(let ((log '())) (let ((r (map-in-order (lambda (x) (set! log (cons x log)) (%s x)) xs))) (list r log)))" % q, [[g(x) for x in xs], xs[::-1]]
        if k == 32:
            return "(let ((log '())) (pair-for-each (lambda (p) (set! log (cons p log))) xs) log)", [xs[j:] for j in reversed(range(n))]
        if k == 33:
            q, g = c.pick(G1)
            q2, g2 = c.pick(G2)
            return '(list (map! %s (list-copy xs)) (map %s xs ys) (map! %s (list-copy xs) (append ys xs)))' % (q, q2, q2), \
                [[g(x) for x in xs], [g2(x, y) for x, y in zip(xs, ys)], [g2(x, y) for x, y in zip(xs, ys + xs)]]
        if k in (34, 35):
            b = c.pick(['', '!'])
            l = 'xs' if not b else '(list-copy xs)'
            return '(list (filter%s %s %s) (remove%s %s %s) (vals (partition%s %s %s)))' % (b, p, l, b, p, l, b, p, l), \
                [[x for x in xs if f(x)], [x for x in xs if not f(x)], [[x for x in xs if f(x)], [x for x in xs if not f(x)]]]
        if k == 36:
            j = next((j for j in range(n) if f(xs[j])), None)
            return '(list (find %s xs) (find-tail %s xs))' % (p, p), [False, False] if j is None else [xs[j], xs[j:]]
        if k in (37, 38):
            q, g = c.pick(F1 + P1)
            nm = c.pick(['any', 'every'])
            r = False if nm == 'any' else True
            for x in xs:
                r = g(x)
                if (r is not False) == (nm == 'any'):
                    break
            return '(%s %s xs)' % (nm, q), r
        if k in (39, 40):
            nm = c.pick(['any', 'every'])
            r = False if nm == 'any' else True
            for x, y in zip(xs, ys):
                r = x + y if x < y else False
                if (r is not False) == (nm == 'any'):
                    break
            return '(%s (lambda (x y) (and (< x y) (+ x y))) xs ys)' % nm, r
        if k == 41:
            if c.bool():
                return '(list-index %s xs)' % p, next((j for j in range(n) if f(xs[j])), False)
            q, g = c.pick(P2)
            return '(list-index %s xs ys)' % q, next((j for j, (x, y) in enumerate(zip(xs, ys)) if g(x, y)), False)
        if k in (42, 43):
            j = next((j for j in range(n) if not f(xs[j])), n)
            b = c.pick(['', '!'])
            l = 'xs' if not b else '(list-copy xs)'
            return '(list (take-while%s %s %s) (drop-while %s xs) (vals (span%s %s %s)))' % (b, p, l, p, b, p, l), [xs[:j], xs[j:], [xs[:j], xs[j:]]]
        if k == 44:
            j = next((j for j in range(n) if f(xs[j])), n)
            b = c.pick(['', '!'])
            l = 'xs' if not b else '(list-copy xs)'
            return '(vals (break%s %s %s))' % (b, p, l), [xs[:j], xs[j:]]
        if k in (45, 46):
            x = c.int(-4, 6)
            b = c.pick(['', '!'])
            l = 'xs' if not b else '(list-copy xs)'
            if c.bool():
                return '(delete%s %d %s)' % (b, x, l), [y for y in xs if y != x]
            q, g = c.pick(P2)
            return '(delete%s %d %s %s)' % (b, x, l, q), [y for y in xs if not g(x, y)]
        if k in (47, 48):
            b = c.pick(['', '!'])
            l = 'xs' if not b else '(list-copy xs)'
            e, g = c.pick([('', lambda a, b: a == b)] + EQ)
            out = []
            for x in xs:
                if not any(g(y, x) for y in out):
                    out.append(x)
            return '(delete-duplicates%s %s %s)' % (b, l, e), out
        al = [Dot([q], j) for j, q in enumerate(xs)]
        if k == 49:
            return "(let* ((a (map cons xs (iota %d))) (b (alist-copy a))) (list (equal? a b) (or (null? a) (not (eq? (car a) (car b)))) (alist-cons 1 2 a)))" % n, [True, True, [Dot([1], 2)] + al]
        if k == 50:
            x = c.int(-4, 6)
            b = c.pick(['', '!'])
            if c.bool():
                return '(alist-delete%s %d (map cons xs (iota %d)))' % (b, x, n), [a for a in al if a.items[0] != x]
            q, g = c.pick(P2)
            return '(alist-delete%s %d (map cons xs (iota %d)) %s)' % (b, x, n, q), [a for a in al if not g(x, a.items[0])]
        # sets
        e, g = c.pick(EQ)
        mem = lambda x, l: any(g(x, y) for y in l)

        def uniq(l):
            out = []
            for x in l:
                if not mem(x, out):
                    out.append(x)
            return out
        if k == 51:
            if c.bool():
                sub = [x for x in xs if c.bool()]
                return "(lset<= %s '%s xs)" % (e, sx.datum(sub)), True
            return '(list (lset<= %s xs ys) (lset<= %s xs ys zs) (lset<= %s xs) (lset<= %s))' % (e, e, e, e), \
                [all(mem(x, ys) for x in xs), all(mem(x, ys) for x in xs) and all(mem(y, zs) for y in ys), True, True]
        if k == 52:
            if c.bool():
                return "(lset= %s xs (reverse xs))" % e, True
            return '(list (lset= %s xs ys) (lset= %s xs xs ys))' % (e, e), [all(mem(x, ys) for x in xs) and all(mem(y, xs) for y in ys)] * 2
        if k == 53:
            # representatives may differ: compare classes
            out = list(xs)
            for y in ys:
                if not mem(y, out):
                    out.append(y)
            return "(sorted (apply lset-adjoin %s xs ys))" % e, sorted(out)
        if k in (54, 55):
            b = c.pick(['', '!'])
            u = uniq(xs)
            v = uniq(ys)
            out = list(u)
            for y in v:
                if not mem(y, out):
                    out.append(y)
            return "(sorted (lset-union%s %s (list-copy (delete-duplicates xs %s)) (list-copy (delete-duplicates ys %s))))" % (b, e, e, e), sorted(out)
        b = c.pick(['', '!'])
        l = 'xs' if not b else '(list-copy xs)'
        if k == 56:
            return '(list (lset-intersection%s %s %s ys) (lset-intersection%s %s %s ys zs))' % (b, e, l, b, e, l), \
                [[x for x in xs if mem(x, ys)], [x for x in xs if mem(x, ys) and mem(x, zs)]]
        if k == 57:
            return '(list (lset-difference%s %s %s ys) (lset-difference%s %s %s ys zs))' % (b, e, l, b, e, l), \
                [[x for x in xs if not mem(x, ys)], [x for x in xs if not mem(x, ys) and not mem(x, zs)]]
        if k == 58:
            u, v = uniq(xs), uniq(ys)
            return '(sorted (lset-xor%s %s (list-copy (delete-duplicates xs %s)) (list-copy (delete-duplicates ys %s))))' % (b, e, e, e), \
                sorted([x for x in u if not mem(x, v)] + [y for y in v if not mem(y, u)])
        return '(vals (lset-diff+intersection%s %s %s ys))' % (b, e, l), [[x for x in xs if not mem(x, ys)], [x for x in xs if mem(x, ys)]]
