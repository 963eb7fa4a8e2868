"""Loops of tail calls: the right result, in memory that does not grow with the number of iterations."""
import pbt


class Check(pbt.Property):
    id = 'P16'
    program = True
    timeout = 60.0
    quick = 110
    thorough = 6000
    rule = 'every procedure of the loop calls the next through at least two nested tail contexts'
    assumptions = ['leaks of less than about 40 bytes per iteration may pass (the bound is 5 MB above an empty program, for at least 100000 iterations)']
    N = 100000

    def expr(self, c, i):
        """(text of an int expression of n and acc, python function)."""
        a, b, m = c.int(0, 9), c.int(0, 9), c.pick([1009, 97, 65537])
        return '(modulo (+ (* acc %d) n %d) %d)' % (a, b, m), lambda n, acc: (acc * a + n + b) % m

    def call(self, c, nf):
        """A call of the next procedure: text and how it is chosen."""
        acc, pacc = self.expr(c, 0)
        k = c.draw(6)
        j = c.draw(nf)
        if k < 3:
            return '(f%d (- n 1) %s)' % (j, acc), lambda n, x: j, pacc
        if k == 3:
            return '((vector-ref fs (modulo acc %d)) (- n 1) %s)' % (nf, acc), lambda n, x: x % nf, pacc
        if k == 4:
            return '(apply f%d (- n 1) (list %s))' % (j, acc), lambda n, x: j, pacc
        l = c.draw(nf)
        return '((if (odd? n) f%d f%d) (- n 1) %s)' % (j, l, acc), lambda n, x: j if n % 2 else l, pacc

    def wrap(self, c, t):
        """t in tail position of another form; the other branches are never taken or of no effect."""
        k = c.draw(40)
        self.used.add(k)
        d = self.depth
        self.depth += 1
        v = 'v%d' % d
        # where a sequence may stand, up to three expressions come before
        s = ''.join(c.pick(['1 ', 'n ', '(set! junk n) ', '(if (< n 0) (set! junk 1)) ', '(values) ', '(begin 1 2) ']) for _ in range(c.pick([0, 0, 1, 2, 3]))) + t
        forms = [
            lambda: '(if #t %s 0)' % t, lambda: '(if (< n 0) 0 %s)' % t, lambda: '(if (>= n 0) %s)' % t,
            lambda: '(cond ((< n 0) 0) (else %s))' % s, lambda: '(cond ((>= n 0) 5 %s))' % s, lambda: '(cond ((< n 0)) ((+ n 0) => (lambda (%s) %s)) (else 1))' % (v, s),
            lambda: '(case (modulo n 3) ((0 1) %s) (else %s))' % (s, t) if len(t) < 300 else '(case n ((a b) 0) (else %s))' % s,
            lambda: '(case n ((a b) 0) (else => (lambda (%s) %s)))' % (v, s), lambda: '(case (odd? n) ((#t #f) 1 %s))' % s,
            lambda: '(and #t n%s %s)' % (c.draw(3) * ' 1', t), lambda: '(or #f (< n 0)%s %s)' % (c.draw(3) * ' #f', t), lambda: '(and %s)' % t, lambda: '(or %s)' % t,
            lambda: '(when (>= n 0) 1 %s)' % s, lambda: '(unless (< n 0) %s)' % s,
            lambda: '(let () %s)' % s, lambda: '(let ((%s n)) %s)' % (v, s), lambda: '(let* ((%s n) (w (+ %s 1))) 1 %s)' % (v, v, s), lambda: '(let* () %s)' % s,
            lambda: '(letrec ((%s (lambda () %s))) %s)' % (v, v, s), lambda: '(letrec* ((%s 1) (w %s)) %s)' % (v, v, s),
            lambda: '(let ((w 1)) (define (%s) n) (define u 1) %s)' % (v, s),
            lambda: '(let-values (((%s w) (values n 1)) (u (values))) %s)' % (v, s), lambda: '(let*-values (((%s . w) (values n 1 2))) %s)' % (v, s),
            lambda: '(do ((%s 0 (+ %s 1))) ((= %s 2) 1 %s))' % (v, v, v, s),
            lambda: '(begin 1 %s)' % s, lambda: '(begin (set! junk n) %s)' % s,
            lambda: '(apply (lambda () %s) (list))' % s, lambda: '(apply (lambda (%s . w) %s) n (list 1 2))' % (v, s),
            lambda: '(call/cc (lambda (%s) %s))' % (v, s), lambda: '(call-with-current-continuation (lambda (%s) (set! junk %s) %s))' % (v, v, t),
            lambda: '(call-with-values (lambda () (values n 1)) (lambda (%s w) %s))' % (v, s), lambda: '(call-with-values (lambda () n) (lambda (%s) %s))' % (v, s),
            lambda: '((lambda (%s) %s) n)' % (v, s), lambda: '((lambda %s %s) 1 2)' % (v, s), lambda: '((case-lambda ((a b c) 0) ((%s) %s)) n)' % (v, s),
            lambda: '(let loop ((%s 2)) (if (= %s 0) %s (loop (- %s 1))))' % (v, v, t, v),
            lambda: '(my-if (>= n 0) %s 0)' % t, lambda: '(my-or #f %s)' % t, lambda: '(receive (%s . w) (values n 1) %s)' % (v, s),
        ]
        assert len(forms) == 40, len(forms)
        return forms[k]()

    def gen(self, c):
        nf = c.int(1, 3)
        n = self.N + c.draw(10) * 1000
        self.used = set()
        fs, steps = [], []
        least = 99
        for i in range(nf):
            t, choose, acc = self.call(c, nf)
            self.depth = 0
            k = c.int(0, 5)
            least = min(least, k)
            for _ in range(k):
                t = self.wrap(c, t)
            body = c.pick(['(if (= n 0) acc %s)', '(cond ((= n 0) acc) (else %s))', '(if (> n 0) %s acc)']) % t
            fs.append(c.pick(['(define (f%d n acc) %s)', '(define f%d (lambda (n acc) %s))', '(define f%d (let ((u 0)) (lambda (n acc) %s)))']) % (i, body))
            steps.append((choose, acc))
        x, f, m = 1, 0, n
        while m > 0:
            choose, acc = steps[f]
            f, x, m = choose(m, x), acc(m, x), m - 1
        code = '''(import (scheme base) (scheme write) (scheme case-lambda) (only (srfi 8) receive))
(define junk 0)
(define-syntax my-if (syntax-rules () ((_ a b c) (cond (a b) (else c)))))
(define-syntax my-or (syntax-rules () ((_ a) a) ((_ a b ...) (let ((x a)) (if x x (my-or b ...))))))
%s
(define fs (vector %s))
(write (f0 %d 1))
''' % ('\n'.join(fs), ' '.join('f%d' % i for i in range(nf)), n)
        case = pbt.Case(code, str(x), nontrivial=least >= 2, labels=['form %d' % k for k in self.used])
        return case

    base = None

    def run_program(self, srv, case):
        if self.base is None:
            self.base = srv.run('(import (scheme base) (scheme write)) (define-syntax my (syntax-rules () ((_ a) a))) (define (f n acc) (if (= n 0) acc (f (- n 1) (my acc)))) (write (f 30000 1))', timeout=60).rss
        r = srv.run(case.code, timeout=self.timeout, as_mb=self.base // 1024 + 1500)
        m = self.judge_result(case, r)
        if m is None and r.rss > self.base + 5000:
            return 'memory grew by %d KB in a loop of tail calls' % (r.rss - self.base)
        return m
