"""Promises, differential against the reference interpreter; chains of delay-force in bounded memory."""
import ctlgen
import pbt
import ref
import sx
from sx import Sym as S
from ctlgen import app, lam


class Gen:
    def __init__(self, c, n):
        self.c, self.n, self.k, self.fuel = c, n, 0, 50
        self.features = set()

    def log(self):
        self.k += 1
        return app('out', self.k)

    def e(self, d):
        c = self.c
        self.fuel -= 1
        k = c.draw(12) if d > 0 and self.fuel > 0 else 0
        if k == 0:
            return c.pick([c.int(0, 9), S('x'), S('y')])
        if k < 5:
            return app('force', self.p(d - 1))
        if k == 5:
            return app('begin', self.log(), self.e(d - 1))
        if k == 6:
            v = c.pick(['x', 'y'])
            return app('begin', app('set!', S(v), app('+', S(v), self.e(d - 1))), S(v))
        if k == 7:
            return app('+', c.int(0, 3), self.e(d - 1))
        if k == 8:
            self.features.add('reentrant')
            # forces a promise of the program from inside promises, boundedly often
            return app('if', app('<', 0, S('fuel')), app('begin', app('set!', S('fuel'), app('-', S('fuel'), 1)), app('force', S('q%d' % c.draw(self.n)))), self.e(d - 1))
        if k == 9:
            return app('let', [[S('v'), self.e(d - 1)]], app('out', S('v')), self.e(d - 1))
        if k == 10:
            return app('if', app('odd?', self.e(d - 1)), self.e(d - 1), self.e(d - 1))
        return app('begin', app('out', app('promise?', self.p(d - 1))), self.e(d - 1))

    def p(self, d):
        c = self.c
        self.fuel -= 1
        k = c.draw(12) if d > 0 and self.fuel > 0 else c.draw(2)
        if k == 0:
            return S('q%d' % c.draw(self.n))
        if k == 1:
            return app('make-promise', c.int(0, 9))
        if k < 5:
            return app('delay', app('begin', self.log(), self.e(d - 1)))
        if k < 8:
            self.features.add('delay-force')
            return app('delay-force', app('begin', self.log(), self.p(d - 1)) if c.bool() else self.p(d - 1))
        if k == 8:
            self.features.add('make-promise')
            return app('make-promise', self.p(d - 1) if c.bool() else self.e(d - 1))
        if k == 9:
            return app('delay', app('let*', [[S('v'), self.e(d - 1)]], app('out', S('v')), self.e(d - 1)))
        if k == 10:
            return app('let', [[S('r'), self.p(d - 1)]], app('out', app('force', S('r'))), S('r'))
        return app('if', app('even?', self.e(d - 1)), self.p(d - 1), self.p(d - 1))


class Check(pbt.Property):
    id = 'P26'
    program = True
    timeout = 60.0
    quick = 1800
    thorough = 200000
    rule = 'the program has promises that refer to each other through delay-force, make-promise or re-entrant forcing, or is a long chain'
    assumptions = ['the reference interpreter lib/ref.py (the promise algorithm of R7RS)']

    SPACE = [
        '(define (stream-loop n) (if (= n 0) (delay %(v)d) (delay-force (stream-loop (- n 1))))) (write (force (stream-loop %(n)d)))',
        '(define (lp n) (delay-force (if (= n 0) (delay %(v)d) (lp (- n 1))))) (define p (lp %(n)d)) (write (force p)) (write (force p))',
        '''(define (from n) (delay (cons n (from (+ n 1)))))
(define (filter p? s) (delay-force (let* ((a (force s)) (h (car a)) (t (cdr a))) (if (p? h) (delay (cons h (filter p? t))) (filter p? t)))))
(write (- (car (force (filter (lambda (x) (<= %(n)d x)) (from 0)))) %(n)d))''',
        '(define (od? n) (delay-force (if (= n 0) (make-promise #f) (ev? (- n 1))))) (define (ev? n) (delay-force (if (= n 0) (make-promise #t) (od? (- n 1))))) (write (if (force (ev? (* 2 %(h)d))) %(v)d 0))',
        '(define r (delay (begin (write 1) %(v)d))) (define s (delay-force r)) (define t (delay-force s)) (let loop ((i 0)) (if (< i %(n)d) (begin (force t) (loop (+ i 1))))) (write (force r))',
    ]

    def gen(self, c):
        if c.bool(0.012):
            k = c.draw(len(self.SPACE))
            v, n = c.int(0, 9), 60000 + c.draw(9) * 1000
            code = '(import (scheme base) (scheme write) (scheme lazy))\n' + self.SPACE[k] % {'v': v, 'n': n, 'h': n // 2}
            return pbt.Case(code, [str(v), '%d%d' % (v, v), '0', str(v), '1%d' % v][k], labels=['space %d' % k], extra='space')
        for _ in range(20):
            n = c.int(1, 4)
            g = Gen(c, n)
            sets = [app('set!', S('q%d' % i), g.p(4)) for i in range(n)]
            body = [g.e(5) for _ in range(c.int(1, 3))]
            p = [S('let'), [[S('x'), 1], [S('y'), 2], [S('fuel'), 5]] + [[S('q%d' % i), app('make-promise', i)] for i in range(n)]] + \
                sets + [app('let*', [[S('r%d' % i), b] for i, b in enumerate(body)],
                            app('list', *[S('r%d' % i) for i in range(len(body))]))]
            try:
                m, log = ctlgen.machine(8000)
                m.system_errors = False
                v = m.run(p)
                expect = sx.show([ref.unheap(v), log])
            except (ref.Overrun, RecursionError, ref.Uncaught, ref.SchemeError):
                continue
            if len(expect) > 3000 or '#;' in expect or 'Promise' in expect:
                continue
            code = '(import (scheme base) (scheme write) (scheme lazy))\n' + sx.SHOW + ctlgen.PRELUDE + \
                "(define v %s)\n(verif-show (list v (reverse verif-log)) (current-output-port))" % ref.src(p)
            return pbt.Case(code, expect, nontrivial=bool(g.features) and len(log) > 1, labels=sorted(g.features))
        return pbt.Case('', '', nontrivial=False)

    base = None

    def run_program(self, srv, case):
        r = srv.run(case.code, timeout=self.timeout)
        m = self.judge_result(case, r)
        if m is None and case.extra == 'space':
            if self.base is None:
                self.base = srv.run('(import (scheme base) (scheme write) (scheme lazy)) (define (f n) (if (= n 0) (force (delay 1)) (begin (force (delay n)) (f (- n 1))))) (write (f 20000))', timeout=60).rss
            if r.rss > self.base + 5000:
                return 'memory grew by %d KB in a chain of delay-force' % (r.rss - self.base)
        return m
