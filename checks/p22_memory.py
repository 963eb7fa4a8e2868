"""Programs that make garbage of generated shapes for ever: what is alive is counted, and the size of the process measured."""
import re

import pbt

PRELUDE = '''(import (scheme base) (scheme write) (scheme lazy) (scheme file) (scheme eval) (scheme read) (srfi 4) (srfi 111))
(define (step n) %(body)s)
(define (probe) (close-port (open-input-file "/dev/full")))
(define-record-type node (make-node a b) node? (a node-a set-node-a!) (b node-b))
(define W %(window)d)
(define slots (make-vector W 0))
(define queue (list 0))
(define last queue)
(define (push! x) (set-cdr! last (list x)) (set! last (cdr last)) (if (> (length queue) W) (set! queue (cdr queue))))
(define cell #f)
(define P (make-parameter 0))
(define env (environment '(scheme base)))
(define (run k) (do ((i 0 (+ i 1))) ((= i k)) (step i)))
'''
PROBES = 4


class Check(pbt.Property):
    id = 'P22'
    variant = 'gc'
    program = True
    timeout = 60.0
    quick = 240
    thorough = 12000
    rule = 'every round makes at least 20 times as many objects as are alive because of the program, or garbage worth 100 MB'
    assumptions = ['symbols and what a program leaves in global variables stay alive; programs intern no new symbols',
                   'opening /dev/full is the probe: it collects and counts the objects, and the bytes in use according to malloc']

    # (payload bytes, scheme text) of an expression; n is bound
    def e(self, c, d):
        if d <= 0:
            k = c.draw(12)
            if k < 3:
                return 0, 'n'
            if k == 3:
                return 20, '(* 1.5 n)'
            if k == 4:
                return 0, "'(a b)"
            if k == 5:
                return 40, '(number->string n)'
            if k == 6:
                m = c.pick([1, 20, 400, 3000])
                return m, '(* (+ n 1) (expt 7 %d))' % (3 * m)
            if k == 7:
                return 32, '(/ (+ n 1) 7)'
            if k == 8:
                m = self.size(c)
                return 4 * m, '(make-string %d #\\λ)' % m
            if k == 9:
                m = self.size(c)
                return m, '(make-bytevector %d 7)' % m
            if k == 10:
                m = self.size(c)
                return 8 * m, '(make-f64vector %d 1.5)' % m
            return 40, '(list n n)'
        bytes_, xs = 0, []
        def sub(m=1):
            nonlocal bytes_
            b, t = self.e(c, d - 1 - c.draw(2))
            bytes_ += b * m
            return t
        k = c.draw(44)
        if k < 3:
            t = '(list %s)' % ' '.join(sub() for _ in range(c.int(1, 4)))
        elif k < 5:
            t = '(vector %s)' % ' '.join(sub() for _ in range(c.int(1, 4)))
        elif k == 5:
            m = self.size(c)
            bytes_ += 8 * m
            t = '(make-vector %d %s)' % (m, sub())
        elif k == 6:
            t = '(let ((p (list %s %s))) (set-cdr! (cdr p) p) p)' % (sub(), sub())
        elif k == 7:
            t = '(let ((v (vector %s %s))) (vector-set! v 0 v) v)' % (sub(), sub())
        elif k == 8:
            t = '(let ((v (vector 0 %s))) (vector-set! v 0 (list v (lambda () v))) v)' % sub()
        elif k == 9:
            t = '(let ((a (make-node 0 %s))) (set-node-a! a (make-node a %s)) a)' % (sub(), sub())
        elif k == 10:
            t = '(let ((b (box 0))) (set-box! b (list b %s)) b)' % sub()
        elif k == 11:
            t = '(let ((x %s)) (lambda () x))' % sub()
        elif k == 12:
            t = '(letrec ((x %s) (f (lambda () (list f x)))) f)' % sub()
        elif k == 13:
            t = '(let ((x 0)) (set! x (list (lambda () x) %s)) x)' % sub()
        elif k == 14:
            t = '(call/cc (lambda (k) (list k %s)))' % sub()
        elif k == 15:
            t = '(let ((v (vector 0 %s))) (call/cc (lambda (k) (vector-set! v 0 k))) v)' % sub()
        elif k == 16:
            t = '(let ((p (delay %s))) (force p) p)' % sub()
        elif k == 17:
            t = '(letrec ((p (delay (list p %s)))) (force p))' % sub()
        elif k == 18:
            m = c.int(1, 30)
            t = '(force (let loop ((i %d)) (delay-force (if (= i 0) (delay %s) (loop (- i 1))))))' % (m, sub())
        elif k == 19:
            t = '(let ((p (make-parameter %s))) (parameterize ((p %s)) (list p (p))))' % (sub(), sub())
        elif k == 20:
            t = '(parameterize ((P %s)) (list (P) (call/cc (lambda (k) k))))' % sub()
        elif k == 21:
            t = '(let ((o (open-output-string))) (write-string "some text" o) (list o (get-output-string o) %s))' % sub()
        elif k == 22:
            t = '(let ((o (open-input-string "(a b #0=(c . #0#) 12345678901234567890 \\"text\\")"))) (list (read o) o %s))' % sub()
        elif k == 23:
            t = '(guard (e (#t (list e))) (raise %s))' % sub()
        elif k == 24:
            t = '(guard (e ((error-object? e) (error-object-irritants e))) (error "message" %s))' % sub()
        elif k == 25:
            t = '(with-exception-handler (lambda (e) (list e %s)) (lambda () (raise-continuable %s)))' % (sub(), sub())
        elif k == 26:
            t = '(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))' % (sub(), sub(), sub())
        elif k == 27:
            t = '(call/cc (lambda (out) (dynamic-wind (lambda () n) (lambda () (for-each (lambda (x) (out (list x %s))) (list 1 2))) (lambda () %s))))' % (sub(), sub())
        elif k == 28:
            t = '(call-with-values (lambda () (values %s %s)) list)' % (sub(), sub())
        elif k == 29:
            t = '(apply list %s (list %s))' % (sub(), sub())
        elif k == 30:
            m = c.int(1, 40)
            t = '(let loop ((i %d) (acc 0)) (if (= i 0) acc (loop (- i 1) (%s acc %s))))' % (m, c.pick(['cons', 'vector', 'make-node', 'list']), sub(m))
        elif k == 31:
            t = '(map (lambda (x) %s) (list 1 2 3))' % sub(3)
        elif k == 32:
            t = '(vector-map (lambda (x) %s) (vector 1 2 3))' % sub(3)
        elif k == 33:
            t = '(let ((k #f) (c 0)) (call/cc (lambda (j) (set! k j))) (set! c (+ c 1)) (if (< c 3) (k 1)) (list c k %s))' % sub()
        elif k == 34:
            t = '(append (list %s) (list-copy (list %s)))' % (sub(), sub())
        elif k == 35:
            t = '(list->vector (vector->list (vector-append (vector %s) (vector %s))))' % (sub(), sub())
        elif k == 36:
            t = '(string->list (string-append "abc" (number->string n)))'
        elif k == 37:
            t = '(guard (e (#t (list e %s))) (dynamic-wind (lambda () n) (lambda () (parameterize ((P %s)) (raise n))) (lambda () n)))' % (sub(), sub())
        elif k == 38:
            t = '(let*-values (((a b) (values %s %s))) (define (f) (list a b)) (list f (f)))' % (sub(), sub())
        elif k == 39:
            t = '(call-with-port (open-input-bytevector (bytevector 1 2 3)) (lambda (p) (list (read-u8 p) p %s)))' % sub()
        elif k == 40 and not self.slow:
            self.slow = True
            t = "(list %s (eval '(%s) env))" % (sub(), c.pick(['let loop ((i 3)) (if (> i 0) (loop (- i 1)) (list i))', 'lambda (x) (list x x)', 'vector 1 2', 'guard (e (#t e)) (raise 1)',
                                                               'let-syntax ((m (syntax-rules () ((_ a ...) (list a ...))))) (m 1 2)', 'begin (define x (list 1 2)) x', 'quote (1 #(2))']))
        elif k == 41:
            t = '(let ((f (lambda xs xs))) (f n %s))' % sub()
        elif k == 42:
            t = '(let ((s (make-string 3 #\\a))) (string-set! s 1 #\\λ) (list (string-copy s) (string->utf8 s) %s))' % sub()
        else:
            t = '(cons %s %s)' % (sub(), sub())
        return bytes_ + 80, t

    def size(self, c):
        return c.pick([0, 1, 10, 10, 100, 100, 1000, 5000])

    def statement(self, c):
        b, t = self.e(c, c.int(1, 3))
        k = c.draw(7)
        t = [t, '(vector-set! slots (modulo n W) %s)' % t, '(push! %s)' % t, '(set! cell %s)' % t, '(begin (set! cell %s) (set! cell (list cell cell)))' % t,
             '(if (odd? n) (set! cell %s) (push! n))' % t, '(set-cdr! (list n) %s)' % t][k]
        return b, t

    def gen(self, c):
        self.slow = False
        xs = [self.statement(c) for _ in range(c.int(1, 3))]
        body = ' '.join(t for _, t in xs)
        rss = c.draw(5) == 0
        code = PRELUDE % {'window': c.pick([1, 2, 5, 20]), 'body': body}
        case = pbt.Case(code, labels=['size' if rss else 'count'])
        case.opts = {'payload': sum(b for b, _ in xs), 'rss': rss}
        return case

    def probes(self, r):
        return [tuple(map(int, m)) for m in re.findall(r'gc-probe (\d+) objects (\d+) bytes (\d+) allocations', r.err.decode('utf-8', 'replace'))]

    def bad(self, r):
        return '%s; stderr: %s' % (r.describe(), pbt.clip(r.err.decode('utf-8', 'replace'), 300)) if r.timed_out or r.exit_code != 0 else None

    def run_program(self, srv, case):
        n = 60
        while True:
            r = srv.run(case.code + '(do ((j 0 (+ j 1))) ((= j %d)) (probe) (run %d))(probe)' % (PROBES, n), timeout=self.timeout, gc_count=True, as_mb=4000)
            if self.bad(r):
                return self.bad(r)
            v = self.probes(r)
            if len(v) != PROBES + 1:
                return 'expected %d probes, got %d' % (PROBES + 1, len(v))
            made = (v[-1][2] - v[0][2]) / PROBES
            alive = v[-1][0] - v[0][0]
            if made > 20 * max(alive, 100) or n > 4000:
                break
            n *= 4
        case.nontrivial = made > 20 * max(alive, 100)
        objects = [b[0] - a[0] for a, b in zip(v, v[1:])][-2:]
        bytes_ = [b[1] - a[1] for a, b in zip(v, v[1:])][-2:]
        if min(objects) >= n / 2:
            return 'objects alive grew by %s over %d iterations each' % (objects, n)
        if min(bytes_) >= 16384 + 16 * n:
            return 'bytes in use grew by %s over %d iterations each' % (bytes_, n)
        if not case.opts['rss']:
            return None
        per = made / n * 40 + case.opts['payload'] / 2
        small, large = int(40e6 / per) + 1, int(200e6 / per) + 1
        if large > 400000:
            return None
        rs = []
        for k in (small, large):
            r = srv.run(case.code + '(run %d)' % k, timeout=self.timeout, as_mb=4000)
            if self.bad(r):
                return self.bad(r)
            rs.append(r.rss)
        case.nontrivial = True
        if rs[1] - rs[0] > 32 * 1024:
            return 'the process grew from %d KB after %d iterations to %d KB after %d' % (rs[0], small, rs[1], large)
        return None
