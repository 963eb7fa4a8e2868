"""Programs that keep a generated set of structures alive and changing while they make garbage, with a model in Python.

A program has N slots of each kind and a few update rules; every iteration applies one rule to slots chosen by a
linear congruential generator that the model runs in step.  Sums over everything reachable are printed now and then.
"""

M = 2 ** 31 - 1
BIG = 2 ** 190 + 12345


class Lcg:
    def __init__(self, seed):
        self.x = seed

    def next(self):
        self.x = (self.x * 48271 + 11) % M
        return self.x


class Cell:
    __slots__ = ('car', 'cdr')

    def __init__(self, a, d):
        self.car, self.cdr = a, d


PRELUDE = '''
(define seed %(seed)d)
(define (rnd n) (set! seed (modulo (+ (* seed 48271) 11) 2147483647)) (modulo seed n))
(define N %(n)d)
(define ls (make-vector N '()))
(define ss (make-vector N ""))
(define bs (make-vector N 7))
(define cs (make-vector N (lambda (d) d)))
(define ts (make-vector N '#()))
(define ps (make-vector N (make-promise 3)))
(define os (make-vector N #f))
(define ks (make-vector N 0))
(define param (make-parameter 1))
(define junk #f)
(define env (environment '(scheme base)))
(define (lsum x n) (let loop ((x x) (i 0) (s 0)) (if (or (null? x) (= i n)) s (loop (cdr x) (+ i 1) (modulo (+ (* s 31) (car x)) 1000003)))))
(define (tsum t) (cond ((integer? t) t) ((= 0 (vector-length t)) 5) (else (let loop ((i 0) (s 1)) (if (= i (vector-length t)) s (loop (+ i 1) (modulo (+ (* s 17) (tsum (vector-ref t i))) 1000003)))))))
(define (tdepth t) (if (or (integer? t) (= 0 (vector-length t))) 0 (+ 1 (tdepth (vector-ref t 0)))))
(define (ssum s) (let loop ((i 0) (n 0)) (if (= i (string-length s)) n (loop (+ i 1) (modulo (+ (* n 31) (char->integer (string-ref s i))) 1000003)))))
'''

# rule: (scheme text, model function)
RULES = {}


def rule(text):
    def deco(f):
        RULES[f.__name__] = (text, f)
        return f
    return deco


@rule("(let* ((i (rnd N)) (j (rnd N)) (x (rnd 1000))) (vector-set! ls i (cons x (vector-ref ls j))))")
def push(m):
    i, j, x = m.r(m.n), m.r(m.n), m.r(1000)
    m.ls[i] = Cell(x, m.ls[j])


@rule("(let* ((i (rnd N)) (x (rnd 1000))) (if (pair? (vector-ref ls i)) (set-car! (vector-ref ls i) x)))")
def setcar(m):
    i, x = m.r(m.n), m.r(1000)
    if m.ls[i]:
        m.ls[i].car = x


@rule("(let* ((i (rnd N)) (j (rnd N))) (if (pair? (vector-ref ls i)) (set-cdr! (vector-ref ls i) (vector-ref ls j))))")
def setcdr(m):
    i, j = m.r(m.n), m.r(m.n)
    if m.ls[i]:
        m.ls[i].cdr = m.ls[j]


@rule("(let* ((i (rnd N)) (n (rnd 40))) (vector-set! ls i (let loop ((k 0) (x '())) (if (= k n) x (loop (+ k 1) (cons (* k n) x))))))")
def fresh(m):
    i, n = m.r(m.n), m.r(40)
    x = None
    for k in range(n):
        x = Cell(k * n, x)
    m.ls[i] = x


@rule("(let* ((i (rnd N)) (j (rnd N)) (s (string-append (vector-ref ss j) (number->string (rnd 1000)) \"é\")) (n (string-length s))) "
      "(vector-set! ss i (if (> n 60) (substring s 20 n) s)))")
def sappend(m):
    i, j = m.r(m.n), m.r(m.n)
    s = m.ss[j][0] + str(m.r(1000)) + 'é'
    m.ss[i] = [s[20:] if len(s) > 60 else s]


@rule("(let* ((i (rnd N)) (c (rnd 26)) (s (vector-ref ss i))) (if (> (string-length s) 0) (vector-set! ss i (list->string (cons (integer->char (+ 97 c)) (cdr (string->list s)))))))")
def slist(m):
    i, c = m.r(m.n), m.r(26)
    s = m.ss[i][0]
    if s:
        m.ss[i] = [chr(97 + c) + s[1:]]


@rule("(let* ((i (rnd N)) (s (vector-ref ss i))) (vector-set! ss i (symbol->string (string->symbol s))))")
def symbol(m):
    m.r(m.n)


@rule("(let* ((i (rnd N)) (j (rnd N)) (k (rnd N))) (vector-set! bs i (modulo (+ (* (vector-ref bs j) (vector-ref bs k)) (rnd 1000)) %d)))" % BIG)
def big(m):
    i, j, k = m.r(m.n), m.r(m.n), m.r(m.n)
    m.bs[i] = (m.bs[j] * m.bs[k] + m.r(1000)) % BIG


@rule("(let* ((i (rnd N)) (j (rnd N)) (q (/ (vector-ref bs i) (+ 1 (vector-ref bs j))))) (vector-set! bs i (+ (numerator q) (rnd 10))))")
def ratio(m):
    from fractions import Fraction
    i, j = m.r(m.n), m.r(m.n)
    m.bs[i] = Fraction(m.bs[i], 1 + m.bs[j]).numerator + m.r(10)


@rule("(let* ((i (rnd N)) (n (rnd 1000))) (vector-set! cs i (lambda (d) (set! n (+ n d)) (modulo n 9973))))")
def closure(m):
    i, n = m.r(m.n), m.r(1000)
    m.cs[i] = [n]


@rule("(let* ((i (rnd N)) (j (rnd N)) (f (vector-ref cs j)) (g (vector-ref cs i))) (vector-set! ls i (cons (f (rnd 7)) (cons (g 1) (vector-ref ls i)))))")
def callc(m):
    i, j = m.r(m.n), m.r(m.n)
    # arguments are evaluated from right to left: the inner cons first
    b = m.call(i, 1)
    a = m.call(j, m.r(7))
    m.ls[i] = Cell(a, Cell(b, m.ls[i]))


@rule("(let* ((i (rnd N)) (j (rnd N)) (t (vector-ref ts j))) (vector-set! ts i (if (> (tdepth t) 4) (rnd 100) (vector t (rnd 100)))))")
def nest(m):
    i, j = m.r(m.n), m.r(m.n)
    t = m.ts[j]
    d = 0
    u = t
    while isinstance(u, list) and u:
        d += 1
        u = u[0]
    m.ts[i] = m.r(100) if d > 4 else [t, m.r(100)]


@rule("(let* ((i (rnd N)) (t (vector-ref ts i)) (x (rnd 50))) (if (and (vector? t) (> (vector-length t) 1)) (vector-set! t 1 x)))")
def vset(m):
    i, x = m.r(m.n), m.r(50)
    if isinstance(m.ts[i], list) and m.ts[i]:
        m.ts[i][1] = x


@rule("(let* ((i (rnd N)) (x (rnd 100))) (vector-set! ps i (delay (begin (rnd 3) (+ x 1)))))")
def delay(m):
    i, x = m.r(m.n), m.r(100)
    m.ps[i] = [False, x]


@rule("(let* ((i (rnd N)) (j (rnd N))) (vector-set! ls i (cons (force (vector-ref ps j)) (vector-ref ls i))))")
def forcep(m):
    i, j = m.r(m.n), m.r(m.n)
    p = m.ps[j]
    if not p[0]:
        m.r(3)
        p[0], p[1] = True, p[1] + 1
    m.ls[i] = Cell(p[1], m.ls[i])


@rule("(let* ((i (rnd N)) (p (open-output-string))) (write (vector-ref bs i) p) (vector-set! os i p))")
def port(m):
    i = m.r(m.n)
    m.os[i] = str(m.bs[i])


@rule("(let* ((i (rnd N)) (p (vector-ref os i))) (if p (begin (write-string \"x\" p) (vector-set! ss i (get-output-string p)) (if (> (string-length (vector-ref ss i)) 90) (vector-set! os i #f)))))")
def portw(m):
    i = m.r(m.n)
    if m.os[i] is not None:
        m.os[i] += 'x'
        m.ss[i] = [m.os[i]]
        if len(m.os[i]) > 90:
            m.os[i] = None


@rule("(let* ((i (rnd N)) (s (vector-ref bs i)) (p (open-input-string (number->string s)))) (vector-set! bs i (+ 1 (read p))))")
def readn(m):
    i = m.r(m.n)
    m.bs[i] += 1


@rule("(let* ((i (rnd N)) (x (rnd 9))) (vector-set! ls i (cons (guard (e ((pair? e) (+ (car e) (cadr e))) ((string? e) (string-length e))) "
      "(vector-ref (raise (if (odd? x) (list x i) \"abc\")) 0)) (vector-ref ls i))))")
def guard(m):
    i, x = m.r(m.n), m.r(9)
    m.ls[i] = Cell(x + i if x % 2 else 3, m.ls[i])


@rule("(let* ((i (rnd N)) (x (rnd 9)) (n 0)) (vector-set! ls i (cons (let ((v (call/cc (lambda (k) (vector-set! ks i k) x)))) "
      "(set! n (+ n 1)) (if (< n 3) ((vector-ref ks i) (+ v n)) v)) (vector-ref ls i))))")
def reenter(m):
    i, x = m.r(m.n), m.r(9)
    m.ls[i] = Cell(x + 3, m.ls[i])


@rule("(let* ((i (rnd N)) (x (rnd 9))) (vector-set! bs i (parameterize ((param (+ x (param)))) (dynamic-wind (lambda () (set! junk (list x))) (lambda () (+ (vector-ref bs i) (param))) (lambda () (set! junk (vector x)))))))")
def param(m):
    i, x = m.r(m.n), m.r(9)
    m.bs[i] += x + 1


@rule("(set! junk (list (make-vector (rnd 200) 1) (make-string (rnd 200) #\\a) (make-bytevector (rnd 200) 1)))")
def garbage(m):
    m.r(200), m.r(200), m.r(200)


@rule("(let* ((i (rnd N)) (n (rnd 30))) (let loop ((k 0) (x (vector-ref ls i))) (if (< k n) (loop (+ k 1) (list x x (vector x))))))")
def loopgarbage(m):
    m.r(m.n), m.r(30)


@rule("(let* ((i (rnd N)) (x (rnd 90)) (k `(,x (a ,@(list x i)) #(b ,i)))) (vector-set! bs i (+ (vector-ref bs i) (apply + (car k) (cdr (cadr k))) (vector-ref (caddr k) 1))))")
def quasi(m):
    i, x = m.r(m.n), m.r(90)
    m.bs[i] += x + x + i + i


@rule("(let* ((i (rnd N)) (n (rnd 12)) (x (list-tail (iota 15) n))) (vector-set! ls i (append (reverse (map (lambda (a b) (+ a b)) x x)) '())) )")
def mapl(m):
    i, n = m.r(m.n), m.r(12)
    x = None
    for k in range(n, 15):
        x = Cell(2 * k, x)
    m.ls[i] = x


@rule("(let* ((i (rnd N)) (x (rnd 50))) (vector-set! bs i (+ (vector-ref bs i) (eval (list '+ x (list 'let (list (list 'y i)) '(* y y))) env))))")
def evals(m):
    i, x = m.r(m.n), m.r(50)
    m.bs[i] += x + i * i


class Model:
    def __init__(self, n, seed):
        self.n, self.g = n, Lcg(seed)
        self.ls = [None] * n
        self.ss = [[''] for _ in range(n)]
        self.bs = [7] * n
        self.cs = [None] * n
        self.ts = [[]] * n
        one = [True, 3]
        self.ps = [one] * n
        self.os = [None] * n

    def r(self, n):
        return self.g.next() % n

    def call(self, i, d):
        c = self.cs[i]
        if c is None:
            return d
        c[0] += d
        return c[0] % 9973

    def lsum(self, x):
        s = i = 0
        while x is not None and i < 200:
            s = (s * 31 + x.car) % 1000003
            x = x.cdr
            i += 1
        return s

    def tsum(self, t):
        if isinstance(t, int):
            return t
        if not t:
            return 5
        s = 1
        for x in t:
            s = (s * 17 + self.tsum(x)) % 1000003
        return s

    def ssum(self, s):
        n = 0
        for ch in s:
            n = (n * 31 + ord(ch)) % 1000003
        return n

    def sums(self):
        return [[self.lsum(x) for x in self.ls], [self.ssum(x[0]) for x in self.ss], self.bs[:], [self.tsum(t) for t in self.ts]]


def make(c, iterations, wrap='%s'):
    """(program text, expected output)"""
    n, seed = c.int(1, 12), c.int(1, M - 1)
    names = sorted(RULES)
    chosen = [c.pick(names) for _ in range(c.int(1, 10))]
    rounds = c.int(1, 4)
    m = Model(n, seed)
    out = []
    for _ in range(rounds):
        for _ in range(iterations):
            RULES[chosen[m.r(len(chosen))]][1](m)
        out.append(m.sums())
    show = lambda x: '(' + ' '.join(show(y) for y in x) + ')' if isinstance(x, list) else str(x)
    text = PRELUDE % {'seed': seed, 'n': n}
    text += '(define (step) (case (rnd %d) %s))\n' % (len(chosen), ' '.join('((%d) %s)' % (i, RULES[r][0]) for i, r in enumerate(chosen)))
    text += ('(do ((round 0 (+ round 1))) ((= round %d)) (do ((i 0 (+ i 1))) ((= i %d)) (step)) '
             '(write (list (map (lambda (x) (lsum x 200)) (vector->list ls)) (map ssum (vector->list ss)) (vector->list bs) (map tsum (vector->list ts)))) (newline))\n' % (rounds, iterations))
    return ('(import (scheme base) (scheme write) (scheme lazy) (scheme read) (scheme eval) (srfi 1))\n' + text,
            ''.join(show(x) + '\n' for x in out), chosen)
