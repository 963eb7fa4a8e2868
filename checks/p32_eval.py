"""eval: programs of P15 through eval, and histories over several environments against a model of their bindings."""
import ref
import sx
import pbt
from sx import Sym as S
import p15_programs

# what a specification makes of (scheme base): how a name of it is written in the environment
KEYWORDS = ['quote', 'if', 'lambda', 'let', 'define', 'set!', 'begin', 'define-values', 'let*', 'cond', 'else', 'case', 'and', 'or', 'define-syntax', 'syntax-rules', 'letrec', '_', '...']
PROCS = {'+': lambda *a: sum(a), '-': lambda a, b: a - b, '*': lambda a, b: a * b, 'list': lambda *a: list(a), 'vector': lambda *a: sx.Vec(a), 'not': lambda a: a is False, 'append': lambda a, b: a + b, 'length': len, 'cons': lambda a, b: [a] + b}
R5RS = '''+ - * / = < > <= >= abs acos angle append apply asin assoc assq assv atan boolean? car cdr caar cddr caddr call-with-current-continuation call-with-input-file call-with-output-file call-with-values
ceiling char->integer char-alphabetic? char-ci<? char? close-input-port complex? cons cos current-input-port denominator display dynamic-wind eof-object? eq? equal? eqv? eval even? exact->inexact exact? exp expt floor for-each force gcd
imag-part inexact->exact input-port? integer->char integer? interaction-environment lcm length list list->string list->vector list-ref list-tail list? load log magnitude make-polar make-string make-vector map max member memq memv min modulo negative?
newline not null? number->string number? numerator odd? open-input-file output-port? pair? peek-char positive? procedure? quotient rational? rationalize read read-char real? remainder reverse round set-car! set-cdr! sin sqrt string string->list string->number
string->symbol string-append string-copy string-fill! string-length string-ref string-set! string<? string? substring symbol->string symbol? tan truncate values vector vector->list vector-fill! vector-length vector-ref vector-set! vector? with-input-from-file write write-char zero?'''.split()


class Retry(Exception):
    """A list is wanted where neither list nor quote has its meaning."""


class Env:
    def __init__(self, spec, names, libs):
        self.spec = spec            # text of the import sets
        self.names = names          # name of (scheme base) -> how the environment calls it, or absent
        self.libs = libs            # name in the environment -> what of the library (verif l)
        self.vars = {}              # defined here: name -> value
        self.taken = set(names.values()) | set(libs)


class Hist:
    """A history of evaluations; each is one element of the list that the case writes."""

    def __init__(self, c):
        self.c = c
        self.n = c.int(0, 50)           # the library's variable, reset by the case
        self.features = set()
        self.fresh = 0

    def spec(self, i):
        c = self.c
        all_ = KEYWORDS + sorted(PROCS) + ['car', 'values']
        k = c.draw(7)
        if k <= 1:
            text, names = "(scheme base)", {n: n for n in all_}
        elif k == 2:
            p = c.pick(['p:', 'x', 'q-'])
            text, names = '(prefix (scheme base) %s)' % p, {n: p + n for n in all_}
            self.features.add('prefix')
        elif k == 3:
            out = c.sample(sorted(PROCS) + ['if', 'let*', 'cond', 'case', 'and', 'or'], c.int(1, 5))
            text, names = '(except (scheme base) %s)' % ' '.join(out), {n: n for n in all_ if n not in out}
            self.features.add('except')
        elif k == 4:
            keep = KEYWORDS + ['values'] + c.sample(sorted(PROCS), c.int(1, 6))
            text, names = '(only (scheme base) %s)' % ' '.join(keep), {n: n for n in keep}
            self.features.add('only')
        elif k == 5:
            a, b = c.sample(sorted(PROCS), 2)
            text, names = '(rename (scheme base) (%s %s) (%s %s))' % (a, b, b, a), dict({n: n for n in all_}, **{a: b, b: a})
            self.features.add('rename')
        else:
            a = c.pick(['if', 'lambda', 'let', 'quote', 'define', '+', 'set!', 'begin'])
            text, names = '(rename (scheme base) (%s my%s))' % (a, a), dict({n: n for n in all_}, **{a: 'my' + a})
            self.features.add('rename')
        libs = {}
        sets = [text]
        k = c.draw(5)
        if k == 0:
            sets.append('(verif l)')
            libs = {'n': 'n', 'm': 'n', 'bump!': 'bump!', 'mac': 'mac', 'get': 'get'}
        elif k == 1:
            sets.insert(0, '(prefix (verif l) l-)')
            libs = {'l-n': 'n', 'l-m': 'n', 'l-bump!': 'bump!', 'l-mac': 'mac', 'l-get': 'get'}
        elif k == 2:
            sets.append('(only (verif l) get bump!)')
            libs = {'bump!': 'bump!', 'get': 'get'}
        elif k == 3:
            sets.append('(rename (only (verif l) n bump! mac) (bump! b) (mac macro))')
            libs = {'n': 'n', 'b': 'bump!', 'macro': 'mac'}
        e = Env(' '.join("'" + s for s in sets), names, libs)
        e.text = 'e%d' % i
        return e

    # expressions of an environment, evaluated from right to left as the library is called
    def expr(self, e, local, d):
        """(text, thunk); thunk gives the value; operands are evaluated right to left."""
        c = self.c
        n = e.names
        local = local or {}
        ks = [(3, 'const'), (3 if e.vars else 0, 'var'), (3 if local else 0, 'local')]
        if d > 0:
            usable = [q for q in PROCS if q in n and n[q] not in local]
            ks += [(6 if usable else 0, 'call'), (2, 'let'), (1, 'lambda'), (2 if 'if' in n else 0, 'if'), (4 if e.libs else 0, 'lib'), (1, 'quote')]
        k = c.weighted(ks)
        if k == 'const':
            v = c.int(0, 20)
            return str(v), lambda env: v
        if k == 'quote' and n['quote'] not in local:
            v = c.pick([S('a'), [1, S('n')], [], [S('quote'), S('x')]])
            return '(%s %s)' % (n['quote'], sx.datum(v)), lambda env: v
        if k == 'var':
            x = c.pick(sorted(e.vars))
            if x not in local:
                return x, lambda env: e.vars[x]
        if k == 'local':
            x = c.pick(sorted(local))
            return x, lambda env: env[x]
        if k == 'call':
            q = c.pick(usable)
            if q in ('+', '-', '*'):
                a, b = self.num(e, local, d - 1), self.num(e, local, d - 1)
            elif q == 'append':
                a, b = [self.lst(e, local, d - 1) for _ in range(2)]
            elif q in ('length', 'not'):
                a = self.lst(e, local, d - 1)
                return '(%s %s)' % (n[q], a[0]), lambda env: PROCS[q](a[1](env))
            elif q == 'cons':
                a, b = self.expr(e, local, d - 1), self.lst(e, local, d - 1)
            else:
                xs = [self.expr(e, local, d - 1) for _ in range(c.int(0, 3))]

                def f(env):
                    vs = [y[1](env) for y in reversed(xs)]
                    return PROCS[q](*reversed(vs))
                return '(%s%s)' % (n[q], ''.join(' ' + y[0] for y in xs)), f

            def g(env):
                bv = b[1](env)
                return PROCS[q](a[1](env), bv)
            return '(%s %s %s)' % (n[q], a[0], b[0]), g
        if k in ('let', 'lambda') and n[k] not in local:
            x = c.pick(['x', 'y', 'n', 'list', 'm', 'car', 'quote', 'if', n.get('+', 'z'), n.get('let', 'w')])
            a = self.expr(e, local, d - 1)
            b = self.expr(e, dict(local, **{x: 1}), d - 1)
            if x in e.taken:
                self.features.add('shadowing')

            def h(env):
                return b[1](dict(env, **{x: a[1](env)}))
            if k == 'let':
                return '(%s ((%s %s)) %s)' % (n['let'], x, a[0], b[0]), h
            return '((%s (%s) %s) %s)' % (n['lambda'], x, b[0], a[0]), h
        if k == 'if' and n['if'] not in local:
            a, b, z = self.expr(e, local, d - 1), self.expr(e, local, d - 1), self.expr(e, local, d - 1)
            return '(%s %s %s %s)' % (n['if'], a[0], b[0], z[0]), lambda env: b[1](env) if a[1](env) is not False else z[1](env)
        if k == 'lib':
            x = c.pick(sorted(e.libs))
            w = e.libs[x]
            if x not in local:
                self.features.add('library')
                if w == 'n':
                    return x, lambda env: self.n
                if w == 'get':
                    return '(%s)' % x, lambda env: self.n
                if w == 'mac':
                    a = self.expr(e, local, d - 1)
                    return '(%s %s)' % (x, a[0]), lambda env: (lambda n0: [n0, a[1](env), n0])(self.n)
                j = c.int(1, 9)

                def bump(env):
                    self.n += j
                    return self.n
                return '(%s %d)' % (x, j), bump
        v = c.int(0, 20)
        return str(v), lambda env: v

    def num(self, e, local, d):
        n = e.names
        if d > 0 and self.c.bool(.4) and 'length' in n and n['length'] not in local:
            a = self.lst(e, local, d - 1)
            return '(%s %s)' % (n['length'], a[0]), lambda env: len(a[1](env))
        xs = [x for x in sorted(e.libs) if e.libs[x] in ('n', 'get') and x not in local]
        if xs and self.c.bool(.5):
            x = self.c.pick(xs)
            self.features.add('library')
            return (x if e.libs[x] == 'n' else '(%s)' % x), lambda env: self.n
        v = self.c.int(0, 20)
        return str(v), lambda env: v

    def lst(self, e, local, d):
        n = e.names
        if 'list' in n and n['list'] not in local:
            xs = [self.expr(e, local, d - 1) for _ in range(self.c.int(0, 3))]

            def f(env):
                return [y[1](env) for y in reversed(xs)][::-1]
            return '(%s%s)' % (n['list'], ''.join(' ' + y[0] for y in xs)), f
        if n['quote'] in local:
            raise Retry
        return '(%s (1 2))' % n['quote'], lambda env: [1, 2]

    def step(self, envs, procs):
        """(text of an expression of the program, value)"""
        c = self.c
        e = c.pick(envs)
        n = e.names
        k = c.weighted([(5, 'eval'), (5, 'define'), (3 if e.vars else 0, 'set'), (3, 'free'), (2, 'proc'), (3 if procs else 0, 'call'), (2, 'given'), (1, 'nest'), (1, 'values'), (2, 'macro'), (1, 'again')])
        self.features.add(k)
        if k == 'eval':
            t, f = self.expr(e, {}, c.int(1, 4))
            return "(eval '%s %s)" % (t, e.text), f({})
        if k in ('define', 'free', 'values'):
            # names that mean something elsewhere, or in (scheme base), are free here when not imported
            pool = [x for x in ['v', 'w', 'n', 'm', 'car', 'list', 'if', 'vector', 'cond', 'l-n', 'not', 'p:x', 'length', '+', 'case'] if x not in e.taken]
            x = c.pick(pool)
            if k == 'free' and x not in e.vars:
                # not bound here: it does not give the value that it has elsewhere
                v = c.pick([('car', 'car'), ('list', 'list'), ('vector', 'vector'), ('+', '+')])
                if v[0] in pool and v[0] not in e.vars:
                    return "(eq? %s (eval '%s %s))" % (v[1], v[0], e.text), False
            t, f = self.expr(e, {}, c.int(0, 3))
            if x in KEYWORDS or x in PROCS:
                self.features.add('free name of (scheme base)')
            if k == 'values' and 'define-values' in n:
                y = c.pick([p for p in pool if p != x])
                v = f({})
                e.vars[x], e.vars[y] = v, 5
                return "(begin (eval '(%s (%s %s) (%s %s 5)) %s) (eval '%s %s))" % (n['define-values'], x, y, n['values'], t, e.text, x, e.text), v
            e.vars[x] = f({})
            return "(begin (eval '(%s %s %s) %s) (eval '%s %s))" % (n['define'], x, t, e.text, x, e.text), e.vars[x]
        if k == 'set':
            x = c.pick(sorted(e.vars))
            t, f = self.expr(e, {}, c.int(0, 3))
            e.vars[x] = f({})
            return "(begin (eval '(%s %s %s) %s) (eval '%s %s))" % (n['set!'], x, t, e.text, x, e.text), e.vars[x]
        if k == 'proc':
            t, f = self.expr(e, {'a': 1}, c.int(1, 4))
            procs.append(f)
            i = len(procs) - 1
            return "(begin (set! f%d (eval '(%s (a) %s) %s)) %d)" % (i, n['lambda'], t, e.text, i), i
        if k == 'call':
            i = c.draw(len(procs))
            v = c.int(0, 9)
            return '(f%d %d)' % (i, v), procs[i]({'a': v})
        if k == 'given':
            # a procedure and data of the program inside the expression
            t, f = self.expr(e, {}, 2)
            v = f({})
            return "(eval (list vector (list '%s '(1 x)) '%s) %s)" % (n['quote'], t, e.text), sx.Vec([[1, S('x')], v])
        if k == 'nest':
            e2 = c.pick(envs)
            t, f = self.expr(e2, {}, 2)
            return "(eval (list eval (list '%s '%s) %s) %s)" % (n['quote'], t, e2.text, e.text), f({})
        if k == 'macro':
            x = 'mm%d' % c.int(0, 2)
            t, f = self.expr(e, {}, 2)
            u, g = self.expr(e, {}, 1)
            if 'list' not in n:
                return "(eval '%s %s)" % (t, e.text), f({})
            return "(begin (eval '(%s %s (%s () ((%s pv) (%s pv %s)))) %s) (eval '(%s %s) %s))" % (n['define-syntax'], x, n['syntax-rules'], n['_'], n['list'], t, e.text, x, u, e.text), (lambda v: [g({}), v])(f({}))
        # another environment made of the same specification has none of the definitions
        t, f = self.expr(Plain(e), {}, 2)
        return "(eval '%s (environment %s))" % (t, e.spec), f({})


def Plain(e):
    p = Env(e.spec, e.names, e.libs)
    return p


class Check(p15_programs.Check):
    id = 'P32'
    batch = 25
    quick = 160
    thorough = 5000
    rule = 'several environments and five steps, or a program of at least five features'
    assumptions = ['imported names are not redefined or assigned', 'lib/ref.py implements R7RS'] + ['programs do not depend on the unspecified order of argument evaluation']
    imports = '(import (scheme eval) (scheme repl) (only (scheme base) let-values let*-values call-with-values) (prefix (scheme r5rs) r5-) (verif l))'
    size = 50

    def assemble(self, cases):
        lib = '''(define-library (verif l) (import (scheme base))
 (export n bump! (rename n m) mac get reset!)
 (begin (define n 0) (define hidden 'list) (define (bump! k) (set! n (+ n k)) n) (define (get) n) (define (reset! k) (set! n k))
  (define-syntax mac (syntax-rules () ((_ x) (let ((v n)) (list v x n)))))))
'''
        text = super().assemble(cases)
        return text.replace(self.imports, lib + self.imports + "\n(eval '(import (scheme base)) (interaction-environment))\n", 1)

    def gen(self, c):
        k = c.weighted([(3, 'program'), (7, 'history'), (1, 'report')])
        if k == 'program':
            return super().gen(c)
        if k == 'report':
            return self.report(c)
        while True:
            try:
                h = Hist(c)
                n0 = h.n
                envs = [h.spec(i) for i in range(c.int(1, 4))]
                procs, steps = [], []
                for _ in range(c.int(1, 10)):
                    steps.append(h.step(envs, procs))
                break
            except Retry:
                pass
        bind = ' '.join('(e%d (environment %s))' % (i, e.spec) for i, e in enumerate(envs))
        fs = ' '.join('(f%d #f)' % i for i in range(len(procs)))
        code = '(begin (reset! %d) (let* (%s %s %s) (list %s)))' % (n0, bind, fs, ' '.join('(s%d %s)' % (i, t) for i, (t, _) in enumerate(steps)), ' '.join('s%d' % i for i in range(len(steps))))
        return pbt.Case(code, expect=sx.show([v for _, v in steps]), nontrivial=len(envs) > 1 and len(steps) > 4, labels=sorted(h.features))

    def report(self, c):
        names = c.sample(R5RS, 6)
        if c.bool():
            code = '(list %s)' % ' '.join("(eqv? r5-%s (eval '%s (scheme-report-environment 5)))" % (n, n) for n in names)
            return pbt.Case(code.replace('(scheme-report', '(r5-scheme-report'), expect=sx.show([True] * 6), labels=['report environment'])
        a, b = c.int(0, 9), c.int(0, 9)
        t, v = c.pick([("(let ((x %d)) (if x x %d))", a), ("((lambda (x y) (begin x y)) %d %d)", b), ("(letrec ((f (lambda (x) (if x (f #f) %d)))) (f %d))", a), ("(let* ((x %d) (y x)) (and x y %d))", b), ("(case 3 ((1 2) %d) (else %d))", b),
                       ("(let-syntax ((m (syntax-rules () ((_ q) (let ((t %d)) q))))) (let ((t %d)) (m t)))", b), ("(do ((i %d '())) ((not-a-name i) 1) %d)", None)][:6])
        first = names[0]
        code = "(list (eval '%s (r5-null-environment 5)) (eqv? r5-%s (eval '%s (r5-null-environment 5))))" % (t % (a, b), first, first)
        return pbt.Case(code, expect=sx.show([v, False]), labels=['null environment'])

    def case(self, top, body, expect, features):
        c = len(features) % 3
        env = ['(environment (quote (scheme base)))', '(interaction-environment)', "(environment '(scheme base) '(prefix (scheme base) unused-))"][c]
        lines = ["(define e@@ %s)" % env, "(eval (list 'define 'out out) e@@)"]
        if any(w in ref.src(b) for b in body + top for w in ('delay', 'force', 'make-promise')):
            lines.append("(eval '(import (scheme lazy)) e@@)")
        lines += ["(eval '%s e@@)" % ref.src(t) for t in top]
        code = "(let ((v (eval '(let () %s) e@@))) (list v (reverse verif-log)))" % ' '.join(ref.src(b) for b in body)
        return pbt.Case(code, expect=expect, nontrivial=len(features) >= 5, labels=['program'], extra='\n'.join(lines))
