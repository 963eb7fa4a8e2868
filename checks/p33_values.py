"""Multiple values, formals and argument lists: generated producers and receivers, valued while they are generated."""
import pbt
import sx
from sx import Sym

PLAIN = ['a', 'b', 'c', 'x', 'args', 'tmp', 'len', 'dummy', 'body', 'id-0', 'xs', 'r', 'cl', 'e0', 'binding', 'formals', 'expression', 'p', 'rest', 'params', 'bindings', 'tmps', 'y']
# names of procedures that the generated code itself uses only through %-aliases, so that it can shadow them
GLOBAL = ['list', 'values', 'apply', 'length', 'call-with-values', 'cadr', 'cddr', 'set-cdr!', 'cdr', 'car', '=', '>=', 'error']


class Gen:
    def __init__(self, c):
        self.c, self.n = c, 0
        self.features = set()
        self.budget = 26

    def tick(self):
        self.n += 1
        return self.n - 1

    # --- formals: (text, names, rest or None)
    def formals(self, k, taken=()):
        """Formals that accept k arguments, of distinct names not in `taken`."""
        c = self.c
        pool = [n for n in (PLAIN + (GLOBAL if c.bool(.15) else [])) if n not in taken]
        names = c.sample(pool, min(len(pool), k + 1))
        style = c.weighted([(5, 'fixed'), (4, 'rest'), (2, 'all')])
        if style == 'fixed':
            return self.formal_text(names[:k], None), names[:k], None
        if style == 'all':
            return names[0], [], names[0]
        m = c.int(0, k)
        self.features.add('rest formal')
        return self.formal_text(names[:m], names[m]), names[:m], names[m]

    def formal_text(self, names, rest):
        if rest is None:
            return '(%s)' % ' '.join(names)
        return '(%s . %s)' % (' '.join(names), rest) if names else rest

    def bind(self, env, fixed, rest, vs):
        e = dict(env)
        for n, v in zip(fixed, vs):
            e[n] = v
        if rest is not None:
            e[rest] = list(vs[len(fixed):])
        for n in fixed + ([rest] if rest else []):
            if n in GLOBAL:
                self.features.add('shadowed procedure')
        return e

    # --- one value
    def value(self, env, depth):
        """(text, value): a single value."""
        c = self.c
        self.budget -= 1
        vars_ = sorted(env)
        k = c.weighted([(4, 'const'), (7 if vars_ else 0, 'var'), (4, 'list'), (3, 'recv'), (1, 'set')] if depth > 0 and self.budget > 0 else [(1, 'const'), (3 if vars_ else 0, 'var')])
        if k == 'const':
            v = c.pick([0, 1, 2, -3, 10, Sym('s'), 't', True, False, [], [1, 2], sx.Char('z')])
            return (sx.lit(v), v)
        if k == 'var':
            n = c.pick(vars_)
            return n, env[n]
        if k == 'list':
            xs = [self.value(env, depth - 1) for _ in range(c.int(0, 3))]
            return '(%%list%s)' % ''.join(' ' + t for t, _ in xs), [v for _, v in xs]
        if k == 'set' and vars_:
            n = c.pick(vars_)
            t, v = self.value(env, depth - 1)
            e = dict(env)
            e[n] = v
            # assignment of a formal: local to a copy of the variable
            t2, v2 = self.value(e, depth - 1)
            return '(let ((%s %s)) (set! %s %s) %s)' % (n, n, n, t, t2), v2
        return self.receive(env, depth - 1, None)

    # --- k values
    def produce(self, env, k, depth):
        """(text, values): an expression that gives k values."""
        c = self.c
        self.budget -= 1
        if k == 1 and c.bool(.5):
            t, v = self.value(env, depth)
            return t, [v]
        kinds = [(4, 'values'), (2, 'apply'), (2, 'escape')]
        if depth > 0 and self.budget > 0:
            kinds += [(2, 'call/cc'), (1, 'pass'), (2, 'wind'), (1, 'if'), (1, 'begin'), (1, 'let'), (2, 'recv'), (1, 'guard'), (1, 'raise'), (1, 'param'), (2, 'proc'), (1, 'loop'), (1, 'do')]
            if k == 2:
                kinds += [(2, 'div')]
        kind = c.weighted(kinds)
        self.features.add('producer ' + kind)
        if kind in ('values', 'apply', 'escape', 'call/cc', 'guard', 'raise'):
            xs = [self.value(env, depth - 1) for _ in range(k)]
            vs = [v for _, v in xs]
            ts = [t for t, _ in xs]
            s = ''.join(' ' + t for t in ts)
            if kind == 'values':
                return '(%%values%s)' % s, vs
            if kind == 'apply':
                m = c.int(0, k)
                return '(%%apply %%values%s (%%list%s))' % (''.join(' ' + t for t in ts[:m]), ''.join(' ' + t for t in ts[m:])), vs
            if kind == 'call/cc':
                return '(%%cc (lambda (%%k) (%%k%s)))' % s, vs
            if kind == 'escape':
                w = c.pick(['(%%cc (lambda (%%k) (%%list 1 (%%k%s))))', '(%%cc (lambda (%%k) (dynamic-wind (lambda () 1) (lambda () (%%k%s)) (lambda () (%%values 8 9)))))', '(%%cc (lambda (%%k) (%%map (lambda (%%i) (%%k%s)) (%%list 1 2))))', '(%%cc (lambda (%%k) (%%cwv (lambda () (%%k%s)) %%list)))', '(%%cc (lambda (%%k) (begin (%%k%s) 5)))'])
                return w % s, vs
            if kind == 'guard':
                return '(guard (%%e (#t (%%values%s))) (raise 1))' % s, vs
            return '(with-exception-handler (lambda (%%e) (%%values%s)) (lambda () (raise-continuable 1)))' % s, vs
        if kind == 'recv':
            return self.receive(env, depth - 1, k)
        if kind == 'div':
            n, d = c.int(-40, 40), c.int(1, 9)
            return '(floor/ %d %d)' % (n, d), [n // d, n % d]
        if kind == 'let':
            t, v = self.value(env, depth - 1)
            n = c.pick(PLAIN)
            e = dict(env)
            e[n] = v
            t2, vs = self.produce(e, k, depth - 1)
            return '(let ((%s %s)) %s)' % (n, t, t2), vs
        t, vs = self.produce(env, k, depth - 1)
        if kind == 'pass':
            return '(%%cwv (lambda () %s) %%values)' % t, vs
        if kind == 'wind':
            return c.pick(['(dynamic-wind (lambda () 1) (lambda () @) (lambda () (%values 8 9)))', '(dynamic-wind (lambda () (%values)) (lambda () @) (lambda () 7))']).replace('@', t), vs
        if kind == 'if':
            other = self.produce(env, c.int(0, 3), 0)[0]
            f = c.pick(['(if #t @ #)', '(if #f # @)', '(cond (#f #) (else @))', '(cond (1 @) (else #))', '(case 1 ((2) #) ((1) @))', '(and 1 @)', '(or #f @)', '(when 1 2 @)', '(unless #f @)'])
            return f.replace('#t', '\0').replace('#f', '\1').replace('#', other).replace('\0', '#t').replace('\1', '#f').replace('@', t), vs
        if kind == 'begin':
            other = self.produce(env, c.int(0, 3), 0)[0]
            i = self.tick()
            return '(begin (%%tick %d) %s %s)' % (i, other, t), vs
        if kind == 'param':
            return '(parameterize ((%%p 1)) %s)' % t, vs
        if kind == 'proc':
            i = self.tick()
            return '((lambda %%none (%%tick %d) %s))' % (i, t), vs
        if kind == 'loop':
            return '(let %%loop ((%%i 3)) (if (%%eq %%i 0) %s (%%loop (%%sub %%i 1))))' % t, vs
        if kind == 'do':
            return '(do ((%%i 0 (%%add %%i 1))) ((%%eq %%i 3) %s))' % t, vs
        raise AssertionError(kind)

    def out(self, env, k, depth):
        """A body that gives k values, or a single one when k is None: (text, what)."""
        if k is None:
            return self.value(env, depth)
        return self.produce(env, k, depth)

    def body(self, env, names, k, depth):
        """The body of a receiver: it shows what was received, beside what the caller wants."""
        c = self.c
        pre = ''
        if c.bool(.3):
            pre = '(%%tick %d) ' % self.tick()
        if names and c.bool(.3):
            n = c.pick(names)
            t, v = self.value(env, 0)
            env = dict(env)
            env[n] = v
            pre += '(set! %s %s) ' % (n, t)
            self.features.add('assigned formal')
        if k is None and c.bool(.6):
            return pre + '(%%list%s)' % ''.join(' ' + n for n in names), [env[n] for n in names]
        t, v = self.out(env, k, depth)
        return pre + t, v

    def receive(self, env, depth, k):
        """A receiver of some values: (text, value or values)."""
        c = self.c
        kind = c.weighted([(3, 'cwv'), (3, 'receive'), (4, 'let-values'), (4, 'let*-values'), (4, 'define-values'), (4, 'case-lambda'), (3, 'apply'), (2, 'call'), (2 if k is None else 0, 'proc')])
        self.features.add(kind)
        self.budget -= 1
        j = c.weighted([(1, 0), (2, 1), (4, 2), (3, 3), (1, 4), (1, 7)])
        if kind in ('cwv', 'receive'):
            f, fixed, rest = self.formals(j)
            pt, vs = self.produce(env, j, depth)
            e = self.bind(env, fixed, rest, vs)
            bt, v = self.body(e, fixed + ([rest] if rest else []), k, depth)
            if kind == 'cwv':
                return '(%%cwv (lambda () %s) (lambda %s %s))' % (pt, f, bt), v
            return '(receive %s %s %s)' % (f, pt, bt), v
        if kind == 'proc':
            pt, vs = self.produce(env, j, depth)
            if j == 0 or c.bool(.6):
                return '(%%cwv (lambda () %s) %%list)' % pt, vs
            return '(%%cwv (lambda () %s) %%vector)' % pt, sx.Vec(vs)
        if kind == 'let-values':
            bs, taken, e = [], set(), dict(env)
            for _ in range(c.int(0, 3)):
                j = c.int(0, 3)
                f, fixed, rest = self.formals(j, taken)
                pt, vs = self.produce(env, j, depth)
                e = self.bind(e, fixed, rest, vs)
                taken |= set(fixed) | ({rest} if rest else set())
                bs.append('(%s %s)' % (f, pt))
            if len(bs) > 1:
                self.features.add('several bindings')
            names = sorted(taken)
            bt, v = self.body(e, names, k, depth)
            if c.bool(.2):
                n = c.pick(PLAIN)
                bt = '(define %%inner 1) ' + bt
            return '(let-values (%s) %s)' % (' '.join(bs), bt), v
        if kind == 'let*-values':
            bs, names, e = [], set(), dict(env)
            for _ in range(c.int(0, 3)):
                j = c.int(0, 3)
                f, fixed, rest = self.formals(j)
                pt, vs = self.produce(e, j, depth)
                e = self.bind(e, fixed, rest, vs)
                names |= set(fixed) | ({rest} if rest else set())
                bs.append('(%s %s)' % (f, pt))
            bt, v = self.body(e, sorted(names), k, depth)
            return '(let*-values (%s) %s)' % (' '.join(bs), bt), v
        if kind == 'define-values':
            # the names of a body are all bound in it: an expression may use those before it only
            m = c.int(1, 3)
            taken, fs = set(), []
            for _ in range(m):
                j = c.int(0, 4)
                f, fixed, rest = self.formals(j, taken | set(GLOBAL))
                taken |= set(fixed) | ({rest} if rest else set())
                fs.append((j, f, fixed, rest))
            e = {n: v for n, v in env.items() if n not in taken}
            ds = []
            for j, f, fixed, rest in fs:
                pt, vs = self.produce(e, j, depth)
                e = self.bind(e, fixed, rest, vs)
                ds.append('(define-values %s %s)' % (f, pt))
            if m > 1:
                self.features.add('several bindings')
            bt, v = self.body(e, sorted(taken), k, depth)
            return '(let () %s %s)' % (' '.join(ds), bt), v
        # calls
        args = [self.value(env, depth - 1) for _ in range(j)]
        ts, vs = [t for t, _ in args], [v for _, v in args]
        if kind == 'case-lambda':
            clauses, pick = [], None
            for _ in range(c.int(1, 4)):
                m = c.weighted([(3, j), (1, 0), (1, 1), (1, 2), (1, 3), (1, 5)])
                f, fixed, rest = self.formals(m)
                clauses.append((f, fixed, rest))
            texts, v = [], None
            for f, fixed, rest in clauses:
                fits = len(fixed) == j if rest is None else len(fixed) <= j
                names = fixed + ([rest] if rest else [])
                if fits and pick is None:
                    pick = f
                    bt, v = self.body(self.bind(env, fixed, rest, vs), names, k, depth)
                else:
                    dummy = self.bind(env, fixed, rest, [0] * max(len(fixed), j))
                    n0 = self.n
                    bt, _ = self.body(dummy, names, c.pick([k, 2]), 0)
                    if self.n != n0:
                        bt = bt[bt.index(') ') + 2:]
                        self.n = n0
                texts.append('(%s %s)' % (f, bt))
            op = '(case-lambda %s)' % ' '.join(texts)
            if pick is None:
                self.features.add('no clause')
                call = '(guard (%%e ((error-object? %%e) %s)) %s)'
                bt, v = self.out(env, k, 0)
                return call % (bt, self.call(op, ts)), v
            return self.call(op, ts), v
        f, fixed, rest = self.formals(j)
        e = self.bind(env, fixed, rest, vs)
        bt, v = self.body(e, fixed + ([rest] if rest else []), k, depth)
        op = '(lambda %s %s)' % (f, bt)
        if kind == 'call':
            return '(%s%s)' % (op, ''.join(' ' + t for t in ts)), v
        return self.call(op, ts, True), v

    def call(self, op, ts, apply=False):
        c = self.c
        if not apply and c.bool(.5):
            return '(%s%s)' % (op, ''.join(' ' + t for t in ts))
        m = c.int(0, len(ts))
        return '(%%apply %s%s (%%list%s))' % (op, ''.join(' ' + t for t in ts[:m]), ''.join(' ' + t for t in ts[m:]))


def fresh_rest(c):
    """The rest list and the list given to apply do not share pairs."""
    m, n, k = c.int(0, 2), c.int(0, 3), c.int(0, 2)
    m = max(m, 0)
    n = max(n, 1 if m + k == 0 else 0)
    k = min(k, m + n)
    vs = list(range(10, 10 + m + n))
    fs = ['f%d' % i for i in range(k)]
    formals = '(%s . r)' % ' '.join(fs) if fs else 'r'
    make = c.pick(['(lambda %s @)', '(case-lambda (%s @))']).replace('%s', formals)
    r = vs[k:]
    last = vs[m:]
    code = '(let* ((l (list%s)) (f %s) (r (apply f%s l))) (if (pair? r) (begin (set-car! r (quote m)) (set-cdr! r (quote n)))) (list l r))' % (
        ''.join(' %d' % v for v in last), make.replace('@', 'r'), ''.join(' %d' % v for v in vs[:m]))
    got = sx.Dot([Sym('m')], Sym('n')) if r else []
    return code, [last, got], 'fresh rest list'


def twice(c):
    """The receiver is entered again with other values."""
    j = c.int(1, 4)
    g = Gen(c)
    f, fixed, rest = g.formals(j, set(GLOBAL) | {'x'})
    names = fixed + ([rest] if rest else [])
    form = c.pick(['(let-values ((F E)) B)', '(let*-values ((F E)) B)', '(receive F E B)', '(call-with-values (lambda () E) (lambda F B))', '(call-with-values (lambda () E) (case-lambda (F B)))', '(let-values ((F E) ((q1 . q2) (values 1 2))) B)'])
    rounds = c.int(1, 3)
    rows = [[c.int(0, 99) for _ in range(j)] for _ in range(rounds + 1)]
    log = []
    for row in rows:
        e = g.bind({}, fixed, rest, row)
        log.append([e[n] for n in names])
    setter = ''
    if names and c.bool(.5):
        # an assignment or mutation in one round is not seen in the next
        n = c.pick(names)
        setter = '(set! %s 1000) ' % n
        if n == rest and c.bool(.5):
            setter = '(if (pair? %s) (set-cdr! %s 5)) ' % (n, n)
    body = '(set! %%log (%%list* (list %s) %%log)) %s(if (null? %%more) (reverse %%log) (let ((row (car %%more))) (set! %%more (cdr %%more)) (apply %%kk row)))' % (' '.join('(%%if-list %s)' % n if n == rest else n for n in names), setter)
    body = body.replace('%%', '%')
    code = '(let ((%%log (quote ())) (%%kk #f) (%%more (quote %s))) %s)' % (sx.datum(rows[1:]), form.replace('F', f, 1).replace('E', '(%%cc (lambda (k) (set! %%kk k) (values %s)))' % ' '.join(map(str, rows[0])), 1).replace('B', body, 1).replace('%%', '%'))
    return code.replace('%%', '%'), log, 'received again'


class Check(pbt.Property):
    id = 'P33'
    batch = 25
    quick = 400
    thorough = 8000
    rule = 'more than one value or a rest formal or clauses'
    assumptions = ['a continuation of one value is given one; define-values inside a body names identifiers its expressions use only after their definition']
    imports = '(import (scheme case-lambda) (srfi 8))'
    prelude = '''
(define %list list) (define %values values) (define %apply apply) (define %cwv call-with-values) (define %cc call-with-current-continuation)
(define %vector vector) (define %map map) (define %add +) (define %eq =) (define %sub -) (define %list* cons)
(define %p (make-parameter 0)) (define %if-list list-copy)
(define %counts (make-vector 256 0))
(define (%tick i) (vector-set! %counts i (+ 1 (vector-ref %counts i))))
(define (%taken n) (let ((r (vector->list %counts 0 n))) (vector-fill! %counts 0) r))
'''

    def gen(self, c):
        k = c.draw(10)
        if k == 0:
            code, v, label = fresh_rest(c)
            return pbt.Case(code, expect=sx.show(v), labels=[label])
        if k == 1:
            code, v, label = twice(c)
            return pbt.Case(code, expect=sx.show(v), labels=[label])
        g = Gen(c)
        t, v = g.receive({}, c.int(1, 4), None)
        code = '(let* ((%v {})) (list %v (%taken {})))'.format(t.replace('%%', '%'), g.n)
        return pbt.Case(code, expect=sx.show([v, [1] * g.n]), nontrivial=len(g.features) > 2, labels=sorted(g.features))
