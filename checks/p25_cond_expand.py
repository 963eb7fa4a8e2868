"""cond-expand in every place it may stand, against boolean evaluation of its requirements."""
import pbt

FEATURES = ['r7rs', 'full-unicode', 'ratios', 'meevax', 'exact-closed', 'ieee-float', 'posix', 'foo', 'r8rs', 'windows', 'big-endian', 'little-endian', 'full-unicod', 'R7RS', 'scheme', 'else-where', 'library-x']
THERE = ['(scheme base)', '(srfi 1)', '(scheme cxr)', '(scheme write)', '(t there)', '(t 1)', '(srfi 149)']
NOT_THERE = ['(t no)', '(scheme nope)', '(srfi 9999)', '(t 2)', '(scheme)', '(base scheme)', '(t there too)']
LIBS = '''(define-library (t there) (import (scheme base)) (export p q) (begin (define p 71) (define q 72)))
(define-library (t 1) (export) (begin))
'''


class Gen:
    def __init__(self, c):
        self.c, self.k = c, 0
        self.features = set()

    def fresh(self):
        self.k += 1
        return self.k

    # requirements: (text, function of the set of features)
    def req(self, d):
        c = self.c
        k = c.draw(6) if d > 0 else c.draw(3)
        if k < 2:
            f = c.pick(FEATURES)
            return f, lambda fs: f in fs
        if k == 2:
            if c.bool():
                return '(library %s)' % c.pick(THERE), lambda fs: True
            return '(library %s)' % c.pick(NOT_THERE), lambda fs: False
        self.features.add('compound')
        if k == 3:
            t, f = self.req(d - 1)
            return '(not %s)' % t, lambda fs: not f(fs)
        rs = [self.req(d - 1) for _ in range(c.int(0, 4))]
        ts = ' '.join(t for t, _ in rs)
        if k == 4:
            return '(and%s)' % (' ' + ts if ts else ''), lambda fs: all(f(fs) for _, f in rs)
        return '(or%s)' % (' ' + ts if ts else ''), lambda fs: any(f(fs) for _, f in rs)

    def clauses(self, body):
        """A cond-expand with a clause that always holds; body() gives (text, run) of the forms of a clause."""
        c = self.c
        n = c.int(0, 4)
        cs = []
        for _ in range(n):
            r = self.req(c.pick([0, 1, 2, 3]))
            cs.append((r[0], r[1], body()))
        last = c.pick(['else', 'else', 'else', '(and)', '(not foo)', '(library (scheme base))'])
        cs.append((last, lambda fs: True, body()))
        if c.bool(.2):   # never reached
            r = self.req(1)
            if last != 'else':
                cs.append((r[0], r[1], body()))
        if n > 1:
            self.features.add('clauses')
        text = '(cond-expand %s)' % ' '.join('(%s%s)' % (t, ' ' + b[0] if b[0] else '') for t, _, b in cs)

        def select(fs):
            for _, f, b in cs:
                if f(fs):
                    return b[1]
        return text, lambda st: select(st['features'])(st)

    # forms of a program: run(st) acts on st['out'] and st['vars']
    def forms(self, d, names, where):
        c = self.c
        items = []
        for _ in range(c.int(0, 3)):
            k = c.draw(6)
            if k < 2:
                i = self.fresh()

                def run(st, i=i):
                    st['out'].append(str(i))
                items.append(('(begin (write %d) (newline))' % i if c.bool(.3) else '(note %d)' % i, run))
            elif k < 4:
                i, v = self.fresh(), c.pick(names)

                def run(st, i=i, v=v):
                    st['vars'][v] = i
                items.append(('(define %s %d)' % (v, i), run))
            elif d > 0:
                self.features.add('nested')
                items.append(self.clauses(lambda: self.forms(d - 1, names, where)))
        return ' '.join(t for t, _ in items), lambda st: [r(st) for _, r in items]

    def expression(self, d):
        """(text, function of the state that gives the value)"""
        c = self.c
        if d > 0 and c.bool(.5):
            self.features.add('expression')

            def body():
                xs = [self.expression(d - 1) for _ in range(c.int(1, 3))]
                return ' '.join(t for t, _ in xs), lambda st: [f(st) for _, f in xs][-1]
            return self.clauses(body)
        if c.bool(.3):
            i = self.fresh()

            def run(st):
                st['out'].append(str(i))
                return str(i)
            return '(note %d)' % i, run
        i = self.fresh()
        return str(i), lambda st: str(i)

    def definitions(self, d, names):
        """Definitions at the head of a body: each of the names at most once."""
        c = self.c
        mine = [n for n in names if c.bool(.6)]
        items = []
        rest = list(mine)
        while rest:
            k = c.int(1, len(rest))
            part, rest = rest[:k], rest[k:]
            if d > 0 and c.bool(.5):
                self.features.add('definitions in a body')
                items.append(self.clauses(lambda part=part: self.definitions(d - 1, part)))
            else:
                for v in part:
                    i = self.fresh()

                    def run(st, i=i, v=v):
                        st['local'][v] = i
                    items.append(('(define %s %d)' % (v, i), run))
        return ' '.join(t for t, _ in items), lambda st: [r(st) for _, r in items]

    def library(self, k):
        c = self.c
        self.features.add('library')
        decls = []

        def chosen(f):
            decls.append(self.clauses(f))

        def define(v):
            def one():
                i = self.fresh()

                def run(st, i=i):
                    st['lib'][v] = i
                t = '(begin (define %s %d))' % (v, i)
                return (self.clauses(one) if c.bool(.15) else (t, run))
            return one

        def imported():
            v, x = c.pick([('p', 71), ('q', 72)])

            def run(st):
                st['lib']['w'] = x
            return '(import (rename (only (t there) %s) (%s w)))' % (v, v), run
        chosen(imported)
        chosen(define('va'))
        chosen(define('vb'))

        def exported():
            v = c.pick(['va', 'vb', 'w'])

            def run(st):
                st['export'] = v
            return '(export (rename %s e))' % v, run
        ex = self.clauses(exported)
        text = '(define-library (t lib%d) (import (scheme base)) %s %s)' % (k, ' '.join(t for t, _ in decls), ex[0])

        def run(st):
            st['lib'] = {}
            for _, r in decls:
                r(st)
            ex[1](st)
            st['out'].append(str(st['lib'][st['export']]))
        return text + '\n(import (prefix (t lib%d) l%d-))\n' % (k, k), '(note l%d-e)' % k, run


class Check(pbt.Property):
    id = 'P25'
    program = True
    quick = 2400
    thorough = 40000
    rule = 'the program has a cond-expand with a compound requirement and more than one clause'
    assumptions = ['every cond-expand has a clause that holds (R7RS leaves the other case open)', 'library requirements name libraries that were defined before, or that exist nowhere']

    def gen(self, c):
        g = Gen(c)
        names = ['a', 'b', 'd']
        text = [LIBS]
        uses = []
        for k in range(c.pick([0, 0, 1, 2])):
            t, u, r = g.library(k)
            text.append(t)
            uses.append((u, r))
        text.append("(import (scheme base) (scheme write))\n(write (features)) (newline)\n(define (note x) (write x) (newline) x)\n(define a 0) (define b 0) (define d 0)\n")
        runs = []
        for u, r in uses:
            text.append(u)
            runs.append(r)
        for _ in range(c.int(1, 4)):
            k = c.draw(5)
            if k < 2:
                t, r = g.clauses(lambda: g.forms(3, names, 'top'))
                text.append(t)
                runs.append(r)
            elif k == 2:
                t, f = g.expression(3)
                if c.bool(.3) and 'define' not in t:
                    g.features.add('macro')
                    m = 'm%d' % g.fresh()
                    text.append('(define-syntax %s (syntax-rules () ((_) %s)))' % (m, t))
                    t = '(%s)' % m
                text.append('(note (list %s))' % t)

                def run(st, f=f):
                    st['out'].append('(%s)' % f(st))
                runs.append(run)
            else:
                t, r = g.definitions(2, names)
                text.append('(let () %s (note (list a b d)))' % t)

                def run(st, r=r):
                    st['local'] = {}
                    r(st)
                    st['out'].append('(%s)' % ' '.join(str(st['local'].get(n, st['vars'].get(n, 0))) for n in names))
                runs.append(run)
            text.append('(note (list a b d))')

            def run(st):
                st['out'].append('(%s)' % ' '.join(str(st['vars'].get(n, 0)) for n in names))
            runs.append(run)

        def judge(out):
            ls = [l for l in out.split('\n') if l]
            if not ls or not ls[0].startswith('('):
                return 'no features: %r' % out
            st = {'features': set(ls[0][1:-1].split()), 'out': [], 'vars': {}}
            for r in runs:
                r(st)
            if ls[1:] != st['out']:
                return 'expected %s, got %s' % (' '.join(st['out']), ' '.join(ls[1:]))
        return pbt.Case('\n'.join(text), judge=judge, nontrivial={'compound', 'clauses'} <= g.features, labels=sorted(g.features))
