"""Libraries and import sets, against a model of names and locations."""
import pbt

POOL = ['x', 'y', 'z', 'w', 'v', 'xy', 'xx', 'p:x', 'f', 'g', 'h', 'px', 'gy', '|a b|', 'yx']
LIBS = ['(t a)', '(t b)', '(t a b)', '(t 1)', '(t 1 b)', '(u a)', '(u 2)', '(t only)']
PREFIXES = ['x', 'y', 'p:', 'g', 'p']


class Loc:
    def __init__(self, kind, where, name, value=None, env=None, arg=None):
        self.kind, self.where, self.name, self.value, self.env, self.arg = kind, where, name, value, env, arg


def ident(s):
    return s


class Gen:
    def __init__(self, c):
        self.c, self.unique = c, 100
        self.features = set()
        self.libs = []   # (name, exports, depends)

    def fresh(self):
        self.unique += 1
        return self.unique

    def subset(self, xs, lo=0):
        xs = sorted(xs)
        return [x for x in xs if self.c.bool(.5)] or (self.c.sample(xs, 1) if lo and xs else [])

    def modify(self, text, names):
        c = self.c
        k = c.draw(5)
        if not names:
            k = 4 if k == 4 else 0
        if k == 0:
            return text, names
        if k == 1:
            keep = self.subset(names, 1)
            c_keep = c.shuffle(keep)
            self.features.add('only')
            return '(only %s %s)' % (text, ' '.join(c_keep)), {n: names[n] for n in keep}
        if k == 2:
            drop = self.subset(names)
            self.features.add('except')
            return '(except %s %s)' % (text, ' '.join(drop)), {n: l for n, l in names.items() if n not in drop}
        if k == 3:
            for _ in range(4):
                olds = c.shuffle(self.subset(names, 1))
                how = c.draw(3)
                if how == 0 and len(olds) > 1:       # a permutation of names
                    news = olds[1:] + olds[:1]
                    self.features.add('rename permutes')
                elif how == 1:                         # a chain that ends in a new name
                    news = olds[1:] + [c.pick(POOL)]
                    self.features.add('rename chain')
                else:
                    news = [c.pick(POOL) for _ in olds]
                m = dict(zip(olds, news))
                out = [m.get(n, n) for n in names]
                if len(set(out)) == len(out):
                    self.features.add('rename')
                    return '(rename %s %s)' % (text, ' '.join('(%s %s)' % p for p in zip(olds, news))), {m.get(n, n): l for n, l in names.items()}
            return text, names
        p = c.pick(PREFIXES)
        if any('|' in n for n in names):
            return text, names
        self.features.add('prefix')
        return '(prefix %s %s)' % (text, p), {p + n: l for n, l in names.items()}

    def import_set(self, env, k):
        c = self.c
        name, exports, _ = self.libs[k]
        text, names = name, dict(exports)
        depth = c.pick([0, 1, 1, 2, 2, 3, 4])
        for _ in range(depth):
            text, names = self.modify(text, names)
        clash = sorted(n for n, l in names.items() if n in env and env[n] is not l)
        if clash:
            self.features.add('clash avoided')
            text = '(except %s %s)' % (text, ' '.join(clash))
            names = {n: l for n, l in names.items() if n not in clash}
        if any(n in env for n in names):
            self.features.add('same binding twice')
        if depth > 1:
            self.features.add('nested')
        return text, names

    def imports(self, upto, most):
        c = self.c
        env, texts, deps = {}, [], set()
        if upto:
            for _ in range(c.int(0 if upto < len(LIBS) else 1, most)):
                k = c.draw(upto)
                t, names = self.import_set(env, k)
                env.update(names)
                texts.append(t)
                deps.add(k)
        return env, texts, deps

    def library(self, i):
        c = self.c
        env, texts, deps = self.imports(i, 3)
        here = LIBS[i]
        defs = []
        own = {}
        free = [n for n in POOL if n not in env]
        names = c.sample(free, c.int(1, 6))
        for n in names:
            vs = [m for m, l in sorted({**env, **own}.items()) if l.kind == 'var']
            ours = [m for m, l in sorted(own.items()) if l.kind == 'var']
            kind = c.weighted([(5, 'var'), (3, 'get'), (4, 'set'), (3, 'macro'), (3, 'lit')])
            if kind in ('get', 'macro', 'lit') and not vs or kind == 'set' and not ours:
                kind = 'var'
            if kind == 'var':
                l = Loc('var', i, n, self.fresh())
                defs.append('(define %s %d)' % (n, l.value))
            elif kind == 'get':
                v = c.pick(vs)
                l = Loc('get', i, n, arg={**env, **own}[v])
                defs.append('(define (%s) %s)' % (n, v))
            elif kind == 'set':
                v = c.pick(ours)
                l = Loc('set', i, n, arg=own[v])
                defs.append('(define (%s k) (set! %s k) k)' % (n, v))
            elif kind == 'macro':
                v = c.pick(vs)
                l = Loc('macro', i, n, arg={**env, **own}[v])
                defs.append('(define-syntax %s (syntax-rules () ((_ e) (list %s e))))' % (n, v))
            else:
                v = c.pick(vs)
                l = Loc('lit', i, n, arg={**env, **own}[v])
                defs.append("(define-syntax %s (syntax-rules (%s) ((_ %s) 'literal) ((_ e) 'other)))" % (n, v, v))
            own[n] = l
        env.update(own)
        exports, specs = {}, []
        for n in c.shuffle(sorted(env)):
            if not c.bool(.7):
                continue
            e = n
            if c.bool(.3):
                e = c.pick(POOL)
            if e in exports:
                continue
            exports[e] = env[n]
            if n not in own:
                self.features.add('re-export')
            if e != n:
                self.features.add('export rename')
            specs.append(n if e == n else '(rename %s %s)' % (n, e))
        # declarations in some order; definitions in theirs
        k = c.int(0, len(defs))
        begins = ['(begin (display "<%d>") (newline) %s)' % (i, ' '.join(defs[:k])), '(begin %s)' % ' '.join(defs[k:])] if defs[k:] else ['(begin (display "<%d>") (newline) %s)' % (i, ' '.join(defs))]
        m = c.int(0, len(specs))
        exps = ['(export %s)' % ' '.join(s) for s in (specs[:m], specs[m:]) if s or c.bool(.2)]
        imps = ['(scheme base)', '(only (scheme write) display)'] + texts
        q = c.int(1, len(imps))
        decls = ['(import %s)' % ' '.join(imps[:q])] + (['(import %s)' % ' '.join(imps[q:])] if imps[q:] else []) + begins
        for e in exps:
            decls.insert(c.draw(len(decls) + 1), e)
        self.libs.append((here, exports, deps))
        return '(define-library %s %s)' % (here, '\n  '.join(decls)), env

    def observe(self, env):
        """An expression of the program and what it must write."""
        c = self.c
        n = c.pick(sorted(env))
        l = env[n]
        if l.kind == 'var':
            return n, str(l.value)
        if l.kind == 'get':
            return '(%s)' % n, str(l.arg.value)
        if l.kind == 'set':
            l.arg.value = self.fresh()
            self.features.add('set by exporter')
            return '(%s %d)' % (n, l.arg.value), str(l.arg.value)
        if l.kind == 'macro':
            k = self.fresh()
            return '(%s %d)' % (n, k), '(%d %d)' % (l.arg.value, k)
        vs = [m for m in sorted(env) if env[m].kind == 'var']
        if not vs:
            return "'none", 'none'
        m = c.pick([v for v in vs if env[v] is l.arg] or vs) if c.bool() else c.pick(vs)
        if env[m] is l.arg and m != l.arg.name:
            self.features.add('literal under another name')
        return '(%s %s)' % (n, m), 'literal' if env[m] is l.arg else 'other'


class Check(pbt.Property):
    id = 'P24'
    batch = 1
    program = True
    quick = 2400
    thorough = 40000
    timeout = 20.0
    rule = 'the program imports through only, except, prefix or rename, and reads an imported name'
    assumptions = ['programs and libraries in which an identifier would be imported with two different bindings, or an imported one defined, are errors and not generated']

    def gen(self, c):
        g = Gen(c)
        n = c.int(1, 5)
        text = []
        hidden = set()
        for i in range(n):
            t, env = g.library(i)
            text.append(t)
            hidden |= set(env)
        env, sets, deps = {}, [], set()
        for _ in range(c.int(1, 5)):
            k = c.draw(n)
            t, names = g.import_set(env, k)
            env.update(names)
            sets.append(t)
            deps.add(k)
        imported = set(env)
        k = c.int(0, len(sets))
        text.append('(import %s)' % ' '.join(sets[:k] + ['(scheme base) (scheme write)']))
        if sets[k:]:
            text.append('(import %s)' % ' '.join(sets[k:]))
        for m in c.shuffle(sorted(hidden - set(env)))[:c.int(0, 3)]:
            env[m] = Loc('var', 'program', m, g.fresh())
            text.append('(define %s %d)' % (m, env[m].value))
            g.features.add('program defines a hidden name')
        want = []
        if env:
            for _ in range(c.int(3, 14)):
                e, w = g.observe(env)
                text.append('(write %s) (newline)' % e)
                want.append(w)
        for m in sorted(hidden - set(env)):
            text.append("(write (let ((it %s)) (if (or (number? it) (procedure? it)) '%s 'hidden))) (newline)" % (m, m))
            want.append('hidden')
        todo, all_deps = list(deps), set()
        while todo:
            d = todo.pop()
            if d not in all_deps:
                all_deps.add(d)
                todo += g.libs[d][2]

        def judge(out):
            marks, rest = [], []
            for l in out.split('\n'):
                if l.startswith('<') and l.endswith('>'):
                    marks.append(int(l[1:-1]))
                elif l:
                    rest.append(l)
            for i in range(n):
                if marks.count(i) != 1 if i in all_deps else marks.count(i) > 1:
                    return 'the body of %s was evaluated %d times' % (LIBS[i], marks.count(i))
            for i in marks:
                for d in g.libs[i][2]:
                    if marks.index(d) > marks.index(i):
                        return 'the body of %s was evaluated after that of %s, which imports it' % (LIBS[d], LIBS[i])
            if rest != want:
                return 'expected %s, got %s' % (' '.join(want), ' '.join(rest))

        return pbt.Case('\n'.join(text), judge=judge, nontrivial=bool(imported) and bool(g.features & {'only', 'except', 'prefix', 'rename'}), labels=sorted(g.features))
