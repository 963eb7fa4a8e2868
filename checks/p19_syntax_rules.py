"""syntax-rules: generated rules and uses against a matcher and an instantiator written from R7RS 4.3.2."""
import pbt
import sx
from sx import Sym as S, Dot, Vec

NAMES = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z']
LITS = ['lit', 'else', '=>', 'to']
FREE = ['f', 'g', 'foo', 'if', 'list', 'let']       # symbols of templates that are no pattern variables


class Ell(list):
    """A sequence of sub-patterns or templates with one element, at position self.at, followed by an ellipsis."""


class Seq:
    """head (list), optional repeated element, rest (list), tail: None, or the part after a dot."""

    def __init__(self, head, rep=None, rest=(), tail=None, vec=False, esc=False):
        self.head, self.rep, self.rest, self.tail, self.vec = list(head), rep, list(rest), tail, vec


class Esc:
    def __init__(self, t):
        self.t = t


class Bad(Exception):
    pass


# --- patterns

class Pat:
    def __init__(self, c, lits, ell, under):
        self.c, self.lits, self.ell, self.under = c, lits, ell, under
        self.vars = {}          # name -> (depth, group)
        self.names = list(NAMES)
        self.groups = 0
        self.features = set()

    def var(self, depth, group):
        if not self.names:
            return self.datum()
        n = self.names.pop(self.c.draw(len(self.names)))
        self.vars[n] = (depth, tuple(group))
        return S(n)

    def datum(self):
        c = self.c
        return c.pick([0, 1, 'str', True, sx.Char('a'), 2.5, b'\1\2', 10 ** 20])

    def gen(self, d, depth=0, group=()):
        c = self.c
        k = c.draw(12) if d > 0 else c.draw(6)
        if k <= 2:
            return self.var(depth, group)
        if k == 3 and self.under:
            self.features.add('underscore')
            return S('_')
        if k == 4 and self.lits:
            self.features.add('literal')
            return S(c.pick(self.lits))
        if k == 5:
            return self.datum() if c.bool(0.7) else []
        return self.seq(d - 1, depth, group, vec=k == 11)

    def seq(self, d, depth, group, vec=False, minhead=0):
        c = self.c
        head = [self.gen(d, depth, group) for _ in range(c.int(0, 2))]
        rep, rest, tail = None, [], None
        if c.bool(0.5):
            self.groups += 1
            self.features.add('ellipsis' if depth == 0 else 'nested')
            rep = self.gen(d, depth + 1, tuple(group) + (self.groups,))
            if c.bool(0.4):
                self.features.add('after')
                rest = [self.gen(d, depth, group) for _ in range(c.int(1, 2))]
        if not vec and c.bool(0.2) and (head or rep is not None):
            self.features.add('dotted')
            tail = self.var(depth, group) if c.bool(0.8) or not self.under else S('_')
            if not isinstance(tail, S):
                tail = None
        if vec:
            self.features.add('vector')
        return Seq(head, rep, rest, tail, vec)


def is_list(x):
    return isinstance(x, (list, Dot)) and not isinstance(x, Vec)


def parts(x):
    """items and tail of a pair chain"""
    if isinstance(x, Dot):
        return list(x.items), x.tail
    if isinstance(x, list) and not isinstance(x, Vec):
        return list(x), None
    return [], x


def unparts(items, tail):
    if tail is None:
        return list(items)
    if not items:
        return tail
    i2, t2 = parts(tail) if is_list(tail) else ([], tail)
    items = list(items) + i2
    return list(items) if t2 is None else Dot(items, t2)


def match(p, x, env, lits):
    if isinstance(p, S):
        if p.name in lits:
            return isinstance(x, S) and x.name == p.name and ('!' + p.name) not in env
        if p.name != '_':
            env[p.name] = x
        return True
    if isinstance(p, Seq):
        if p.vec:
            if not isinstance(x, Vec):
                return False
            items, tail = list(x), None
        else:
            if not is_list(x):
                # an empty head with an ellipsis and a tail matches anything
                if p.head or p.rest or (p.tail is None):
                    return False
                items, tail = [], x
            else:
                items, tail = parts(x)
        n = len(p.head) + len(p.rest)
        if len(items) < n or (p.rep is None and p.tail is None and len(items) > n):
            return False
        if p.tail is None and tail is not None:
            return False
        h = len(p.head)
        for q, y in zip(p.head, items):
            if not match(q, y, env, lits):
                return False
        if p.rep is None:
            mid, end = h, h
        else:
            mid, end = h, len(items) - len(p.rest)
        if p.rep is not None:
            envs = []
            for y in items[mid:end]:
                e = {k: v for k, v in env.items() if k[0] == '!'}
                if not match(p.rep, y, e, lits):
                    return False
                envs.append(e)
            for v in variables(p.rep, lits):
                env[v] = [e[v] for e in envs]
        for q, y in zip(p.rest, items[end:]):
            if not match(q, y, env, lits):
                return False
        if p.tail is not None:
            return match(p.tail, unparts(items[end + len(p.rest):], tail), env, lits)
        return True
    if isinstance(p, list):
        return is_list(x) and not isinstance(x, Dot) and len(x) == 0
    return sx.same(p, x)


def variables(p, lits):
    if isinstance(p, S):
        return [] if p.name == '_' or p.name in lits else [p.name]
    if isinstance(p, Seq):
        out = []
        for q in p.head + ([p.rep] if p.rep is not None else []) + p.rest + ([p.tail] if p.tail is not None else []):
            out += variables(q, lits)
        return out
    return []


# --- templates

class Tem:
    def __init__(self, c, vars, lits, ell):
        self.c, self.vars, self.lits, self.ell = c, vars, lits, ell
        self.fuel = 14
        self.features = set()

    def leaf(self, depth, group):
        """Something without an ellipsis inside `depth' ellipses that iterate the groups `group'."""
        c = self.c
        ok = [v for v, (n, g) in self.vars.items() if n <= depth and g == tuple(group[:n])]
        if ok and c.bool(0.8):
            return S(c.pick(ok))
        return c.pick([S(c.pick(FREE)), 1, 'str', False, [], sx.Char('z'), S(c.pick(self.lits)) if self.lits else 3])

    def gen(self, d, depth=0, group=(), esc=False):
        c = self.c
        self.fuel -= 1
        if d <= 0 or self.fuel <= 0:
            return self.leaf(depth, group)
        k = c.draw(10)
        if k < 3:
            return self.leaf(depth, group)
        if k == 3 and not esc:
            self.features.add('escape')
            return Esc(self.gen(d - 1, depth, group, True) if c.bool() else S(self.ell))
        return self.seq(d - 1, depth, group, esc, vec=k == 9)

    def seq(self, d, depth, group, esc, vec=False):
        c = self.c
        group = tuple(group)
        head = [self.gen(d, depth, group, esc) for _ in range(c.int(0, 2))]
        rep, rest, tail = None, [], None
        # an ellipsis needs a variable that is deeper in a group that continues this one
        drivers = [v for v, (n, g) in self.vars.items() if n > depth and g[:depth] == group]
        if esc:
            if c.bool(0.4):
                head.append(S(self.ell))
        elif drivers and c.bool(0.75):
            v = c.pick(drivers)
            g = self.vars[v][1][:depth + 1]
            for _ in range(4):
                rep = self.gen(d, depth + 1, g, esc)
                if drives(rep, depth + 1, self.vars):
                    break
            else:
                rep = self.down(v, depth + 1)
            self.features.add('ellipsis')
            rest = [self.gen(d, depth, group, esc) for _ in range(c.int(0, 2))]
        if not vec and (head or rep is not None) and c.bool(0.15):
            tail = self.leaf(depth, group)
        if vec:
            self.features.add('vector')
        return Seq(head, rep, rest, tail, vec)

    def down(self, v, depth):
        n = self.vars[v][0]
        return S(v) if n <= depth else Seq([], self.down(v, depth + 1))


def drives(t, depth, vars):
    """Does the template have a variable of at least that depth, to iterate over?"""
    if isinstance(t, S):
        return t.name in vars and vars[t.name][0] >= depth
    if isinstance(t, Esc):
        return drives(t.t, depth, vars)
    if isinstance(t, Seq):
        return any(drives(q, depth, vars) for q in t.head + ([t.rep] if t.rep is not None else []) + t.rest + ([t.tail] if t.tail is not None else []))
    return False


def tvars(t, env):
    if isinstance(t, S):
        return {t.name} if t.name in env else set()
    if isinstance(t, Esc):
        return tvars(t.t, env)
    if isinstance(t, Seq):
        out = set()
        for q in t.head + ([t.rep] if t.rep is not None else []) + t.rest + ([t.tail] if t.tail is not None else []):
            out |= tvars(q, env)
        return out
    return set()


def build(t, env, depths, level=0):
    if isinstance(t, S):
        return env.get(t.name, t)
    if isinstance(t, Esc):
        return build(t.t, env, depths, level)
    if isinstance(t, Seq):
        items = [build(q, env, depths, level) for q in t.head]
        if t.rep is not None:
            vs = [v for v in tvars(t.rep, env) if depths.get(v, 0) > level]
            if not vs:
                raise Bad
            if len({len(env[v]) for v in vs}) != 1:
                raise Bad
            for i in range(len(env[vs[0]])):
                items.append(build(t.rep, {**env, **{v: env[v][i] for v in vs}}, depths, level + 1))
        items += [build(q, env, depths, level) for q in t.rest]
        if t.vec:
            return Vec(items)
        return unparts(items, None if t.tail is None else build(t.tail, env, depths, level))
    return t


def code(t, ell, lit=sx.datum):
    """Source of a pattern or template."""
    if isinstance(t, Esc):
        return '(%s %s)' % (ell, code(t.t, ell))
    if isinstance(t, Seq):
        xs = [code(q, ell) for q in t.head]
        if t.rep is not None:
            xs += [code(t.rep, ell), ell]
        xs += [code(q, ell) for q in t.rest]
        if t.vec:
            return '#(' + ' '.join(xs) + ')'
        if t.tail is not None:
            xs += ['.', code(t.tail, ell)]
        return '(' + ' '.join(xs) + ')'
    return sx.datum(t)


class Check(pbt.Property):
    id = 'P19'
    imports = ''
    batch = 60
    quick = 110
    thorough = 12000
    rule = 'the rule that is used has an ellipsis, a dotted or vector pattern, a literal or an escaped template'
    assumptions = ['the matcher and instantiator in checks/p19_syntax_rules.py (R7RS 4.3.2)',
                   'a variable iterates with the outermost ellipses of its template when there are more of them than its depth (SRFI 149)',
                   'variables that iterate together have the same number of matches']

    def instance(self, p, lits, d=2):
        """A datum that the pattern matches, most of the time."""
        c = self.c
        if c.bool(0.03):
            return self.any(1)
        if isinstance(p, S):
            if p.name in lits:
                return p
            return self.any(d)
        if isinstance(p, Seq):
            items = [self.instance(q, lits) for q in p.head]
            if p.rep is not None:
                items += [self.instance(p.rep, lits) for _ in range(c.int(0, 3))]
            items += [self.instance(q, lits) for q in p.rest]
            if p.vec:
                return Vec(items)
            if p.tail is not None:
                t = self.any(1)
                return unparts(items, None if is_list(t) and not isinstance(t, Dot) and not t else t)
            return items
        return p

    def any(self, d):
        c = self.c
        k = c.draw(10)
        if d <= 0 or k < 5:
            return c.pick([1, 2, 3, S('p'), S('q'), S('lit'), S('else'), 'str', True, [], 0, sx.Char('a'), 2.5])
        if k < 8:
            return [self.any(d - 1) for _ in range(c.int(0, 3))]
        if k == 8:
            return unparts([self.any(d - 1)], self.any(0))
        return Vec(self.any(d - 1) for _ in range(c.int(0, 3)))

    def gen(self, c):
        self.c = c
        lits = c.sample(LITS, c.draw(3))
        ell = c.weighted([(5, '...'), (1, ':::'), (1, 'etc')])
        if c.bool(0.05):
            lits = lits + ['_']
        features = set()
        rules = []
        for _ in range(c.int(1, 3)):
            p = Pat(c, [l for l in lits if l != '_'], ell, True)
            pat = p.seq(3, 0, ())
            if '_' in lits:
                p.features.add('literal underscore')
            t = Tem(c, p.vars, lits, ell)
            tem = t.gen(4)
            rules.append((pat, tem, {v: n for v, (n, _) in p.vars.items()}, p.features | t.features))
        # one use, for some rule
        uses = []
        for _ in range(c.int(1, 3)):
            x = self.instance(c.pick(rules)[0], lits) if c.bool(0.9) else [self.any(2) for _ in range(c.int(0, 3))]
            if not is_list(x):
                x = [x]
            shadow = [l for l in lits if l not in ('_',) and c.bool(0.15)]
            expect = None
            for i, (pat, tem, depths, fs) in enumerate(rules):
                env = {'!' + l: True for l in shadow}
                if match(pat, x, env, lits):
                    try:
                        env = {k: v for k, v in env.items() if k[0] != '!'}
                        expect = [i, build(tem, env, depths)]
                        features |= fs
                    except Bad:
                        return pbt.Case("'()", '()', nontrivial=False)
                    break
            if expect is None:
                expect = S('none')
            u = '(mac . %s)' % sx.datum(x)
            if shadow:
                features.add('shadowed literal')
                u = '(let (%s) %s)' % (' '.join('(%s 0)' % l for l in shadow), u)
            uses.append((u, expect))
        spec = '(syntax-rules %s(%s) %s (%s 0 %s))' % (
            ell + ' ' if ell != '...' or c.bool(0.1) else '', ' '.join(lits),
            ' '.join("((_ . %s) '(%d %s))" % (code(p, ell), i, code(t, ell)) for i, (p, t, _, _) in enumerate(rules)),
            '(_ . rest)', "'none")
        spec = spec.replace("((_ . rest) 0 'none)", "((_ . rest) 'none)")
        body = '(list %s)' % ' '.join(u for u, _ in uses)
        k = c.draw(4)
        if k == 0:
            text = '(let-syntax ((mac %s)) %s)' % (spec, body)
        elif k == 1:
            text = '(letrec-syntax ((mac %s)) %s)' % (spec, body)
        elif k == 2:
            text = '(let () (define-syntax mac %s) %s)' % (spec, body)
        else:
            # a macro that makes the macro: the inner text goes through another template unharmed
            out = ':::' if ell != ':::' else 'more'
            features.add('macro-made macro')
            text = '(let () (define-syntax make (syntax-rules %s () ((_ n) (define-syntax n %s)))) (make mac) %s)' % (out, spec, body)
        return pbt.Case(text, expect=sx.show([e for _, e in uses]), nontrivial=bool(features), labels=sorted(features))
