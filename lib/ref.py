"""A reference interpreter for R7RS in continuation-passing style.

Source is the data of sx.py (lists, Sym, ...); nothing is shared with the
library code under test: derived forms are interpreted here from the text of
the report.  Every continuation is an immutable Python closure, so capture and
re-entry need no special care; the dynamic environment (handlers, parameters)
and the wind list are registers of the machine.
"""
import sys
from fractions import Fraction

import sx
from sx import Sym

sys.setrecursionlimit(20000)


class Overrun(Exception):
    pass


class SchemeError(Exception):
    """A bug of the generated program (unbound variable, wrong type): the case is not valid."""


class Pair:
    __slots__ = ('car', 'cdr')

    def __init__(self, a, d):
        self.car, self.cdr = a, d


class Nil:
    def __repr__(self):
        return '()'


NIL = Nil()


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = list(s)


class VecO:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


class Values:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Closure:
    __slots__ = ('clauses', 'env')

    def __init__(self, clauses, env):
        self.clauses, self.env = clauses, env


class Prim:
    __slots__ = ('name', 'fn', 'full')

    def __init__(self, name, fn, full=False):
        self.name, self.fn, self.full = name, fn, full


class Cont:
    __slots__ = ('k', 'winds', 'dyn')

    def __init__(self, k, winds, dyn):
        self.k, self.winds, self.dyn = k, winds, dyn


class Param:
    __slots__ = ('value', 'conv')

    def __init__(self, value, conv):
        self.value, self.conv = value, conv


class Promise:
    __slots__ = ('box',)

    def __init__(self, done, value):
        self.box = [done, value]


class Err:
    __slots__ = ('msg', 'irritants', 'system')

    def __init__(self, msg, irritants):
        self.msg, self.irritants = msg, irritants
        self.system = False


class RecType:
    __slots__ = ('name', 'fields')

    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Rec:
    __slots__ = ('type', 'vals')

    def __init__(self, type, vals):
        self.type, self.vals = type, vals


UNSPEC = sx.UNSPEC
UNASSIGNED = sx.Const('#;unassigned')


class Env:
    __slots__ = ('vars', 'up')

    def __init__(self, vars, up):
        self.vars, self.up = vars, up

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.up
        return None


def to_list(xs, tail=NIL):
    for x in reversed(xs):
        tail = Pair(x, tail)
    return tail


def from_list(p):
    out = []
    while isinstance(p, Pair):
        out.append(p.car)
        p = p.cdr
    if p is not NIL:
        raise SchemeError('improper list')
    return out


def heap(x):
    """sx datum -> heap value"""
    if isinstance(x, sx.Vec):
        return VecO(map(heap, x))
    if isinstance(x, list):
        return to_list([heap(y) for y in x])
    if isinstance(x, sx.Dot):
        return to_list([heap(y) for y in x.items], heap(x.tail))
    if isinstance(x, str):
        return Str(x)
    return x


def unheap(v):
    """heap value -> sx datum (for show)"""
    if isinstance(v, Pair):
        items = []
        n = 0
        while isinstance(v, Pair):
            items.append(unheap(v.car))
            v = v.cdr
            n += 1
            if n > 5000:
                raise SchemeError('circular')
        return items if v is NIL else sx.Dot(items, unheap(v))
    if v is NIL:
        return []
    if isinstance(v, VecO):
        return sx.Vec(map(unheap, v.v))
    if isinstance(v, Str):
        return ''.join(v.s)
    return v


def eqv(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.name == b.name
    if isinstance(a, sx.Char) and isinstance(b, sx.Char):
        return a.cp == b.cp
    return False


def equal(a, b):
    if eqv(a, b):
        return True
    if isinstance(a, Pair) and isinstance(b, Pair):
        while isinstance(a, Pair) and isinstance(b, Pair):
            if not equal(a.car, b.car):
                return False
            a, b = a.cdr, b.cdr
        return equal(a, b)
    if isinstance(a, VecO) and isinstance(b, VecO):
        return len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    return False


S = Sym
_else, _arrow, _dots, _dot = S('else'), S('=>'), S('...'), S('.')


def truthy(v):
    return v is not False


class Machine:
    def __init__(self, limit=200000):
        self.globals = Env({}, None)
        self.winds = None          # linked list: (before, after, dyn, next, depth)
        self.dyn = (None, None)    # (handler stack, parameter bindings), both linked
        self.steps = 0
        self.limit = limit
        self.out = []
        self.system_errors = False  # are errors of primitives raised in the program?
        self.moved = 0              # winding thunks that continuations ran
        self.raised = 0
        for name, fn in PRIMS.items():
            self.globals.vars[name] = Prim(name, fn)
        for name, fn in FULL.items():
            self.globals.vars[name] = Prim(name, fn, True)
        # R7RS library procedures that call procedures, written in Scheme
        for name, code in SCHEME:
            self.run(code)

    # -- driver --------------------------------------------------------------
    def run(self, expr, env=None):
        res = []

        def done(v):
            res.append(v)
            return None
        b = self.ev(expr, env or self.globals, done)
        while b is not None:
            self.steps += 1
            if self.steps > self.limit:
                raise Overrun()
            b = b()
        if not res:
            raise SchemeError('no result')
        return res[0]

    # -- eval ----------------------------------------------------------------
    def ev(self, x, env, k):
        if isinstance(x, Sym):
            e = env.find(x.name)
            if e is None:
                raise SchemeError('unbound ' + x.name)
            v = e.vars[x.name]
            if v is UNASSIGNED:
                raise SchemeError('unassigned ' + x.name)
            return k(v)
        if not isinstance(x, list) or isinstance(x, sx.Vec):
            return k(heap(x))
        if not x:
            raise SchemeError('()')
        h = x[0]
        if isinstance(h, Sym) and h.name in FORMS and env.find(h.name) is None:
            return FORMS[h.name](self, x, env, k)
        return self.evlist(x, env, lambda vs: self.apply(vs[0], vs[1:], k))

    def evlist(self, xs, env, k):
        """Right to left."""
        def go(i, acc):
            if i < 0:
                return k(list(acc_list(acc)))
            return self.ev(xs[i], env, lambda v: go(i - 1, (v, acc)))
        return go(len(xs) - 1, None)

    def apply(self, f, args, k):
        if isinstance(f, Closure):
            for req, rest, body in f.clauses:
                if len(args) == len(req) or (rest is not None and len(args) > len(req)):
                    vs = dict(zip(req, args))
                    if rest is not None:
                        vs[rest] = to_list(args[len(req):])
                    return lambda: self.body(body, Env(vs, f.env), k)
            raise SchemeError('arity')
        if isinstance(f, Prim):
            if f.full:
                return lambda: f.fn(self, args, k)
            if self.system_errors:
                try:
                    v = f.fn(*args)
                except (SchemeError, TypeError, AttributeError):
                    return self.system(k)
                return k(v)
            return k(f.fn(*args))
        if isinstance(f, Cont):
            v = args[0] if len(args) == 1 else Values(args)
            return lambda: self.throw(f, v)
        if isinstance(f, Param):
            return k(self.param(f)[0])
        if self.system_errors:
            return self.system(k)
        raise SchemeError('not a procedure')

    def system(self, k):
        e = Err(Str('?'), NIL)
        e.system = True
        self.raised += 1
        return self.raise_(e, k, False)

    def param(self, p):
        """The cell of a parameter."""
        b = self.dyn[1]
        while b is not None:
            if b[0] is p:
                return b[1]
            b = b[2]
        return p.value

    def begin(self, xs, env, k):
        if not xs:
            return k(UNSPEC)
        if len(xs) == 1:
            return self.ev(xs[0], env, k)
        return self.ev(xs[0], env, lambda _: self.begin(xs[1:], env, k))

    def body(self, xs, env, k):
        """env is a frame of its own: internal definitions go into it."""
        if not xs or is_def(xs[-1], env):
            raise SchemeError('body without an expression')
        defs = [x for x in xs if is_def(x, env)]
        if defs and any(is_def(x, env) for x in xs[len(defs):]):
            raise SchemeError('definition after an expression')
        if defs:
            for d in defs:
                for n in defined(d):
                    if n not in env.vars:
                        env.vars[n] = UNASSIGNED
        return self.begin(xs, env, k)

    # -- control -----------------------------------------------------------------
    def throw(self, c, v):
        def go():
            if self.winds is c.winds:
                self.dyn = c.dyn
                return c.k(v)
            here, there = self.winds, c.winds
            hd = here[4] if here else 0
            td = there[4] if there else 0
            # common ancestor
            a, b = here, there
            while (a[4] if a else 0) > td:
                a = a[3]
            while (b[4] if b else 0) > hd:
                b = b[3]
            while a is not b:
                a, b = a[3], b[3]
            if here is not a:
                before, after, dyn, up, _ = here
                self.moved += 1
                self.winds = up
                self.dyn = dyn
                return self.apply(after, [], lambda _: go)
            # enter the outermost missing extent
            w = there
            while w[3] is not a:
                w = w[3]
            self.dyn = w[2]
            before = w[0]
            self.moved += 1

            def entered(_):
                self.winds = w
                return go
            return self.apply(before, [], entered)
        return go()

    def raise_(self, obj, k, continuable):
        self.raised += 1
        h = self.dyn[0]
        if h is None:
            raise Uncaught(obj)
        saved = self.dyn
        self.dyn = (h[1], saved[1])

        def back(v):
            if continuable:
                self.dyn = saved
                return k(v)
            # R7RS: a secondary exception in the same dynamic environment as the handler
            return self.raise_(SECONDARY, lambda v: v, False)
        return self.apply(h[0], [obj], back)


class Uncaught(Exception):
    def __init__(self, obj):
        self.obj = obj


SECONDARY = sx.Const('#;secondary')


def acc_list(a):
    while a is not None:
        yield a[0]
        a = a[1]


def is_def(x, env):
    return isinstance(x, list) and x and isinstance(x[0], Sym) and x[0].name in ('define', 'define-values', 'define-record-type', 'begin') \
        and env.find(x[0].name) is None and (x[0].name != 'begin' or any(is_def(y, env) for y in x[1:]))


def formals(f):
    if isinstance(f, Sym):
        return [], f.name
    if isinstance(f, sx.Dot):
        return [s.name for s in f.items], f.tail.name
    return [s.name for s in f], None


def defined(d):
    h = d[0].name
    if h == 'begin':
        return [n for y in d[1:] if isinstance(y, list) and y and isinstance(y[0], Sym) and y[0].name.startswith('define') for n in defined(y)]
    if h == 'define':
        t = d[1]
        while isinstance(t, (list, sx.Dot)):
            t = t[0] if isinstance(t, list) else t.items[0]
        return [t.name]
    if h == 'define-values':
        req, rest = formals(d[1])
        return req + ([rest] if rest else [])
    _, tname, ctor, pred, *fields = d
    out = [tname.name if isinstance(tname, Sym) else tname[0].name]
    if isinstance(ctor, Sym):
        out.append(ctor.name)
    elif isinstance(ctor, list):
        out.append(ctor[0].name)
    if isinstance(pred, Sym):
        out.append(pred.name)
    for f in fields:
        out += [s.name for s in f[1:]]
    return out


# -- special forms ---------------------------------------------------------------

FORMS = {}


def form(name):
    def deco(f):
        FORMS[name] = f
        return f
    return deco


@form('quote')
def _(m, x, env, k):
    return k(heap(x[1]))


@form('lambda')
def _(m, x, env, k):
    req, rest = formals(x[1])
    return k(Closure([(req, rest, x[2:])], env))


@form('case-lambda')
def _(m, x, env, k):
    return k(Closure([formals(c[0]) + (c[1:],) for c in x[1:]], env))


@form('if')
def _(m, x, env, k):
    def then(v):
        if truthy(v):
            return m.ev(x[2], env, k)
        return m.ev(x[3], env, k) if len(x) > 3 else k(UNSPEC)
    return m.ev(x[1], env, then)


@form('set!')
def _(m, x, env, k):
    def then(v):
        e = env.find(x[1].name)
        if e is None:
            raise SchemeError('set! of unbound')
        e.vars[x[1].name] = v
        return k(UNSPEC)
    return m.ev(x[2], env, then)


@form('define')
def _(m, x, env, k):
    t, body = x[1], x[2:]
    if isinstance(t, (list, sx.Dot)):
        # curried definitions are not generated
        name = (t[0] if isinstance(t, list) else t.items[0]).name
        f = t[1:] if isinstance(t, list) else (sx.Dot(t.items[1:], t.tail) if len(t.items) > 1 else t.tail)
        body = [[S('lambda'), f] + body]
    else:
        name = t.name

    def then(v):
        env.vars[name] = v
        return k(UNSPEC)
    if not body:
        return then(UNSPEC)
    return m.ev(body[0], env, then)


@form('define-values')
def _(m, x, env, k):
    req, rest = formals(x[1])

    def then(v):
        vs = v.v if isinstance(v, Values) else [v]
        if len(vs) < len(req) or (rest is None and len(vs) != len(req)):
            raise SchemeError('define-values')
        for n, y in zip(req, vs):
            env.vars[n] = y
        if rest is not None:
            env.vars[rest] = to_list(vs[len(req):])
        return k(UNSPEC)
    return m.ev(x[2], env, then)


@form('begin')
def _(m, x, env, k):
    return m.begin(x[1:], env, k)


@form('and')
def _(m, x, env, k):
    xs = x[1:]
    if not xs:
        return k(True)

    def go(i):
        if i == len(xs) - 1:
            return m.ev(xs[i], env, k)
        return m.ev(xs[i], env, lambda v: go(i + 1) if truthy(v) else k(v))
    return go(0)


@form('or')
def _(m, x, env, k):
    xs = x[1:]
    if not xs:
        return k(False)

    def go(i):
        if i == len(xs) - 1:
            return m.ev(xs[i], env, k)
        return m.ev(xs[i], env, lambda v: k(v) if truthy(v) else go(i + 1))
    return go(0)


@form('when')
def _(m, x, env, k):
    return m.ev(x[1], env, lambda v: m.begin(x[2:], env, k) if truthy(v) else k(UNSPEC))


@form('unless')
def _(m, x, env, k):
    return m.ev(x[1], env, lambda v: k(UNSPEC) if truthy(v) else m.begin(x[2:], env, k))


def cond_clauses(m, cs, env, k, no_match):
    def go(i):
        if i == len(cs):
            return no_match()
        c = cs[i]
        if c[0] == _else and env.find('else') is None:
            return m.begin(c[1:], env, k)

        def then(v):
            if not truthy(v):
                return go(i + 1)
            if len(c) == 1:
                return k(v)
            if c[1] == _arrow and env.find('=>') is None:
                return m.ev(c[2], env, lambda f: m.apply(f, [v], k))
            return m.begin(c[1:], env, k)
        return m.ev(c[0], env, then)
    return go(0)


@form('cond')
def _(m, x, env, k):
    return cond_clauses(m, x[1:], env, k, lambda: k(UNSPEC))


@form('case')
def _(m, x, env, k):
    def then(v):
        for c in x[2:]:
            if c[0] == _else or any(eqv(v, heap(d)) for d in c[0]):
                if c[1] == _arrow:
                    return m.ev(c[2], env, lambda f: m.apply(f, [v], k))
                return m.begin(c[1:], env, k)
        return k(UNSPEC)
    return m.ev(x[1], env, then)


@form('let')
def _(m, x, env, k):
    if isinstance(x[1], Sym):
        name, bs, body = x[1].name, x[2], x[3:]

        def go(vs):
            e = Env({}, env)
            f = Closure([([b[0].name for b in bs], None, body)], e)
            e.vars[name] = f
            return m.apply(f, vs, k)
        return m.evlist([b[1] for b in bs], env, go)
    bs, body = x[1], x[2:]
    return m.evlist([b[1] for b in bs], env,
                    lambda vs: m.body(body, Env(dict(zip([b[0].name for b in bs], vs)), env), k))


@form('let*')
def _(m, x, env, k):
    bs = x[1]

    def go(i, e):
        if i == len(bs):
            return m.body(x[2:], Env({}, e), k)
        return m.ev(bs[i][1], e, lambda v: go(i + 1, Env({bs[i][0].name: v}, e)))
    return go(0, env)


@form('letrec*')
def _letrecs(m, x, env, k):
    bs = x[1]
    e = Env({b[0].name: UNASSIGNED for b in bs}, env)

    def go(i):
        if i == len(bs):
            return m.body(x[2:], Env({}, e), k)

        def then(v):
            e.vars[bs[i][0].name] = v
            return go(i + 1)
        return m.ev(bs[i][1], e, then)
    return go(0)


@form('letrec')
def _(m, x, env, k):
    bs = x[1]
    e = Env({b[0].name: UNASSIGNED for b in bs}, env)

    def then(vs):
        for b, v in zip(bs, vs):
            e.vars[b[0].name] = v
        return m.body(x[2:], Env({}, e), k)
    return m.evlist([b[1] for b in bs], e, then)


@form('do')
def _(m, x, env, k):
    specs, test, body = x[1], x[2], x[3:]
    names = [s[0].name for s in specs]

    def loop(vs):
        e = Env(dict(zip(names, vs)), env)

        def then(v):
            if truthy(v):
                return m.begin(test[1:], e, k)

            def step(_):
                return m.evlist([s[2] if len(s) > 2 else s[0] for s in specs], e, lambda vs: (lambda: loop(vs)))
            return m.begin(body, e, step) if body else step(None)
        return m.ev(test[0], e, then)
    return m.evlist([s[1] for s in specs], env, loop)


def bind_formals(f, v):
    req, rest = formals(f)
    vs = v.v if isinstance(v, Values) else [v]
    if len(vs) < len(req) or (rest is None and len(vs) != len(req)):
        raise SchemeError('values')
    d = dict(zip(req, vs))
    if rest is not None:
        d[rest] = to_list(vs[len(req):])
    return d


@form('let-values')
def _(m, x, env, k):
    bs = x[1]

    def go(i, acc):
        if i == len(bs):
            return m.body(x[2:], Env(acc, env), k)
        return m.ev(bs[i][1], env, lambda v: go(i + 1, {**acc, **bind_formals(bs[i][0], v)}))
    return go(0, {})


@form('let*-values')
def _(m, x, env, k):
    bs = x[1]

    def go(i, e):
        if i == len(bs):
            return m.body(x[2:], Env({}, e), k)
        return m.ev(bs[i][1], e, lambda v: go(i + 1, Env(bind_formals(bs[i][0], v), e)))
    return go(0, env)


@form('receive')
def _(m, x, env, k):
    return m.ev(x[2], env, lambda v: m.body(x[3:], Env(bind_formals(x[1], v), env), k))


@form('parameterize')
def _(m, x, env, k):
    bs = x[1]

    def got(vs):
        ps, vals = vs[:len(bs)], vs[len(bs):]

        def conv(i, acc):
            if i == len(bs):
                saved = m.dyn
                b = saved[1]
                for p, v in zip(ps, acc):
                    b = (p, [v], b)
                m.dyn = (saved[0], b)

                def back(v):
                    m.dyn = saved
                    return k(v)
                return m.body(x[2:], Env({}, env), back)
            if ps[i].conv is None:
                return conv(i + 1, acc + [vals[i]])
            return m.apply(ps[i].conv, [vals[i]], lambda v: conv(i + 1, acc + [v]))
        return conv(0, [])
    return m.evlist([b[0] for b in bs] + [b[1] for b in bs], env, got)


@form('delay')
def _(m, x, env, k):
    return k(Promise(False, Closure([([], None, [[S('make-promise'), x[1]]])], env)))


@form('delay-force')
def _(m, x, env, k):
    return k(Promise(False, Closure([([], None, [x[1]])], env)))


@form('guard')
def _(m, x, env, k):
    var, clauses = x[1][0].name, x[1][1:]
    outer = Cont(k, m.winds, m.dyn)
    saved = m.dyn

    def handler(m_, args, hk):
        obj = args[0]
        inner = Cont(hk, m.winds, m.dyn)
        # run the clauses in the dynamic environment of guard

        def in_guard(_):
            e = Env({var: obj}, env)

            def no_match():
                # back into the raise, then raise-continuable there
                return m.throw(Cont(lambda _: m.raise_(obj, hk, True), inner.winds, inner.dyn), None)
            return cond_clauses(m, clauses, e, k, no_match)
        return m.throw(Cont(in_guard, outer.winds, outer.dyn), None)
    m.dyn = ((Prim('guard', handler, True), saved[0]), saved[1])

    def back(v):
        m.dyn = saved
        return k(v)
    return m.body(x[2:], Env({}, env), back)


@form('define-record-type')
def _(m, x, env, k):
    _, tname, ctor, pred, *fields = x
    tn = tname if isinstance(tname, Sym) else tname[0]
    names = [(f[0] if isinstance(f, list) else f).name for f in fields]
    t = RecType(tn.name, names)
    env.vars[tn.name] = t
    if isinstance(ctor, Sym):
        cn, cf = ctor.name, names
    elif isinstance(ctor, list):
        cn, cf = ctor[0].name, [s.name for s in ctor[1:]]
    else:
        cn = None
    if cn:
        def make(*args):
            vals = [UNSPEC] * len(names)
            if len(args) != len(cf):
                raise SchemeError('arity')
            for n, v in zip(cf, args):
                vals[names.index(n)] = v
            return Rec(t, vals)
        env.vars[cn] = Prim(cn, make)
    if isinstance(pred, Sym):
        env.vars[pred.name] = Prim(pred.name, lambda v: isinstance(v, Rec) and v.type is t)
    for i, f in enumerate(fields):
        if not isinstance(f, list):
            continue
        if len(f) > 1:
            def get(r, i=i):
                if not (isinstance(r, Rec) and r.type is t):
                    raise SchemeError('accessor')
                return r.vals[i]
            env.vars[f[1].name] = Prim(f[1].name, get)
        if len(f) > 2:
            def put(r, v, i=i):
                if not (isinstance(r, Rec) and r.type is t):
                    raise SchemeError('modifier')
                r.vals[i] = v
                return UNSPEC
            env.vars[f[2].name] = Prim(f[2].name, put)
    return k(UNSPEC)


@form('quasiquote')
def _(m, x, env, k):
    def qq(t, depth, k):
        if isinstance(t, sx.Vec):
            return qlist(list(t), None, depth, lambda l: k(VecO(from_list(l))))
        if isinstance(t, sx.Dot):
            # (a . ,b) is (a unquote b)
            return qlist(t.items, t.tail, depth, k)
        if not isinstance(t, list):
            return k(heap(t))
        if t and isinstance(t[0], Sym) and len(t) == 2:
            n = t[0].name
            if n == 'unquote':
                if depth == 0:
                    return m.ev(t[1], env, k)
                return qq(t[1], depth - 1, lambda v: k(to_list([t[0], v])))
            if n == 'quasiquote':
                return qq(t[1], depth + 1, lambda v: k(to_list([t[0], v])))
        return qlist(t, None, depth, k)

    def qlist(items, tail, depth, k):
        # (x y unquote e) is (x y . ,e)
        if tail is None and len(items) >= 2 and items[-2] == S('unquote'):
            tail = items[-2:]
            items = items[:-2]

        def go(i):
            if i == len(items):
                return lambda k: (qq(tail, depth, k) if tail is not None else k(NIL))
            t = items[i]
            rest = go(i + 1)
            if isinstance(t, list) and not isinstance(t, sx.Vec) and len(t) == 2 and t[0] == S('unquote-splicing'):
                if depth == 0:
                    last = i == len(items) - 1 and tail is None

                    def splice(k):
                        def after_rest(r):
                            return m.ev(t[1], env, lambda v: k(v if last else append2(v, r)))
                        return rest(after_rest)
                    return splice

                def nested(k):
                    return rest(lambda r: qlist([t[1]], None, depth - 1,
                                                lambda v: k(Pair(Pair(t[0], v), r))))
                return nested
            return lambda k: rest(lambda r: qq(t, depth, lambda v: k(Pair(v, r))))
        return go(0)(k)
    return qq(x[1], 0, k)


def append2(a, b):
    return to_list(from_list(a), b)


# -- primitives ---------------------------------------------------------------------

def num(*xs):
    for x in xs:
        if isinstance(x, bool) or not isinstance(x, (int, Fraction)):
            raise SchemeError('number expected')
    return xs


def norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def fold(f, unit):
    def g(*xs):
        num(*xs)
        acc = unit
        for x in xs:
            acc = f(acc, x)
        return norm(acc)
    return g


def minus(a, *xs):
    num(a, *xs)
    if not xs:
        return -a
    for x in xs:
        a = a - x
    return norm(a)


def chain(f):
    def g(*xs):
        num(*xs)
        return all(f(a, b) for a, b in zip(xs, xs[1:]))
    return g


def nz(b):
    num(b)
    if b == 0:
        raise SchemeError('zero')
    return b


def tq(a, b):
    num(a), nz(b)
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def car(p):
    if not isinstance(p, Pair):
        raise SchemeError('car')
    return p.car


def cdr(p):
    if not isinstance(p, Pair):
        raise SchemeError('cdr')
    return p.cdr


def set_car(p, v):
    car(p)
    p.car = v
    return UNSPEC


def set_cdr(p, v):
    car(p)
    p.cdr = v
    return UNSPEC


def idx(n, i):
    if isinstance(i, bool) or not isinstance(i, int) or not 0 <= i < n:
        raise SchemeError('index')
    return i


def vec(v):
    if not isinstance(v, VecO):
        raise SchemeError('vector')
    return v.v


def vset(v, i, x):
    vec(v)[idx(len(v.v), i)] = x
    return UNSPEC


def st(s):
    if not isinstance(s, Str):
        raise SchemeError('string')
    return s.s


def mem(eq):
    def f(x, l):
        while isinstance(l, Pair):
            if eq(x, l.car):
                return l
            l = l.cdr
        return False
    return f


def ass(eq):
    def f(x, l):
        while isinstance(l, Pair):
            if eq(x, car(l.car)):
                return l.car
            l = l.cdr
        return False
    return f


def append(*ls):
    if not ls:
        return NIL
    r = ls[-1]
    for l in reversed(ls[:-1]):
        r = append2(l, r)
    return r


def is_list(x):
    while isinstance(x, Pair):
        x = x.cdr
    return x is NIL


def tail(l, n):
    for _ in range(n):
        l = cdr(l)
    return l


def proc(x):
    return isinstance(x, (Closure, Prim, Cont, Param))


def isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


PRIMS = {
    '+': fold(lambda a, b: a + b, 0), '*': fold(lambda a, b: a * b, 1), '-': minus,
    '=': chain(lambda a, b: a == b), '<': chain(lambda a, b: a < b), '>': chain(lambda a, b: a > b),
    '<=': chain(lambda a, b: a <= b), '>=': chain(lambda a, b: a >= b),
    'quotient': tq, 'remainder': lambda a, b: a - b * tq(a, b), 'modulo': lambda a, b: num(a) and a % nz(b),
    'abs': lambda a: abs(*num(a)), 'max': lambda *a: max(num(*a)), 'min': lambda *a: min(num(*a)),
    'even?': lambda a: num(a)[0] % 2 == 0, 'odd?': lambda a: num(a)[0] % 2 == 1,
    'zero?': lambda a: num(a)[0] == 0, 'positive?': lambda a: num(a)[0] > 0, 'negative?': lambda a: num(a)[0] < 0,
    'number?': isnum, 'integer?': lambda a: isnum(a) and not isinstance(a, Fraction), 'not': lambda a: a is False,
    'boolean?': lambda a: isinstance(a, bool), 'symbol?': lambda a: isinstance(a, Sym), 'string?': lambda a: isinstance(a, Str),
    'char?': lambda a: isinstance(a, sx.Char), 'vector?': lambda a: isinstance(a, VecO), 'pair?': lambda a: isinstance(a, Pair),
    'null?': lambda a: a is NIL, 'procedure?': proc, 'list?': is_list,
    'eq?': eqv, 'eqv?': eqv, 'equal?': equal,
    'cons': Pair, 'car': car, 'cdr': cdr, 'set-car!': set_car, 'set-cdr!': set_cdr,
    'cadr': lambda p: car(cdr(p)), 'cddr': lambda p: cdr(cdr(p)), 'caar': lambda p: car(car(p)), 'cdar': lambda p: cdr(car(p)),
    'caddr': lambda p: car(cdr(cdr(p))),
    'list': lambda *a: to_list(a), 'length': lambda l: len(from_list(l)), 'append': append,
    'reverse': lambda l: to_list(from_list(l)[::-1]), 'list-tail': tail, 'list-ref': lambda l, i: car(tail(l, i)),
    'list-copy': lambda l: to_list(from_list(l)),
    'memq': mem(eqv), 'memv': mem(eqv), 'member': mem(equal), 'assq': ass(eqv), 'assv': ass(eqv), 'assoc': ass(equal),
    'make-list': lambda n, x: to_list([x] * n),
    'vector': lambda *a: VecO(a), 'make-vector': lambda n, x: VecO([x] * n), 'vector-length': lambda v: len(vec(v)),
    'vector-ref': lambda v, i: vec(v)[idx(len(v.v), i)], 'vector-set!': vset,
    'vector->list': lambda v: to_list(vec(v)), 'list->vector': lambda l: VecO(from_list(l)),
    'vector-copy': lambda v: VecO(vec(v)), 'vector-append': lambda *vs: VecO([x for v in vs for x in vec(v)]),
    'string-length': lambda s: len(st(s)), 'string-append': lambda *ss: Str([c for s in ss for c in st(s)]),
    'string-ref': lambda s, i: sx.Char(st(s)[idx(len(s.s), i)]), 'string-copy': lambda s: Str(st(s)),
    'string=?': lambda a, b: st(a) == st(b), 'string<?': lambda a, b: st(a) < st(b),
    'string->symbol': lambda s: Sym(''.join(st(s))), 'symbol->string': lambda s: Str(s.name),
    'string->list': lambda s: to_list([sx.Char(c) for c in st(s)]), 'list->string': lambda l: Str(chr(c.cp) for c in from_list(l)),
    'substring': lambda s, a, b: Str(st(s)[a:b]),
    'number->string': lambda n: Str(str(n)),
    'char->integer': lambda c: c.cp, 'integer->char': lambda n: sx.Char(n),
    'void': lambda: UNSPEC,
    'make-promise': lambda v: v if isinstance(v, Promise) else Promise(True, v), 'promise?': lambda v: isinstance(v, Promise),
    'error-object?': lambda e: isinstance(e, Err), 'error-object-message': lambda e: e.msg,
    'error-object-irritants': lambda e: e.irritants,
}

FULL = {}


def full(*names):
    def deco(f):
        for n in names:
            FULL[n] = f
        return f
    return deco


@full('call-with-current-continuation', 'call/cc')
def _(m, args, k):
    return m.apply(args[0], [Cont(k, m.winds, m.dyn)], k)


@full('values')
def _(m, args, k):
    return k(args[0] if len(args) == 1 else Values(args))


@full('call-with-values')
def _(m, args, k):
    return m.apply(args[0], [], lambda v: m.apply(args[1], v.v if isinstance(v, Values) else [v], k))


@full('apply')
def _(m, args, k):
    return m.apply(args[0], args[1:-1] + from_list(args[-1]), k)


@full('dynamic-wind')
def _(m, args, k):
    before, thunk, after = args
    dyn = m.dyn

    def entered(_):
        outer = m.winds
        m.winds = (before, after, dyn, outer, (outer[4] if outer else 0) + 1)

        def left(v):
            m.winds = outer
            return m.apply(after, [], lambda _: k(v))
        return m.apply(thunk, [], left)
    return m.apply(before, [], entered)


@full('with-exception-handler')
def _(m, args, k):
    saved = m.dyn
    m.dyn = ((args[0], saved[0]), saved[1])

    def back(v):
        m.dyn = saved
        return k(v)
    return m.apply(args[1], [], back)


@full('raise')
def _(m, args, k):
    return m.raise_(args[0], k, False)


@full('raise-continuable')
def _(m, args, k):
    return m.raise_(args[0], k, True)


@full('error')
def _(m, args, k):
    return m.raise_(Err(args[0], to_list(args[1:])), k, False)


@full('make-parameter')
def _(m, args, k):
    if len(args) == 1:
        return k(Param([args[0]], None))
    return m.apply(args[1], [args[0]], lambda v: k(Param([v], args[1])))


@full('force')
def _force(m, args, k):
    p = args[0]
    if not isinstance(p, Promise):
        return k(p)
    if p.box[0]:
        return k(p.box[1])

    def got(q):
        if not p.box[0]:
            if not isinstance(q, Promise):
                raise SchemeError('delay-force of a non-promise')
            p.box[0], p.box[1] = q.box[0], q.box[1]
            q.box = p.box
        return lambda: _force(m, [p], k)
    return m.apply(p.box[1], [], got)


def mapper(collect):
    def f(m, args, k):
        fn = args[0]
        ls = [from_list(l) for l in args[1:]]
        rows = list(zip(*ls))

        def go(i, acc):
            if i == len(rows):
                return k(to_list(list(acc_list(acc))[::-1]) if collect else UNSPEC)
            return m.apply(fn, list(rows[i]), lambda v: go(i + 1, (v, acc)))
        return go(0, None)
    return f


FULL['map'] = mapper(True)
FULL['for-each'] = mapper(False)


@full('vector-map')
def _(m, args, k):
    return FULL['map'](m, [args[0]] + [to_list(vec(v)) for v in args[1:]], lambda l: k(VecO(from_list(l))))


@full('vector-for-each')
def _(m, args, k):
    return FULL['for-each'](m, [args[0]] + [to_list(vec(v)) for v in args[1:]], k)


@full('string-for-each')
def _(m, args, k):
    return FULL['for-each'](m, [args[0]] + [to_list([sx.Char(c) for c in st(v)]) for v in args[1:]], k)


SCHEME = []


def show(v):
    """Text of a result as verif-show prints it."""
    return sx.show(unheap(v))


# -- source text --------------------------------------------------------------------

def src(x):
    """Program text of sx code (strings become literals)."""
    return sx.datum(x)
