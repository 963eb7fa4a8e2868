"""Hygiene: programs with macros whose local variables have clashing names, against their expansion with unique names.

A program is generated with every variable, macro and standard name an object of
its own.  Its meaning is that of the expansion in which all variables have
different names, run by the reference interpreter.  The text given to meevax
names the variables out of a small pool - of names that other variables, the
templates of the macros, and standard syntax have too - so that every reference,
read with the scopes of the text alone, still means the same variable.
"""
import pbt
import ref
import sx
from sx import Sym as S


class Id:
    def __init__(self, name=None, hint=None):
        self.name = name
        self.hint = hint

    def __repr__(self):
        return 'Id(%s)' % self.name


CORE = {n: Id(n) for n in ['let', 'let*', 'letrec', 'if', 'lambda', 'set!', 'begin', 'define', 'define-syntax', 'let-syntax', 'letrec-syntax',
                           'syntax-rules', 'er-macro-transformer', 'sc-macro-transformer', 'rsc-macro-transformer', 'make-syntactic-closure', 'quote', '_',
                           'list', 'list-ref', '+', '-', '<', '=', 'cond', 'else', 'do', 'and', 'or', 'not', 'case', 'car', 'cdr', 'when', 'unless',
                           'case-lambda', 'letrec*', 'let-values', 'values']}
POOL = ['x', 'y', 'tmp', 't', 'k']


class Macro:
    def __init__(self, params, tmpl, pvs, style):
        self.params, self.tmpl, self.pvs, self.style = params, tmpl, pvs, style


# --- generation: nodes are tuples (kind, ...)

class Gen:
    def __init__(self, c, fuel=40, styles=('sr', 'sr', 'er')):
        self.c, self.fuel, self.styles = c, fuel, styles
        self.macros = {}
        self.features = set()

    def e(self, d, sc):
        """sc: vars (list of Id), macros (list of Id), tmpl (None or the parameter kinds of the template)"""
        c = self.c
        self.fuel -= 1
        holes = [i for i, k in enumerate(sc['holes']) if k == 'e']
        if d <= 0 or self.fuel <= 0:
            return self.leaf(sc, holes)
        k = c.draw(22)
        r = lambda s=sc: self.e(d - 1, s)
        if holes and k < 6:
            return ('hole', c.pick(holes))
        if k < 2:
            return self.leaf(sc, holes)
        if k < 5 and sc['macros']:
            return self.use(d, sc)
        if k in (5, 6):
            ids = [Id() for _ in range(c.int(1, 2))]
            return ('let', c.pick(['let', 'let', 'let*']), [(i, r()) for i in ids], r(self.bind(sc, ids))) if c.bool(.7) or len(ids) > 1 else \
                ('let', 'letrec', [(ids[0], r())], r(self.bind(sc, ids)))
        if k == 7:
            ids = [Id() for _ in range(c.int(0, 2))]
            return ('lam', ids, r(self.bind(sc, ids)), [r() for _ in ids])
        if k == 8:
            return ('app', c.pick(['+', '-']), [r(), r()])
        if k == 9:
            return ('cond', r(), r(), r(), r()) if c.bool() else ('if', r(), r(), r(), r())
        if k == 10:
            return ('app', 'begin', [r(), r()])
        if k == 11 and sc['vars']:
            return ('set', c.pick(sc['vars']), r())
        if k == 12:
            f, i = Id(), Id()
            return ('loop', f, i, c.int(1, 3), r(self.bind(sc, [i])), r())
        if k == 13:
            i, a = Id(), Id()
            return ('do', i, a, c.int(1, 3), r(self.bind(sc, [i, a])))
        if k in (14, 15, 16) and not sc['holes']:
            return self.body(d, sc)
        if k in (17, 18, 19) and not sc['holes']:
            kind = c.pick(['let-syntax', 'letrec-syntax'])
            ms = [(Id(), self.macro(d, sc)) for _ in range(c.int(1, 2))]
            self.features.add(kind)
            return ('lsyn', kind, ms, r(self.bind(sc, [], [m for m, _ in ms])))
        if k == 20:
            return ('or', r(), r(), r()) if c.bool() else ('case', r(), c.int(0, 3), r(), r())
        if k == 21:
            i = Id()
            return ('vals', i, r(), r(self.bind(sc, [i])))
        return self.leaf(sc, holes)

    def leaf(self, sc, holes):
        c = self.c
        k = c.draw(5)
        if k == 0 or not sc['vars']:
            return ('num', c.int(0, 9)) if not holes or c.bool() else ('hole', c.pick(holes))
        return ('ref', c.pick(sc['vars'][-4:] if c.bool(.6) else sc['vars']))

    def bind(self, sc, ids, macros=()):
        return dict(sc, vars=sc['vars'] + list(ids), macros=sc['macros'] + list(macros))

    def body(self, d, sc):
        c = self.c
        ds = []
        inner = sc
        for _ in range(c.int(1, 3)):
            if c.bool(0.5):
                i = Id()
                # an initial value refers to earlier definitions only; a procedure may be called later
                ds.append(('define', i, self.e(d - 1, inner)))
                inner = self.bind(inner, [i])
            else:
                m = Id()
                self.features.add('define-syntax')
                ds.append(('syntax', m, self.macro(d, inner)))
                inner = self.bind(inner, [], [m])
        return ('body', ds, self.e(d - 1, inner))

    def macro(self, d, sc):
        c = self.c
        params = []
        for _ in range(c.int(0, 3)):
            k = c.draw(6)
            if k < 3:
                params.append('e')
            elif k == 3:
                params.append('s')
            else:
                params += ['v', 'b']
        # the symbols quoted by an er transformer that is itself in a template lose their renaming, so that one stands outside
        style = c.pick(self.styles) if not sc.get('template') else 'sr'
        tsc = dict(sc, holes=params, template=True)
        t = self.template(min(d, 3), tsc)
        m = Macro(params, t, [Id() for _ in params], style)
        self.macros_made = True
        return m

    def template(self, d, sc):
        c = self.c
        params = sc['holes']
        t = self.e(d, sc)
        for i, k in enumerate(params):
            if k == 's':
                t = ('app', 'begin', [('set', ('hole', i), self.e(1, sc)), t])
            elif k == 'v':
                # the hole binds the name given by the user around the hole for the body; something of the template's own may come in between
                b = ('hole', i + 1)
                if c.bool():
                    own = Id()
                    b = ('let', 'let', [(own, self.e(1, sc))], ('app', '+', [('ref', own), b]) if c.bool() else b)
                t = c.pick([
                    lambda: ('let', 'let', [(('hole', i), t)], b),
                    lambda: ('lam', [('hole', i)], b, [t]),
                    lambda: (lambda own: ('let', 'let', [(own, t)], ('loop', Id(), ('hole', i), c.int(1, 2), b, ('ref', own))))(Id()),
                    lambda: (lambda own: ('let', 'let*', [(own, t), (('hole', i), ('app', '+', [('ref', own), ('num', 1)]))], b))(Id()),
                    lambda: (lambda own: ('let', 'let', [(own, t)], ('body', [('define', ('hole', i), ('ref', own))], b)))(Id()),
                ])()
        return t

    def use(self, d, sc):
        c = self.c
        m = c.pick(sc['macros'])
        mac = self.macros[m] if m in self.macros else None
        return ('use', m, d, sc)      # arguments are filled in below, when the macro is known


def fill(g, t, known):
    """Give the uses their arguments, now that the parameters of the macros are known."""
    if isinstance(t, Macro):
        t.tmpl = fill(g, t.tmpl, known)
        return t
    if isinstance(t, list):
        return [fill(g, x, known) for x in t]
    if not isinstance(t, tuple):
        return t
    if t[0] == 'use' and len(t) == 4:
        _, m, d, sc = t
        mac = known.get(m)
        if mac is None:
            return ('num', 0)
        args = []
        for k in mac.params:
            if k == 'e':
                args.append(fill(g, g.e(d - 2, sc), known))
            elif k == 's':
                if not sc['vars']:
                    return ('num', 0)
                args.append(('ref', g.c.pick(sc['vars'])))
            elif k == 'v':
                args.append(('var', Id()))
            else:
                args.append(fill(g, g.e(d - 1, g.bind(sc, [args[-1][1]])), known))
        return ('use', m, args)
    if t[0] == 'lsyn':
        ms = []
        inner = dict(known)
        for m, mac in t[2]:
            mac = fill(g, mac, known)
            inner[m] = mac
            ms.append((m, mac))
        return ('lsyn', t[1], ms, fill(g, t[3], inner))
    if t[0] == 'body':
        inner = dict(known)
        ds = []
        for k, i, x in t[1]:
            x = fill(g, x, inner)
            if k == 'syntax':
                inner[i] = x
            ds.append((k, i, x))
        return ('body', ds, fill(g, t[2], inner))
    return tuple(fill(g, x, known) for x in t)


# --- the source of a node, with Ids in the place of names; binders and their scopes

class B:
    """A binding construct in the source: `ids' are bound in the code `scope' (a list of sources)."""

    def __init__(self, ids, build, scope):
        self.ids, self.build, self.scope = ids, build, scope


C = CORE


class PV:
    """A pattern variable in a template."""

    def __init__(self, id):
        self.id = id


class Tmpl:
    def __init__(self, macro, src):
        self.macro, self.src = macro, src


class Binding:
    """Source that binds ids: parts evaluated outside, parts in scope, and how to put them together."""

    def __init__(self, ids, outside, inside, make, seq=False):
        self.ids, self.outside, self.inside, self.make = ids, outside, inside, make


def source(t, pvs=()):
    k = t[0]
    s = lambda x: source(x, pvs)
    if k == 'num':
        return t[1]
    if k == 'ref':
        return t[1]
    if k == 'hole':
        return PV(pvs[t[1]])
    if k == 'app':
        return [C[t[1]]] + [s(x) for x in t[2]]
    if k == 'set':
        v = PV(pvs[t[1][1]]) if isinstance(t[1], tuple) else t[1]
        return [C['begin'], [C['set!'], v, s(t[2])], v]
    if k == 'if':
        return [C['if'], [C['<'], s(t[1]), s(t[2])], s(t[3]), s(t[4])]
    if k == 'cond':
        return [C['cond'], [[C['<'], s(t[1]), s(t[2])], s(t[3])], [C['else'], s(t[4])]]
    if k == 'or':
        return [C['or'], [C['and'], [C['<'], s(t[1]), s(t[2])], s(t[3])], 0]
    if k == 'case':
        return [C['case'], s(t[1]), [[t[2]], s(t[3])], [C['else'], s(t[4])]]
    b = lambda x: PV(pvs[x[1]]) if isinstance(x, tuple) else x
    if k == 'let':
        kind = t[1]
        if kind == 'let*':
            def nest(bs):
                if not bs:
                    return s(t[3])
                (i, e), rest = bs[0], bs[1:]
                return Binding([b(i)], [s(e)], [nest(rest)], lambda n, o, x: ('let*', n[0], o[0], x[0]))
            r = nest(t[2])
            return Star(r)
        binders = [b(i) for i, _ in t[2]]
        inits = [s(e) for _, e in t[2]]
        if kind == 'letrec':
            return Binding(binders, [C['letrec']], inits + [s(t[3])], lambda n, o, x: [o[0], [[n[j], x[j]] for j in range(len(n))], x[-1]])
        return Binding(binders, [C['let']] + inits, [s(t[3])], lambda n, o, x: [o[0], [[n[j], o[j + 1]] for j in range(len(n))], x[0]])
    if k == 'lam':
        binders = [b(i) for i in t[1]]
        f = Binding(binders, [C['lambda']], [s(t[2])], lambda n, o, x: [o[0], list(n), x[0]])
        return [f] + [s(a) for a in t[3]]
    if k == 'vals':
        return Binding([b(t[1])], [C['let-values'], C['values'], s(t[2])], [s(t[3])], lambda n, o, x: [o[0], [[[n[0]], [o[1], o[2]]]], x[0]])
    if k == 'loop':
        # (let f ((i n)) (if (< 0 i) (begin body (f (- i 1))) after)): after is outside in spirit, but inside in the text
        f, i = t[1], b(t[2])
        inner = Binding([i], [t[3], C['let']], [C['if'], C['<'], i, C['begin'], s(t[4]), f, C['-'], s(t[5])],
                        lambda n, o, x: ('loop', o[1], n[0], o[0], [x[0], [x[1], 0, x[2]], [x[3], x[4], [x[5], [x[6], x[2], 1]]], x[7]]))
        return Binding([f], [], [inner], lambda n, o, x: [x[0][1], n[0], [[x[0][2], x[0][3]]], x[0][4]])
    if k == 'do':
        i, a = t[1], t[2]
        return Binding([i, a], [C['do']], [C['+'], i, C['='], a, s(t[4])],
                       lambda n, o, x: [o[0], [[n[0], 0, [x[0], n[0], 1]], [n[1], 0, [x[0], n[1], x[4]]]], [[x[2], n[0], t[3]], n[1]]])
    if k == 'body':
        ids = [b(i) for _, i, _ in t[1]]
        xs = [C['define'], C['define-syntax']] + [Tmpl(x, spec(x)) if kd == 'syntax' else s(x) for kd, _, x in t[1]] + [s(t[2])]
        return Binding(ids, [C['let']], xs, lambda n, o, x: [o[0], []] + [[x[0] if kd == 'define' else x[1], n[j], x[j + 2]] for j, (kd, _, _) in enumerate(t[1])] + [x[-1]])
    if k == 'lsyn':
        ids = [m for m, _ in t[2]]
        specs = [Tmpl(m, spec(m)) for _, m in t[2]]
        if t[1] == 'let-syntax':
            return Binding(ids, [C['let-syntax']] + specs, [s(t[3])], lambda n, o, x: [o[0], [[n[j], o[j + 1]] for j in range(len(n))], x[0]])
        return Binding(ids, [C['letrec-syntax']], specs + [s(t[3])], lambda n, o, x: [o[0], [[n[j], x[j]] for j in range(len(n))], x[-1]])
    if k == 'use':
        out = [t[1]]
        args = t[2]
        j = 0
        while j < len(args):
            if args[j][0] == 'var':
                out.append(Binding([args[j][1]], [], [s(args[j + 1])], lambda n, o, x: ('pair', n[0], x[0])))
                j += 2
            else:
                out.append(s(args[j]))
                j += 1
        return Use(out)
    raise AssertionError(t)


class Star:
    def __init__(self, x):
        self.x = x


class Use:
    def __init__(self, xs):
        self.xs = xs


EXTRA = {'sr': ['syntax-rules', '_'], 'er': ['er-macro-transformer', 'lambda', 'list', 'list-ref', 'quote'],
         'sc': ['sc-macro-transformer', 'lambda', 'list', 'list-ref', 'quote', 'make-syntactic-closure'],
         'rsc': ['rsc-macro-transformer', 'lambda', 'list', 'list-ref', 'quote', 'make-syntactic-closure']}


def spec(m):
    return source(m.tmpl, m.pvs)


def free(s):
    if isinstance(s, Id):
        return {s}
    if isinstance(s, PV):
        return set()
    if isinstance(s, list):
        return set().union(*map(free, s)) if s else set()
    if isinstance(s, Star):
        return free(s.x) | {C['let*']}
    if isinstance(s, Use):
        return free(s.xs)
    if isinstance(s, Tmpl):
        return free(s.src) | {C[n] for n in EXTRA[s.macro.style]}
    if isinstance(s, Binding):
        ids = {i for i in s.ids if isinstance(i, Id)}
        return set().union(*map(free, s.outside), set()) | (set().union(*map(free, s.inside)) - ids)
    return set()


class Namer:
    def __init__(self, c, clash=True):
        self.c, self.clash, self.n = c, clash, 0
        self.clashes = 0
        self.core = [n for n in CORE if n != '_']

    def choose(self, bad):
        """bad: names it must not have"""
        c = self.c
        if not self.clash:
            self.n += 1
            return 'u%d' % self.n
        for _ in range(6):
            n = c.pick(self.core) if c.bool(0.2) else c.pick(POOL)
            if n not in bad:
                if n in CORE:
                    self.clashes += 1
                return n
        self.n += 1
        return 'u%d' % self.n

    def name(self, s, banned):
        """banned: names of pattern variables in the template around"""
        if isinstance(s, Id):
            return S(s.name)
        if isinstance(s, PV):
            return S(s.id.name)
        if isinstance(s, list):
            return [self.name(x, banned) for x in s]
        if isinstance(s, Use):
            out = []
            # the template may put any argument into the scope of a variable that another argument names
            around = banned | {i.name for i in free(s)}
            for x in s.xs:
                y = self.name(x, around if isinstance(x, Binding) else banned)
                if isinstance(y, tuple):
                    out += [y[1], y[2]]
                else:
                    out.append(y)
            return out
        if isinstance(s, Star):
            y = self.name(s.x, banned)
            bs = []
            while isinstance(y, tuple) and y[0] == 'let*':
                bs.append([y[1], y[2]])
                y = y[3]
            return [S('let*'), bs, y]
        if isinstance(s, Tmpl):
            m = s.macro
            fr = {i.name for i in free(s.src)} | {'...'}
            used = set()
            for pv in m.pvs:
                pv.name = self.choose(fr | used | {'_'})
                used.add(pv.name)
            return transformer(m, self.name(s.src, set(used)), [pv.name for pv in m.pvs])
        if isinstance(s, Binding):
            outside = [self.name(x, banned) for x in s.outside]
            ids = [i for i in s.ids if isinstance(i, Id)]
            fr = {i.name for x in s.inside for i in free(x) if i not in ids}
            pv = {i.id.name for i in s.ids if isinstance(i, PV)}
            used = set()
            for i in ids:
                i.name = self.choose(fr | used | banned | pv)
                used.add(i.name)
            inside = [self.name(x, banned) for x in s.inside]
            return s.make([S(i.name) if isinstance(i, Id) else S(i.id.name) for i in s.ids], outside, inside)
        return s


def transformer(m, t, pvs):
    if m.style == 'sr':
        return [S('syntax-rules'), [], [[S('_')] + [S(p) for p in pvs], t]]
    index = {p: j + 1 for j, p in enumerate(pvs)}

    def make(x, sym, arg):
        if isinstance(x, S):
            return arg(index[x.name]) if x.name in index else sym(x)
        if isinstance(x, list):
            return [S('list')] + [make(y, sym, arg) for y in x]
        return x
    part = lambda j: [S('list-ref'), S('form'), j]
    if m.style == 'er':
        return [S('er-macro-transformer'), [S('lambda'), [S('form'), S('rename'), S('compare')],
                                            make(t, lambda x: [S('rename'), [S('quote'), x]], part)]]
    if m.style == 'rsc':
        return [S('rsc-macro-transformer'), [S('lambda'), [S('form'), S('env')],
                                             make(t, lambda x: [S('make-syntactic-closure'), S('env'), [S('quote'), []], [S('quote'), x]], part)]]
    raise AssertionError


# --- the expansion, with unique names

class Expander:
    def __init__(self):
        self.n = 0
        self.steps = 0

    def new(self):
        self.n += 1
        return S('v%d' % self.n)

    def x(self, t, sub, args):
        self.steps += 1
        if self.steps > 4000:
            raise ref.Overrun
        k = t[0]
        s = lambda y, sb=sub, ar=args: self.x(y, sb, ar)
        if k == 'num':
            return t[1]
        if k == 'ref':
            return sub[t[1]]
        if k == 'hole':
            return self.x(*args[t[1]])
        if k == 'app':
            return [S(t[1])] + [s(y) for y in t[2]]
        if k == 'set':
            v = self.x(*args[t[1][1]]) if isinstance(t[1], tuple) else sub[t[1]]
            return [S('begin'), [S('set!'), v, s(t[2])], v]
        if k in ('if', 'cond'):
            return [S('if'), [S('<'), s(t[1]), s(t[2])], s(t[3]), s(t[4])]
        if k == 'or':
            return [S('if'), [S('<'), s(t[1]), s(t[2])], s(t[3]), 0]
        if k == 'case':
            return [S('if'), [S('='), s(t[1]), t[2]], s(t[3]), s(t[4])]

        def bind(b, sb, ar):
            v = self.new()
            if isinstance(b, tuple):
                node, us, ua = ar[b[1] + 1]
                u = ar[b[1]]
                ar = list(ar)
                ar[b[1] + 1] = (node, {**us, u: v}, ua)
                return v, sb, ar
            return v, {**sb, b: v}, ar
        if k == 'let':
            kind = t[1]
            if kind == 'let*':
                out, sb, ar = [], sub, args
                for b, e in t[2]:
                    e = self.x(e, sb, ar)
                    v, sb, ar = bind(b, sb, ar)
                    out.append([v, e])
                return [S('let*'), out, self.x(t[3], sb, ar)]
            vs, sb, ar = [], sub, args
            for b, _ in t[2]:
                v, sb, ar = bind(b, sb, ar)
                vs.append(v)
            inits = [self.x(e, sub, args) for _, e in t[2]]
            return [S('let'), [[v, e] for v, e in zip(vs, inits)], self.x(t[3], sb, ar)]
        if k == 'lam':
            vs, sb, ar = [], sub, args
            for b in t[1]:
                v, sb, ar = bind(b, sb, ar)
                vs.append(v)
            return [[S('lambda'), vs, self.x(t[2], sb, ar)]] + [s(a) for a in t[3]]
        if k == 'vals':
            v, sb, ar = bind(t[1], sub, args)
            return [S('let'), [[v, s(t[2])]], self.x(t[3], sb, ar)]
        if k == 'loop':
            f, f_sub, f_args = bind(t[1], sub, args)
            v, sb, ar = bind(t[2], f_sub, f_args)
            return [S('let'), f, [[v, t[3]]], [S('if'), [S('<'), 0, v], [S('begin'), self.x(t[4], sb, ar), [f, [S('-'), v, 1]]], self.x(t[5], sb, ar)]]
        if k == 'do':
            i, sb, ar = bind(t[1], sub, args)
            a, sb, ar = bind(t[2], sb, ar)
            f = self.new()
            return [S('let'), f, [[i, 0], [a, 0]], [S('if'), [S('='), i, t[3]], a, [f, [S('+'), i, 1], [S('+'), a, self.x(t[4], sb, ar)]]]]
        if k == 'body':
            sb, ar = dict(sub), args
            out, todo = [], []
            for kd, b, y in t[1]:
                if kd == 'syntax':
                    sb[b] = (y, sb, ar)
                else:
                    v, sb2, ar = bind(b, sb, ar)
                    sb.update(sb2)
                    todo.append((v, y))
            for v, y in todo:
                out.append([S('define'), v, self.x(y, sb, ar)])
            return [S('let'), []] + out + [self.x(t[2], sb, ar)]
        if k == 'lsyn':
            sb = dict(sub)
            for m, mac in t[2]:
                sb[m] = (mac, sub, args)
            return self.x(t[3], sb, args)
        if k == 'use':
            mac, msub, margs = sub[t[1]]
            actual = []
            for a in t[2]:
                actual.append(a[1] if a[0] == 'var' else (a, sub, args))
            return self.x(mac.tmpl, msub, actual)
        raise AssertionError(t)


class Check(pbt.Property):
    id = 'P20'
    imports = '(import (meevax macro-transformer))'
    batch = 40
    quick = 400
    thorough = 8000
    rule = 'the program uses a macro, and binds a name that is bound elsewhere, or the name of standard syntax'
    assumptions = ['the expansion with unique names in checks/p20_hygiene.py', 'the reference interpreter lib/ref.py']
    styles = ('sr', 'sr', 'er')

    def gen(self, c):
        for _ in range(20):
            g = Gen(c, c.pick([4, 8, 12, 20, 30]), self.styles)
            x0, y0 = Id(), Id()
            sc = {'vars': [], 'macros': [], 'holes': []}
            sc1 = g.bind(sc, [x0, y0])
            inner = [g.body(4, sc1) if c.bool(.6) else g.e(5, sc1)]
            t = ('let', 'let', [(x0, ('num', 10)), (y0, ('num', 20))], ('app', '+', [inner[0], ('app', '+', [('ref', x0), ('ref', y0)])]) if c.bool() else inner[0])
            t = fill(g, t, {})
            ex = Expander()
            try:
                e = ex.x(t, {}, [])
                m = ref.Machine(6000)
                v = m.run(e)
            except (ref.Overrun, ref.SchemeError, ref.Uncaught, RecursionError):
                continue
            if not isinstance(v, int):
                continue
            nm = Namer(c)
            text = sx.datum(nm.name(source(t), set()))
            if len(text) > 4000:
                continue
            fs = set(g.features)
            if ' (use' in text:
                pass
            uses = 'use' in repr_kinds(t)
            if uses:
                fs.add('use')
            if nm.clashes:
                fs.add('standard name bound')
            return pbt.Case(text, expect=sx.show(v), nontrivial=uses, labels=sorted(fs))
        return pbt.Case('0', '0', nontrivial=False)


def repr_kinds(t):
    out = set()

    def go(x):
        if isinstance(x, Macro):
            go(x.tmpl)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.add(x[0])
            for y in x:
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(t)
    return out
