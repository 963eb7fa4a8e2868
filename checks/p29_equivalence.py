"""Pools of objects -- atoms, shared, copied and circular structure -- compared pairwise, against identities in a model."""
import pbt
import sx


class Node:
    """A mutable object: kind pair, vector or box, with slots that are nodes or atoms."""
    __slots__ = ('kind', 'slots', 'name')

    def __init__(self, kind, slots):
        self.kind, self.slots, self.name = kind, slots, None


class Atom:
    """expr makes it; key is equal for eqv atoms (content, for what has no identity), loc for things with a location."""
    __slots__ = ('expr', 'key', 'equal', 'name')

    def __init__(self, expr, key, equal=None):
        self.expr, self.key, self.equal = expr, key, key if equal is None else equal


# (weight, kind): the expressions of one row denote the same object in the sense of eqv?
SAME = [
    ["1", "(- 3 2)", "#e1.0", "2/2"],
    ["1.5", "(/ 3.0 2)", "(inexact 3/2)"],
    ["1/2", "(/ 1 2)", "(/ 2 4)"],
    ["-1/2", "(- 1/2)"],
    ["1000000000000000000000000", "(expt 10 24)", "(* 1000000000000 1000000000000)"],
    ["-1000000000000000000000000", "(- (expt 10 24))"],
    ["9223372036854775808", "(expt 2 63)"],
    ["2147483648", "(expt 2 31)", "(+ 2147483647 1)"],
    ["2147483647", "(- (expt 2 31) 1)"],
    ["0", "(- 1 1)", "(* 0 (expt 10 24))"],
    ["0.0", "(* 1.5 0.0)"],
    ["-0.0", "(- 0.0)"],
    ["+inf.0", "(* 1e200 1e200)"],
    ["-inf.0"],
    ["1e-300", "(/ 1e-299 10.)"][:1],
    ["2e-300"],
    ["1.0", "(exact->inexact 1)"][:1] + ["(inexact 1)"],
    ["0.5", "(inexact 1/2)"],
    ["1e24", "(inexact (expt 10 24))"],
    ["1+2i", "(make-rectangular 1 2)"],
    ["1.0+2.0i", "(make-rectangular 1.0 2.0)"],
    ["1+2.0i", "(make-rectangular 1 2.0)"],
    ["2+1i", "(make-rectangular 2 1)"],
    ["#t", "(not #f)"],
    ["#f", "(not 1)"],
    ["'()", "(list)", "(cdr (list 1))"],
    ["'a", "(string->symbol \"a\")", "(car '(a b))"],
    ["'A", "(string->symbol \"A\")"],
    ["'||", "(string->symbol \"\")"],
    ["'|a b|", "(string->symbol \"a b\")"],
    ["#\\a", "(integer->char 97)", "(string-ref \"abc\" 0)"],
    ["#\\A", "(char-upcase #\\a)"],
    ["#\\x3bb", "(integer->char 955)"],
    ["#\\x1", "(integer->char 1)"],
    ["(eof-object)", "(read-char (open-input-string \"\"))"],
    ["car"], ["cdr"], ["id"], ["counter"],
]
# things that are equal? by content, with a location of their own
STRINGS = ['a', 'b', 'ab', 'A', '1', '\u03bb', 'a\x00', 'a\x00b']
BYTES = [('bytevector', (1,)), ('bytevector', (1, 2)), ('bytevector', (255,)), ('u16vector', (1, 2)), ('s8vector', (1,)), ('f64vector', (1.5,)), ('f64vector', (1.5, 2.5)), ('s32vector', (1, 2)), ('u64vector', (1, 2))]
FRESH = ['(lambda () %d)', '(let ((n %d)) (lambda () (set! n (+ n 1)) n))', '(make-parameter %d)', '(open-input-string (number->string %d))', '(list->string (list #\\z (integer->char (+ 100 %d))))'][:4]


def is_node(x):
    return isinstance(x, Node)


def eqv(a, b):
    if a is b:
        return True
    if is_node(a) or is_node(b):
        return is_node(a) and is_node(b) and a.kind == b.kind == 'vector' and not a.slots and not b.slots
    return a.key == b.key


def equal(a, b):
    seen = set()
    todo = [(a, b)]
    while todo:
        x, y = todo.pop()
        if x is y:
            continue
        if is_node(x) and is_node(y):
            if x.kind != y.kind or len(x.slots) != len(y.slots):
                return False
            if (id(x), id(y)) in seen:
                continue
            seen.add((id(x), id(y)))
            todo += zip(x.slots, y.slots)
        elif is_node(x) or is_node(y) or x.equal != y.equal:
            return False
    return True


class Check(pbt.Property):
    id = 'P29'
    batch = 20
    quick = 400
    thorough = 8000
    imports = '(import (scheme char) (scheme complex) (scheme inexact) (srfi 1) (srfi 4) (srfi 111))'
    rule = 'the pool has two different nodes that are equal?, or a cycle'
    assumptions = ['eq? of numbers, characters and empty objects, and eqv? of empty objects, NaNs and separately allocated equal strings (a known finding) are not compared',
                   'records are made of vectors here and left out']
    demos = {
        'eqv-strings': ('(let ((a (string #\\a)) (b (string #\\a))) (eqv? a b))', '#f'),
    }
    prelude = '''
(define (id x) x)
(define counter (let ((n 0)) (lambda () (set! n (+ n 1)) n)))
(define (where x l p) (let loop ((l l) (i 0)) (cond ((null? l) #f) ((p x (car l)) i) (else (loop (cdr l) (+ i 1))))))
(define (index l tail) (and (pair? tail) (- (length l) (length tail))))
'''

    def ladder(self, c):
        """Structures of a few nodes that unfold into trees of 2^n leaves: comparing must not unfold them."""
        n = c.int(1, 45)
        how = c.pick(['(cons x x)', '(list x 1 x)', '(list x x x)', '(cons x (cons x x))', '(cons (cons x 2) x)'])
        at = c.int(0, n) if c.bool(.4) else None
        self_loop = c.bool(.3)
        ask = "(let ((up (lambda (x) %s))) (let loop ((i 0) (a (%s)) (b (%s))) (if (< i %d) (loop (+ i 1) (up %s) (up b)) (equal? a b))))" % (
            how, *(['list 7'] * 2 if not self_loop else ["let ((l (list 7))) (set-cdr! l l) l"] * 2), n, 'a' if at is None else '(if (= i %d) (list a) a)' % at)
        return pbt.Case(ask, expect='#t' if at is None or at >= n else '#f', labels=['ladder'])

    def gen(self, c):
        if c.bool(.05):
            return self.ladder(c)
        self.k = 0
        atoms, rows, features = [], c.sample(SAME, c.int(1, 6)), set()

        def atom():
            what = c.weighted([(6, 'same'), (2, 'string'), (2, 'bytes'), (1, 'fresh')])
            self.k += 1
            if what == 'same':
                r = c.pick(rows)
                return Atom(c.pick(r), ('same', r[0]))
            if what == 'string':
                s = c.pick(STRINGS)
                e = '(string-copy %s)' % sx.lit(s) if c.bool() else '(string%s)' % ''.join(' ' + sx.lit(sx.Char(ch)) for ch in s)
                return Atom(e, ('string', self.k), ('string', s))
            if what == 'bytes':
                t, v = c.pick(BYTES)
                return Atom('(%s %s)' % (t, ' '.join(map(str, v))), ('bytes', self.k), ('bytes', t, v))
            return Atom(c.pick(FRESH) % self.k, ('fresh', self.k))

        def node(k=None):
            kind = k or c.weighted([(6, 'pair'), (3, 'vector'), (1, 'box')])
            return Node(kind, [None] * {'pair': 2, 'box': 1, 'vector': c.int(0, 3) if not k else 2}[kind])

        atoms = [atom() for _ in range(c.int(2, 7))]
        nodes = []
        cyclic = c.bool(.4)
        for _ in range(c.int(1, 7)):
            n = node()
            for i in range(len(n.slots)):
                n.slots[i] = c.pick(nodes) if nodes and c.bool(.5) else c.pick(atoms)
            nodes.append(n)
        if cyclic:
            for _ in range(c.int(1, 3)):
                n = c.pick(nodes)
                if n.slots:
                    n.slots[-1 if c.bool(.7) else c.draw(len(n.slots))] = c.pick(nodes)
        # a copy in which nodes may be split in several, one place perhaps changed
        copies = 0
        for _ in range(c.int(1, 2)):
            split = c.int(1, 2)
            table = [[Node(n.kind, [None] * len(n.slots)) for _ in range(split)] for n in nodes]
            at = {id(n): i for i, n in enumerate(nodes)}
            base = list(nodes)
            for n, cs in zip(base, table):
                for m in cs:
                    for i, s in enumerate(n.slots):
                        if is_node(s):
                            m.slots[i] = c.pick(table[at[id(s)]]) if c.bool(.85) else s
                        elif s.key[0] == 'same':
                            row = next(r for r in SAME if r[0] == s.key[1])
                            m.slots[i] = Atom(c.pick(row), s.key) if c.bool(.7) else s
                            if m.slots[i] is not s:
                                atoms.append(m.slots[i])
                        elif s.key[0] in ('string', 'bytes') and c.bool(.7):
                            self.k += 1
                            m.slots[i] = Atom(s.expr, (s.key[0], self.k), s.equal)
                            atoms.append(m.slots[i])
                        else:
                            m.slots[i] = s
            new = [m for cs in table for m in cs]
            if c.bool(.4):
                m = c.pick(new)
                if m.slots:
                    features.add('one place changed')
                    m.slots[c.draw(len(m.slots))] = c.pick(atoms + nodes)
            copies += 1
            nodes += new
            if len(nodes) > 12:
                break
        pool = nodes + atoms
        for i, x in enumerate(pool):
            x.name = 'x%d' % i
        # build
        steps = []
        for n in nodes:
            for i, s in enumerate(n.slots):
                op = {'pair': ['set-car! %s', 'set-cdr! %s'][i] if n.kind == 'pair' else '', 'vector': 'vector-set! %%s %d' % i, 'box': 'set-box! %s'}[n.kind] % n.name
                steps.append('(%s %s)' % (op, s.name))
        init = ['(%s %s)' % (x.name, {'pair': "(cons #f #f)", 'box': '(box #f)', 'vector': '(make-vector %d #f)' % len(x.slots)}[x.kind] if is_node(x) else x.expr) for x in pool]
        # compare
        out, want = [], []

        def ask(e, w):
            out.append(e)
            want.append(w)

        def b(x):
            return '#t' if x else '#f'

        def strings(x, y):
            return not is_node(x) and not is_node(y) and x is not y and x.key[0] == y.key[0] == 'string' and x.equal == y.equal

        twins = False
        for _ in range(c.int(4, 30)):
            k = c.draw(10)
            x = c.pick(pool)
            y = c.pick(nodes) if is_node(x) and c.bool(.8) else c.pick(pool)
            if x is not y and is_node(x) and is_node(y) and equal(x, y):
                twins = True
            if k < 4:
                ask('(equal? %s %s)' % (x.name, y.name), b(equal(x, y)))
            elif k < 6:
                if not strings(x, y):
                    ask('(eqv? %s %s)' % (x.name, y.name), b(eqv(x, y)))
            elif k == 6:
                # eq? implies eqv?, and is identity on what has a location
                if is_node(x) or is_node(y) or x.key[0] != 'same' or y.key[0] != 'same':
                    if not (is_node(x) and is_node(y) and eqv(x, y) and x is not y):
                        ask('(eq? %s %s)' % (x.name, y.name), b(x is y or not is_node(x) and not is_node(y) and x.key == y.key))
                elif not eqv(x, y) or x.key[1][:1] in "'#" and not x.key[1].startswith('#\\'):
                    ask('(eq? %s %s)' % (x.name, y.name), b(eqv(x, y)))
            else:
                l = [c.pick(pool) for _ in range(c.int(0, 5))]
                rel = c.pick(['equal', 'eqv', 'eq'])
                if rel != 'equal' and any(strings(x, z) for z in l):
                    continue
                if rel == 'eq' and any(z is not x and eqv(x, z) and not (not is_node(x) and x.key[0] == 'same' and x.key[1][:1] == "'") for z in l):
                    continue
                f = equal if rel == 'equal' else eqv
                pos = next((i for i, z in enumerate(l) if f(x, z)), None)
                ls = ' '.join(z.name for z in l)
                features.add('searches')
                w = '#f' if pos is None else str(pos)
                if k == 7:
                    ask('(let ((l (list %s))) (index l (%s %s l)))' % (ls, {'equal': 'member', 'eqv': 'memv', 'eq': 'memq'}[rel], x.name), w)
                elif k == 8:
                    ask('(let ((r (%s %s (list %s)))) (and r (cdr r)))' % ({'equal': 'assoc', 'eqv': 'assv', 'eq': 'assq'}[rel], x.name, ' '.join('(cons %s %d)' % (z.name, i) for i, z in enumerate(l))), w)
                elif rel == 'equal':
                    ask('(length (delete %s (list %s)))' % (x.name, ls), str(sum(not equal(x, z) for z in l)))
                else:
                    # case uses eqv?: on literal atoms
                    keys = [r for r in c.sample(SAME, 4) if r[0] not in ('car', 'cdr', 'id', 'counter', '(eof-object)')]
                    if not is_node(x):
                        groups = []
                        for i, r in enumerate(keys):
                            groups.append('((%s) %d)' % (r[0].lstrip("'") if r[0] != "'()" else '()', i))
                        hit = next((i for i, r in enumerate(keys) if x.key == ('same', r[0])), 'else')
                        ask('(case %s %s (else \'else))' % (x.name, ' '.join(groups)), str(hit))
        has_cycle = cyclic
        labels = sorted(features) + (['cyclic'] if cyclic else []) + (['twins'] if twins else [])
        code = '(let* (%s) %s (list %s))' % (' '.join(init), ' '.join(steps), ' '.join(out))
        return pbt.Case(code, expect='(%s)' % ' '.join(want) if want else '()', nontrivial=twins or has_cycle, labels=labels)
