"""Shared and circular data: random graphs of pairs and vectors, written, read and compared as graphs."""
import re
import gen
import pbt
import sx
from sx import Sym

ATOMS = ['a', 'b', 1, -2, 'foo', True, False, [], '"s"', 12345678901234567890, '#\\a']


class Ref:
    def __init__(self, i):
        self.i = i


class Graph:
    """nodes[i] = ('p', x, y) or ('v', ...); a field is an atom (text) or a Ref."""

    def __init__(self):
        self.nodes = []
        self.root = None

    def canon(self):
        """Preorder numbering from the root, as canon of the Scheme side."""
        seen, out = {}, []
        visiting = [0]

        def visit(x):
            if not isinstance(x, Ref):
                return x
            if x.i in seen:
                return '(r %d)' % seen[x.i]
            n = seen[x.i] = len(seen)
            fields = [visit(y) for y in self.nodes[x.i][1:]]
            out.append('(%d %s %s)' % (n, self.nodes[x.i][0], ' '.join(fields)))
            return '(r %d)' % n
        r = visit(self.root)
        return '(%s %s)' % (r, '(' + ' '.join(reversed(out)) + ')' if out else '()')

    def reach(self):
        seen, todo = set(), [self.root]
        while todo:
            x = todo.pop()
            if isinstance(x, Ref) and x.i not in seen:
                seen.add(x.i)
                todo += self.nodes[x.i][1:]
        return seen

    def counts(self):
        n = {}
        for i in self.reach():
            for x in self.nodes[i][1:]:
                if isinstance(x, Ref):
                    n[x.i] = n.get(x.i, 0) + 1
        if isinstance(self.root, Ref):
            n[self.root.i] = n.get(self.root.i, 0) + 1
        return n

    def cyclic(self):
        """Nodes on a cycle."""
        out = set()
        for i in self.reach():
            seen, todo = set(), [x for x in self.nodes[i][1:]]
            while todo:
                x = todo.pop()
                if isinstance(x, Ref) and x.i not in seen:
                    seen.add(x.i)
                    todo += self.nodes[x.i][1:]
            if i in seen:
                out.add(i)
        return out


def text(a):
    return sx.show(a) if not isinstance(a, str) else a


TOKEN = re.compile(r'\s*(#\d+=|#\d+#|#\(|[()]|"[^"]*"|#\\.|[^\s()"]+)')


class Bad(Exception):
    pass


def parse(s):
    """Text with labels -> (Graph, labels defined {label: field}, labels used)."""
    toks = TOKEN.findall(s)
    if ''.join(toks) != re.sub(r'\s+', '', s):
        raise Bad('what is this text?')
    g, labels, used, pos = Graph(), {}, set(), [0]

    def peek():
        if pos[0] >= len(toks):
            raise Bad('text ends early')
        return toks[pos[0]]

    def take():
        t = peek()
        pos[0] += 1
        return t

    def datum(label=None):
        t = take()
        if re.fullmatch(r'#\d+=', t):
            if t[1:-1] in labels:
                raise Bad('label %s twice' % t)
            labels[t[1:-1]] = None
            return datum(t[1:-1])
        if re.fullmatch(r'#\d+#', t):
            if t[1:-1] not in labels:
                raise Bad('reference %s before its label' % t)
            used.add(t[1:-1])
            return labels[t[1:-1]]
        if t == '#(':
            i = len(g.nodes)
            g.nodes.append(None)
            if label:
                labels[label] = Ref(i)
            xs = []
            while peek() != ')':
                xs.append(datum())
            take()
            g.nodes[i] = ('v',) + tuple(xs)
            return Ref(i)
        if t == '(':
            if peek() == ')':
                take()
                return '()'
            i = len(g.nodes)
            g.nodes.append(None)
            if label:
                labels[label] = Ref(i)
            head = i
            x = datum()
            while True:
                if peek() == ')':
                    take()
                    g.nodes[i] = ('p', x, '()')
                    break
                if peek() == '.':
                    take()
                    g.nodes[i] = ('p', x, datum())
                    if take() != ')':
                        raise Bad('no ) after the tail')
                    break
                y = datum()
                j = len(g.nodes)
                g.nodes.append(None)
                g.nodes[i] = ('p', x, Ref(j))
                i, x = j, y
            return Ref(head)
        if t in (')', '.'):
            raise Bad('stray ' + t)
        if label:
            raise Bad('label on an atom')
        return t
    g.root = datum()
    if pos[0] != len(toks):
        raise Bad('text goes on')
    return g, labels, used


def bisimilar(a, b):
    seen, todo = set(), [(a.root, b.root)]
    while todo:
        x, y = todo.pop()
        if isinstance(x, Ref) != isinstance(y, Ref):
            return False
        if not isinstance(x, Ref):
            if x != y:
                return False
            continue
        if (x.i, y.i) in seen:
            continue
        seen.add((x.i, y.i))
        m, n = a.nodes[x.i], b.nodes[y.i]
        if m[0] != n[0] or len(m) != len(n):
            return False
        todo += zip(m[1:], n[1:])
    return True


def spell(c, g):
    """Text of the graph with labels of our own choosing."""
    n = g.counts()
    labelled = {i for i in n if n[i] > 1 or c.bool(0.15)}
    number = {}
    names = c.shuffle(range(len(labelled) + 3))
    if c.bool(0.2):
        names = [x * 7 + 1 for x in names]

    def go(x, cdr=False):
        if not isinstance(x, Ref):
            return x
        if x.i in number:
            return '#%d#' % number[x.i]
        pre = ''
        if x.i in labelled:
            number[x.i] = names.pop()
            pre = '#%d=' % number[x.i]
        k = g.nodes[x.i]
        if k[0] == 'v':
            return pre + '#(' + ' '.join(go(y) for y in k[1:]) + ')'
        out = [go(k[1])]
        while True:
            t = k[2]
            if t == '()':
                break
            if isinstance(t, Ref) and t.i not in labelled and g.nodes[t.i][0] == 'p' and not c.bool(0.1):
                k = g.nodes[t.i]
                out.append(go(k[1]))
                continue
            out += ['.', go(t)]
            break
        return pre + '(' + c.pick([' ', ' ', '  ', ' ;\n', ' #;(x) ']).join(out) + ')'
    return go(g.root)


class Check(pbt.Property):
    id = 'P04'
    imports = '(import (scheme read))\n'
    prelude = '''
(define (canon root)
  (let ((seen '()) (count 0) (out '()))
    (define (visit x)
      (if (or (pair? x) (and (vector? x) (< 0 (vector-length x))))
          (let ((a (assq x seen)))
            (if a
                (list 'r (cdr a))
                (let ((i count))
                  (set! count (+ count 1))
                  (set! seen (cons (cons x i) seen))
                  (if (pair? x)
                      (let* ((l (visit (car x))) (r (visit (cdr x))))
                        (set! out (cons (list i 'p l r) out)))
                      (let loop ((k 0) (ys '()))
                        (if (< k (vector-length x))
                            (loop (+ k 1) (cons (visit (vector-ref x k)) ys))
                            (set! out (cons (cons i (cons 'v (reverse ys))) out)))))
                  (list 'r i))))
          x))
    (let ((r (visit root))) (list r out))))
(define (through writer x)
  (let ((p (open-output-string)))
    (writer x p)
    (let ((s (get-output-string p)))
      (list (vector s) (canon (read (open-input-string s)))))))
'''
    batch = 40
    quick = 350
    thorough = 20000
    rule = 'the graph has at least three nodes and a node that is referred to twice'
    assumptions = ['strings, empty vectors and bytevectors are not shared (whether they get labels is up to the writer)']

    def graph(self, c):
        g = Graph()
        n = c.int(1, 4) if c.bool(0.5) else c.int(1, 12)
        shared = c.bool(0.8)

        def field(i, wide):
            k = c.draw(10)
            if k < 3 or n == 1 and not shared:
                return text(c.pick(ATOMS))
            if k < 8 and i + 1 < n:
                return Ref(i + 1 + c.draw(min(n - i - 1, 3)))
            if shared and k >= 6:
                return Ref(c.draw(n))
            return text(c.pick(ATOMS))
        acyclic = c.bool(0.3)
        for i in range(n):
            if c.bool(0.3):
                k = ['v'] + [field(i, True) for _ in range(c.int(1, 4))]
            else:
                k = ['p', field(i, False), field(i, False) if c.bool(0.9) else '()']
            if acyclic:
                k = [x if not isinstance(x, Ref) or x.i > i else '()' for x in k]
            g.nodes.append(tuple(k))
        g.root = Ref(0)
        return g

    def build(self, g):
        out, sets = [], []

        def lit(x):
            return x if x.startswith('"') or x[0] in '-0123456789#' else "'" + x
        for i, k in enumerate(g.nodes):
            if k[0] == 'p':
                out.append('(n%d (cons %s))' % (i, ' '.join('0' if isinstance(x, Ref) else lit(x) for x in k[1:])))
            else:
                out.append('(n%d (vector %s))' % (i, ' '.join('0' if isinstance(x, Ref) else lit(x) for x in k[1:])))
            for j, x in enumerate(k[1:]):
                if isinstance(x, Ref):
                    sets.append('(set-car! n%d n%d)' % (i, x.i) if k[0] == 'p' and j == 0 else
                                '(set-cdr! n%d n%d)' % (i, x.i) if k[0] == 'p' else '(vector-set! n%d %d n%d)' % (i, j, x.i))
        return '(let (%s) %s n0)' % (' '.join(out), ' '.join(sets))

    def gen(self, c):
        g = self.graph(c)
        n = g.counts()
        cyc = g.cyclic()
        share = {i for i in n if n[i] > 1}
        nontrivial = len(n) >= 3 and bool(share)
        labels = (['cyclic'] if cyc else []) + (['shared'] if share else ['tree'])
        k = c.draw(3)
        show = lambda t: re.sub(r'#\\(.)', lambda m: '$%d' % ord(m.group(1)), t)
        if k == 0:
            t = spell(c, g)
            if c.bool(0.2):
                return pbt.Case("(canon '%s)" % t, show(g.canon()), nontrivial=nontrivial, labels=labels + ['literal'])
            rest = c.pick(['', ' x', '(y)', ')'])
            return pbt.Case('(let ((p (open-input-string %s))) (let* ((x (canon (read p))) (r (read-string 99 p))) (list x (if (eof-object? r) "" r))))' % sx.strlit(t + rest),
                            '(%s %s)' % (show(g.canon()), sx.show(rest)), nontrivial=nontrivial, labels=labels + ['read'])
        shared = k == 1
        writer = 'write-shared' if shared else c.pick(['write', 'write', 'display' if not any('"' in str(x) or '\\' in str(x) for m in g.nodes for x in m) else 'write'])
        cyclic_ids = cyc

        def judge(t):
            m = re.match(r'\(#\("(.*?)"\) (.*)\)$', t, re.S)
            if not m:
                return 'no text: ' + t
            s = re.sub(r'\\(\d+);', lambda k: chr(int(k.group(1))), m.group(1))
            try:
                h, defs, used = parse(s)
            except Bad as e:
                return '%s: %s wrote %s' % (e, writer, s)
            if set(defs) != used:
                return '%s labels what it does not refer to: %s' % (writer, s)
            if not bisimilar(g, h):
                return '%s wrote other data: %s' % (writer, s)
            if shared:
                if g.canon() != h.canon():
                    return 'write-shared lost or invented sharing: %s' % s
            else:
                hc = h.cyclic()
                if any(isinstance(f, Ref) and f.i not in hc for f in defs.values()):
                    return '%s labels data that are on no cycle: %s' % (writer, s)
            if m.group(2) != show(h.canon()):
                return 'read of %s gave the graph %s, not %s' % (s, m.group(2), show(h.canon()))
            return None
        return pbt.Case('(through %s %s)' % (writer, self.build(g)), judge=judge, nontrivial=nontrivial, labels=labels + [writer])
