"""Record types and histories of operations on their instances, against a model."""
import pbt

FIELDS = ['a', 'b', 'x', 'name', 'type', 'value', 'size', 'args', 'new', 'record', 'i', 'index', 'thing', 'list', 'if']
TYPES = ['point', '<point>', 'node', ':pare', 'pare', 'thing']


class Gen:
    def __init__(self, c):
        self.c, self.n = c, 0
        self.features = set()
        self.types = []     # (fields, constructor fields, accessors {field: name}, modifiers {field: name}, constructor, predicate)

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def define(self, top):
        c = self.c
        fields = c.sample(FIELDS, c.pick([0, 1, 1, 2, 2, 3, 3, 4, 6]))
        k = c.draw(4)
        if k == 0:
            cf = list(fields)
        elif k == 1:
            cf = c.shuffle(fields)
            self.features.add('constructor permutes')
        else:
            cf = c.sample(fields, c.int(0, len(fields)))
            if len(cf) < len(fields):
                self.features.add('constructor leaves out')
        t = c.pick(TYPES) if not top else self.fresh('type')
        con, pred = self.fresh('make'), self.fresh('is?')
        acc, mod, specs = {}, {}, []
        for f in fields:
            acc[f] = self.fresh('get-')
            if c.bool(.6):
                mod[f] = self.fresh('set!-')
            specs.append('(%s %s%s)' % (f, acc[f], ' ' + mod[f] if f in mod else ''))
        if len(self.types) and any(set(x['fields']) == set(fields) for x in self.types):
            self.features.add('same fields')
        ty = dict(fields=fields, cf=cf, acc=acc, mod=mod, con=con, pred=pred, id=len(self.types))
        self.types.append(ty)
        return '(define-record-type %s (%s) %s %s)' % (t, ' '.join([con] + cf), pred, ' '.join(specs)), ty


def val(v):
    if isinstance(v, tuple):
        return v[0]
    return str(v)


class Check(pbt.Property):
    id = 'P28'
    batch = 25
    quick = 400
    thorough = 8000
    rule = 'two record types with an instance each, and a modifier or a foreign object'
    assumptions = ['fields that no constructor or modifier has set yet are not read (their value is unspecified)']

    def gen(self, c):
        g = Gen(c)
        # the types are defined in one body, in nested bodies, or made more than once by calling a procedure
        defs = [g.define(False) for _ in range(c.int(1, 4))]
        objs = []        # (variable, type, {field: value}) -- variables may name the same object
        steps, want = [], []
        ty = [t for _, t in defs]
        k = [100]

        def num():
            k[0] += 1
            return k[0]

        def note(e, w):
            steps.append('(set! out (cons %s out))' % e)
            want.append(w)

        foreign = ["'()", '#t', '5', '"x"', "'sym", '(list 1 2)', '(vector)', '(vector 1 2 3)', '(vector (list (quote record-marker)) 1 2)', 'car', '#\\a', '(cons 1 2)', '(make-vector 4 #f)', '(if #f #f)', "''a"]
        for _ in range(c.int(4, 24)):
            what = c.weighted([(4, 'make'), (6, 'get'), (5, 'set'), (4, 'is'), (2, 'foreign'), (3, 'wrong'), (1, 'alias'), (1, 'eq'), (1, 'type')])
            if what == 'make' or not objs:
                t = c.pick(ty)
                o = 'o%d' % len(objs)
                args = []
                vals = {}
                for f in t['cf']:
                    if objs and c.bool(.2):
                        q = c.pick(objs)
                        args.append(q[0])
                        vals[f] = q
                    else:
                        v = num()
                        args.append(str(v))
                        vals[f] = v
                steps.append('(set! %s (%s))' % (o, ' '.join([t['con']] + args)))
                objs.append((o, t, vals))
                continue
            o = c.pick(objs)
            t = o[1]
            if what == 'get':
                fs = [f for f in t['fields'] if f in o[2]]
                if fs:
                    f = c.pick(fs)
                    v = o[2][f]
                    if isinstance(v, tuple):
                        note('(eq? (%s %s) %s)' % (t['acc'][f], o[0], v[0]), '#t')
                    else:
                        note('(%s %s)' % (t['acc'][f], o[0]), str(v))
            elif what == 'set':
                fs = [f for f in t['fields'] if f in t['mod']]
                if fs:
                    g.features.add('modifier')
                    f = c.pick(fs)
                    if c.bool(.2):
                        q = c.pick(objs)
                        steps.append('(%s %s %s)' % (t['mod'][f], o[0], q[0]))
                        o[2][f] = q
                    else:
                        v = num()
                        steps.append('(%s %s %d)' % (t['mod'][f], o[0], v))
                        o[2][f] = v
            elif what == 'is':
                u = c.pick(ty)
                note('(%s %s)' % (u['pred'], o[0]), '#t' if u is t else '#f')
            elif what == 'foreign':
                g.features.add('foreign object')
                note('(%s %s)' % (t['pred'], c.pick(foreign)), '#f')
            elif what == 'wrong':
                u = c.pick(ty)
                if u is not t and u['fields']:
                    g.features.add('wrong type')
                    f = c.pick(u['fields'])
                    if f in u['mod'] and c.bool():
                        note("(attempt (lambda () (%s %s 7)))" % (u['mod'][f], o[0]), 'refused')
                    else:
                        note("(attempt (lambda () (%s %s)))" % (u['acc'][f], o[0]), 'refused')
            elif what == 'alias':
                v = 'o%d' % len(objs)
                steps.append('(set! %s %s)' % (v, o[0]))
                objs.append((v, t, o[2]))
            elif what == 'eq':
                q = c.pick(objs)
                note('(eq? %s %s)' % (o[0], q[0]), '#t' if o[2] is q[2] else '#f')
        # at the end everything is read again
        for o, t, vals in objs:
            for f in t['fields']:
                if f in vals and not isinstance(vals[f], tuple):
                    note('(%s %s)' % (t['acc'][f], o), str(vals[f]))
        names = sorted(set(o[0] for o in objs))
        body = '(let (%s (out \'())) %s (reverse out))' % (' '.join('(%s #f)' % n for n in names), ' '.join(steps))
        style = c.draw(3)
        code = None
        if style == 0:       # nested bodies: types of the same name in different scopes
            code = body
            for d, _ in reversed(defs):
                code = '(let () %s %s)' % (d, code)
        else:                # the types leave the scope they were made in
            g.features.add('types leave their scope')
            code = body
            for d, t in reversed(defs):
                ns = [t['con'], t['pred']] + list(t['acc'].values()) + list(t['mod'].values())
                code = '(call-with-values (lambda () (let () %s (values %s))) (lambda (%s) %s))' % (d, ' '.join(ns), ' '.join(ns), code)
            if style == 2:   # the same definition evaluated twice makes two types
                d, t = c.pick(defs)
                g.features.add('one definition, two types')
                ns = [t['con'], t['pred']]
                code = ('(let ((make (lambda () (let () %s (list %s))))) (let ((p (make)) (q (make))) (list (let ((o (apply (car p) \'(%s)))) (list ((cadr p) o) ((cadr q) o))) %s)))'
                        % (d, ' '.join(ns), ' '.join(map(str, range(len(t['cf'])))), code))
        w = '(%s)' % ' '.join(want)
        if style == 2:
            w = '((#t #f) %s)' % w
        return pbt.Case(code, expect=w, nontrivial=len(objs) > 1 and len({o[1]['id'] for o in objs}) > 1 and bool(g.features & {'modifier', 'foreign object', 'wrong type'}), labels=sorted(g.features))

    demos = {'record-vector': ('(let () (define-record-type p (mk a) p? (a p-a)) (list (vector? (mk 1)) (equal? (mk 1) (mk 1))))', '(#f #f)')}

    prelude = '''
(define (attempt thunk)
  (call-with-current-continuation
    (lambda (k) (with-exception-handler (lambda (e) (k 'refused)) (lambda () (list 'answered (thunk)))))))
'''
