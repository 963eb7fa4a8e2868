"""Generated programs, differential against the reference interpreter of lib/ref.py."""
import pbt
import progen
import ref
import sx
from sx import Sym as S


class Check(pbt.Property):
    id = 'P15'
    imports = '(import (only (scheme base) let-values let*-values call-with-values))'
    prelude = '''
(define verif-log '())
(define (out x) (set! verif-log (cons x verif-log)))
'''
    batch = 25
    quick = 420
    thorough = 12000
    rule = 'the program uses at least five binding, control or data features and terminates within 200000 steps of the reference'
    assumptions = ['the reference interpreter lib/ref.py implements R7RS (an independent CPS evaluator, derived forms from the text of the report)',
                   'programs do not depend on the unspecified order of argument evaluation']
    size = 90

    def make(self, c):
        """(toplevel forms, expression, features)"""
        g = progen.Gen(c, fuel=self.size)
        top = []
        scope = ()
        for i in range(c.draw(4)):
            k = c.draw(3)
            name = 'g@@-%d' % i
            if k == 0:
                t = c.pick(['int', 'list', 'vec'])
                top.append([S('define'), S(name), g.expr(t, scope, 3)])
                scope = scope + (progen.Var(name, t, True),)
            elif k == 1:
                p = g.params(['int'])[0]
                top.append([S('define'), [S(name), S(p.name)]] + g.body('int', scope + (p,), 4, False))
                scope = scope + (progen.Var(name, 'fn', True),)
            else:
                top.append([S('define'), S(name), g.lam([], 'int', scope, 4, False)])
                scope = scope + (progen.Var(name, 'thunk', True),)
        body = g.body(c.pick(['int', 'int', 'list', 'bool', 'vec']), scope, 6, False)
        return top, body, g.features

    def reference(self, top, body):
        m = ref.Machine(self.limit)
        log = []
        m.globals.vars['out'] = ref.Prim('out', lambda x: log.append(ref.unheap(x)) or sx.UNSPEC)
        for t in top:
            m.run(t)
        v = m.run([[S('lambda'), []] + body])
        return sx.show([ref.unheap(v), log]), m.steps

    limit = 20000

    def gen(self, c):
        for _ in range(20):
            top, body, features = self.make(c)
            try:
                expect, steps = self.reference(top, body)
            except (ref.Overrun, RecursionError, ref.SchemeError):
                self.excluded = getattr(self, 'excluded', 0) + 1
                continue
            if len(expect) > 20000:
                continue
            break
        else:
            return pbt.Case("(list 1 '())", expect='(1 ())', nontrivial=False)
        return self.case(top, body, expect, features)

    def case(self, top, body, expect, features):
        code = "(let ((v (let () %s))) (list v (reverse verif-log)))" % ' '.join(ref.src(b) for b in body)
        return pbt.Case(code, expect=expect, nontrivial=len(features) >= 5, labels=['call/cc'] if 'call/cc' in features else [],
                        extra=' '.join(ref.src(t) for t in top))

    def assemble(self, cases):
        out = [pbt.BATCH_PRELUDE, self.imports, self.prelude]
        for i, k in enumerate(cases):
            n = str(i)
            out.append("(set! verif-log '())")
            if k.extra:
                out.append(k.extra.replace('@@', n) + '\n')
            out.append('(verif-run %d (lambda () %s))\n' % (i, k.code.replace('@@', n)))
        return ''.join(out)
