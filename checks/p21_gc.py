"""Programs of all the other checks, and churning ones, under generated schedules of garbage collection."""
import importlib
import re

import churn
import pbt

SUBS = ['p15_programs', 'p17_continuations', 'p18_exceptions', 'p19_syntax_rules', 'p20_hygiene', 'p26_promises', 'p27_parameters',
        'p01_roundtrip', 'p04_labels', 'p05_exact', 'p10_lists', 'p11_srfi1', 'p12_strings', 'p13_vectors', 'p14_ports']
MEAN = [1, 1, 2, 3, 7, 20, 60]


class Check(pbt.Property):
    id = 'P21'
    variant = 'gc'
    program = True
    timeout = 40.0
    quick = 450
    thorough = 40000
    rule = "the program allocates at least 40 times; some 48 collections were forced in three schedules"
    assumptions = ['an object reclaimed too early shows in the output: its memory is reused or its destructor has run when the program looks at it',
                   'forced collections happen where the interpreter itself may collect (the wrapped meevax::request)']
    per_schedule = 12    # collections (about 6 ms each)

    def __init__(self):
        self.subs = None

    def sub(self, i):
        if self.subs is None:
            self.subs = [importlib.import_module(n).Check() for n in SUBS]
        return self.subs[i]

    def gen(self, c):
        k = c.draw(len(SUBS) + 5)
        schedules = [(c.pick(MEAN), c.draw(2) * (1 + c.draw(10 ** 6)), c.draw(1000)) for _ in range(2)]
        spread = 1 + c.draw(10 ** 6)
        if k >= len(SUBS):
            code, expect, rules = churn.make(c, c.pick([2, 10, 60, 200]))
            case = pbt.Case(code, expect=expect, labels=['churn'])
        else:
            sub = self.sub(k)
            for _ in range(20):
                x = sub.gen(c)
                if x.nontrivial:
                    break
            code = sub.assemble([x])
            case = pbt.Case(code, expect=None, labels=[sub.id])
        case.opts = {'schedules': schedules, 'spread': spread}
        return case

    def run_program(self, srv, case):
        r = srv.run(case.code, timeout=self.timeout, gc_count=True)
        if r.timed_out or r.exit_code != 0:
            if case.expect is not None:
                return '%s without forced collections; stderr: %s' % (r.describe(), pbt.clip(r.err.decode('utf-8', 'replace'), 300))
            case.nontrivial = False     # for the check that owns the program
            return None
        if case.expect is not None and r.out.decode('utf-8', 'replace') != case.expect:
            return 'expected %s, got %s' % (pbt.clip(case.expect), pbt.clip(r.out.decode('utf-8', 'replace')))
        n = r.allocations
        if not n:
            case.nontrivial = False
            return None
        plans = [dict(gc_every=max(1, n // self.per_schedule), gc_seed=case.opts['spread'], gc_max=2 * self.per_schedule)]
        for every, seed, where in case.opts['schedules']:
            plans.append(dict(gc_every=every, gc_seed=seed, gc_skip=max(0, n - every * self.per_schedule) * where // 1000, gc_max=self.per_schedule))
        for p in plans:
            q = srv.run(case.code, timeout=self.timeout, **p)
            if q.timed_out or q.exit_code != 0 or q.out != r.out:
                return 'with collections %s: %s %s %s; without: %s' % (
                    p, q.describe(), pbt.clip(q.out.decode('utf-8', 'replace'), 400), pbt.clip(q.err.decode('utf-8', 'replace'), 200), pbt.clip(r.out.decode('utf-8', 'replace'), 400))
        case.nontrivial = n >= 40
        return None
