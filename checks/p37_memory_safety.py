"""Programs of all the other checks under AddressSanitizer and UndefinedBehaviorSanitizer."""
import importlib
import re

import churn
import pbt

SUBS = ['p01_roundtrip', 'p03_reader', 'p04_labels', 'p05_exact', 'p06_division', 'p07_bitwise', 'p08_flonum', 'p09_number_text', 'p10_lists', 'p11_srfi1',
        'p12_strings', 'p13_vectors', 'p14_ports', 'p15_programs', 'p17_continuations', 'p18_exceptions', 'p19_syntax_rules', 'p20_hygiene',
        'p25_cond_expand', 'p27_parameters', 'p28_records', 'p29_equivalence', 'p31_quasiquote', 'p32_eval', 'p33_values', 'p34_fx_fl', 'p36_complex']
BAD = re.compile(r'(AddressSanitizer|runtime error:|LeakSanitizer|DEADLYSIGNAL)[^\n]*')


class Check(pbt.Property):
    id = 'P37'
    variant = 'asan'
    program = True
    timeout = 60.0
    quick = 2500
    thorough = 60000
    rule = 'the program ran to its end (its own check judges what it printed)'
    assumptions = ['a stack that overflows in the sanitized build only is no violation (its frames are larger)',
                   'gcc 13 AddressSanitizer and UndefinedBehaviorSanitizer report the invalid accesses and undefined operations that they document',
                   'memory that the collector or a pool reuses is not tracked by the sanitizer; P21 and P23 look for such errors']

    def __init__(self):
        self.subs = None

    def sub(self, i):
        if self.subs is None:
            self.subs = [importlib.import_module(n).Check() for n in SUBS]
        return self.subs[i]

    def gen(self, c):
        k = c.draw(len(SUBS) + 1)
        if k == len(SUBS):
            code, expect, rules = churn.make(c, c.pick([2, 10, 60]))
            return pbt.Case(code, labels=['churn'])
        sub = self.sub(k)
        if sub.program:
            return pbt.Case(sub.assemble([sub.gen(c)]), labels=[sub.id])
        return pbt.Case(sub.assemble([sub.gen(c) for _ in range(c.int(1, 15))]), labels=[sub.id])

    def run_program(self, srv, case):
        r = srv.run(case.code, timeout=self.timeout)
        err = r.err.decode('utf-8', 'replace')
        if 'stack-overflow' in err:     # frames are larger in this build, and tail calls of C++ are calls
            case.nontrivial = False
            return None
        m = BAD.search(err)
        if m or r.exit_code == 77:
            at = re.search(r'#\d+ 0x\w+ in (meevax\S*|[^\n]*kernel[^\n]*)', err)
            return 'sanitizer: %s%s' % (pbt.clip(m.group(0) if m else err, 300), ' at ' + at.group(1)[:200] if at else '')
        if not r.timed_out and r.exit_code < 0:
            return 'ended with %s' % r.describe()
        case.nontrivial = not r.timed_out and r.exit_code == 0
        return None
