"""Continuations and dynamic-wind, differential against the reference interpreter."""
import ctlgen


class Check(ctlgen.Check):
    id = 'P17'
    rule = 'a continuation ran at least one before or after thunk on its way'
    weights = [(3, 'leaf'), (6, 'seq'), (3, 'two'), (3, 'let'), (3, 'add'), (2, 'if'), (2, 'set'), (2, 'loop'), (2, 'foreach'), (2, 'call'), (1, 'apply'),
               (12, 'wind'), (8, 'cc'), (8, 'throw'), (7, 'save'), (7, 'reenter'), (2, 'values'), (2, 'gen'), (1, 'guard'), (1, 'raise'), (1, 'param'), (1, 'params'), (1, 'force')]

    depth = 9
    fuel = 80

    def interesting(self, m, g):
        return m.moved > 0
