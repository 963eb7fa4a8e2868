"""Exceptions and handlers, differential against the reference interpreter."""
import ctlgen


class Check(ctlgen.Check):
    id = 'P18'
    rule = 'at least two exceptions were raised, or one that passed a dynamic-wind, handler or guard'
    weights = [(3, 'leaf'), (5, 'seq'), (3, 'two'), (3, 'let'), (3, 'add'), (2, 'if'), (1, 'set'), (1, 'loop'), (1, 'foreach'), (2, 'call'),
               (5, 'wind'), (3, 'cc'), (3, 'throw'), (1, 'save'), (1, 'reenter'), (8, 'raise'), (8, 'raisec'), (6, 'error'), (5, 'system'),
               (8, 'handler'), (6, 'catch'), (12, 'guard'), (1, 'param'), (1, 'params'), (1, 'force')]

    def interesting(self, m, g):
        return m.raised > 1 or m.raised and (m.moved > 0 or len(g.features & {'handler', 'guard', 'wind'}) > 1)
