"""Parameters in programs with non-local exits, differential against the reference interpreter."""
import ctlgen


class Check(ctlgen.Check):
    id = 'P27'
    rule = 'the program binds a parameter and leaves or re-enters extents by continuations or exceptions'
    weights = [(3, 'leaf'), (3, 'seq'), (3, 'two'), (3, 'let'), (3, 'add'), (1, 'if'), (1, 'set'), (1, 'loop'), (1, 'foreach'), (2, 'call'),
               (4, 'wind'), (5, 'cc'), (5, 'throw'), (4, 'save'), (4, 'reenter'), (2, 'raise'), (2, 'raisec'), (1, 'error'),
               (3, 'handler'), (2, 'catch'), (4, 'guard'), (14, 'param'), (8, 'params'), (1, 'force'), (2, 'gen')]

    def interesting(self, m, g):
        return 'parameterize' in g.features and bool(g.features & {'throw', 'reenter', 'raise', 'guard', 'generator', 'handler'})
