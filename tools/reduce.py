#!/usr/bin/env python3
"""Tree-level reduction of a P15-like counterexample: tools/reduce.py CHECK REPLAY

Deletes list elements and hoists subexpressions while reference and interpreter still disagree.
"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
sys.setrecursionlimit(20000)
import importlib, pbt, ref, server, build, sx
from sx import Sym as S

pid, path = sys.argv[1:3]
mod = [f[:-3] for f in os.listdir(V + '/checks') if f.startswith(pid.lower() + '_')][0]
ck = importlib.import_module(mod).Check()
d = json.load(open(path))
got = []
orig = ck.reference
def spy(top, body):
    r = orig(top, body)
    got[:] = [top, body]
    return r
ck.reference = spy
ck.gen(pbt.Choices(prefix=d['choices']))
top, body = got
srv = server.Server(build.build((ck.variant,)), ck.variant)
n = 0

def bad(top, body):
    global n
    try:
        e, _ = orig(top, body)
    except Exception:
        return False
    n += 1
    if '#;' in e:
        return False
    k = ck.case(top, body, e, ())
    m = ck.run_single(srv, k)
    return m is not None and m.startswith('expected') and '!error' not in m

def edits(x):
    """All one-step reductions of x."""
    if isinstance(x, list) and not isinstance(x, sx.Vec):
        for y in x:
            if isinstance(y, list):
                yield y
        if x:
            yield 0
        for i in range(len(x)):
            yield x[:i] + x[i + 1:]
        for i, y in enumerate(x):
            for z in edits(y):
                yield x[:i] + [z] + x[i + 1:]
    elif isinstance(x, int) and not isinstance(x, bool) and x not in (0, 1):
        yield 1

prog = [top, body]
assert bad(*prog)
again = True
while again:
    again = False
    for which in (1, 0):
        for cand in edits(prog[which]):
            if not isinstance(cand, list):
                continue
            p = list(prog)
            p[which] = cand
            try:
                if bad(*p):
                    prog = p
                    again = True
                    break
            except Exception:
                pass
        if again:
            break
for t in prog[0]:
    print(ref.src(t))
for t in prog[1]:
    print(ref.src(t))
k = ck.case(prog[0], prog[1], orig(*prog)[0], ())
print(ck.run_single(srv, k), n)
srv.close()
