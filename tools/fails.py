#!/usr/bin/env python3
"""The shortest failing cases of a property: tools/fails.py P20 [BATCHES [SHOW [SEED]]], each case run alone."""
import os, sys, importlib, glob, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
sys.setrecursionlimit(20000)
import build, server, pbt


def work(a):
    mod, built, seed, b = a
    p = importlib.import_module(mod).Check()
    srv = server.Server(built, p.variant, warm=p.warm, env=p.server_env)
    out = []
    p.single_timeout = 5
    for _, k in p.make_batch(seed, b):
        m = p.run_single(srv, k)
        if m:
            out.append((len(k.code), k.code, m, k.expect, k.labels))
    srv.close()
    return out


if __name__ == '__main__':
    pid = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 16
    show = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    mod = os.path.basename(glob.glob(V + '/checks/%s_*.py' % pid.lower())[0])[:-3]
    p = importlib.import_module(mod).Check()
    built = build.build((p.variant,))
    with mp.Pool(8) as pool:
        r = sum(pool.map(work, [(mod, built, seed, b) for b in range(n)], chunksize=1), [])
    r.sort(key=lambda x: x[0])
    print(len(r), 'failing')
    for _, code, m, e, l in r[:show]:
        print('---', m.strip()[:300], l)
        print(code[:1500])
        print('EXPECT', e)
