#!/usr/bin/env python3
"""checks/run.py ID [--tier quick|thorough] [--seed N] [--count N] [--replay FILE]

Builds the interpreter from /repo's working tree, searches for a violation of
property ID and writes evidence/ID.json.  Exit 0: held.  1: VIOLATION line printed.  2: no answer.
"""
import argparse
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, 'lib'), HERE]
sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)

import build
import pbt
import server


def findings(pid):
    """Entries of known-findings.txt for this property: [(kind, text)]"""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def find_property(pid):
    for f in sorted(os.listdir(HERE)):
        if f.endswith('.py') and f.startswith(pid.lower() + '_'):
            mod = importlib.import_module(f[:-3])
            return mod.Check()
    raise SystemExit('no check for ' + pid)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--count', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    prop = find_property(a.id)
    try:
        built = build.build(tuple(prop.variants()))
    except Exception as e:
        print('cannot build /repo: %s' % str(e)[-3000:], file=sys.stderr)
        return 2
    if a.replay:
        return replay(prop, built, a.replay)
    o = prop.explore(built, a.seed, a.tier, a.count)
    seen = set()
    for fid, text in findings(prop.id):
        still = prop.demonstrate(built, fid)
        seen.add(fid)
        if still:
            print('KNOWN-FINDING: property=%s %s' % (prop.id, text))
        else:
            print('note: known finding %s of %s no longer shows' % (fid, prop.id))
    ev = {'property': prop.id, 'tier': a.tier, 'seed': a.seed, 'level': prop.level,
          'coverage': {'evaluations': o.evaluations, 'distinct_nontrivial': o.nontrivial,
                       'rule': prop.rule, 'samples': o.samples[:8],
                       'classes': dict(sorted(o.labels.items())),
                       'cut_by_time': bool(o.cut), **o.extra},
          'assumptions': list(prop.assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(o.violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d cases, %d distinct non-trivial, %.1f s' % (prop.id, o.evaluations, o.nontrivial, time.time() - t0))
    if o.violations:
        for m, path in o.violations:
            print(m)
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if o.fatal:
        print('no answer: ' + o.fatal, file=sys.stderr)
        return 2
    return 0


def replay(prop, built, path):
    """Runs the recorded program against the current tree and shows what it does."""
    d = json.load(open(path))
    if d.get('choices') is not None:
        srv = server.Server(built, prop.variant, warm=prop.warm, env=prop.server_env)
        c = prop.gen(pbt.Choices(prefix=d['choices']))
        m = prop.run_single(srv, c)
        srv.close()
        print(prop.assemble([c]))
        print(m or 'holds')
        if m:
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1 if m else 0
    srv = server.Server(built, prop.variant, warm=prop.warm, env=prop.server_env)
    r = srv.run(d['program'], timeout=prop.timeout)
    srv.close()
    print(d['message'])
    print(r.describe(), r.out.decode('utf-8', 'replace'), r.err.decode('utf-8', 'replace'))
    return 0


if __name__ == '__main__':
    sys.exit(main())
