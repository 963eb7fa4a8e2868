#!/usr/bin/env python3
"""Confirm planted bugs in a copy of /repo, which a private mount namespace shows as /repo, and run checks against them.

plant.py prepare                     (re)make the copy /tmp/pl from /repo
plant.py confirm ID...               patch applies, builds, stable tests pass, demo fails with it and passes without
plant.py check ID [CHECK...]         run the check of its property (or the given ones) against it
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = '/tmp/pl'
NS = ['unshare', '-m', 'bash', '-c']


def ns(script, timeout=1800, env=None):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(NS + ['mount --bind %s /repo && cd /repo && %s' % (PL, script)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=e)


def reset():
    subprocess.check_call(['git', '-C', PL, 'checkout', '-q', '--', '.'])


def apply(i):
    reset()
    subprocess.check_call(['git', '-C', PL, 'apply', os.path.join(V, 'seeded', i, 'patch.diff')])


def demo(i):
    d = tempfile.mkdtemp(prefix='demo-')
    for f in os.listdir(os.path.join(V, 'seeded', i)):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            continue
        shutil.copy2(os.path.join(V, 'seeded', i, f), d)
    r = ns('timeout 300 bash %s/demo.sh' % d)
    shutil.rmtree(d)
    return r.returncode, r.stdout[-300:]


def prepare():
    shutil.rmtree(PL, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', PL])
    reset()
    r = ns('bash /opt/vp/build.sh')
    print('build', r.returncode)


def confirm(ids):
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = stable.get('stable') or stable.get('stable_tests') or stable['tests']
    ok = {}
    reset()
    r = ns('bash /opt/vp/build.sh')
    assert r.returncode == 0, r.stdout[-2000:]
    for i in ids:
        ok[i] = demo(i)
        if ok[i][0]:
            print(i, 'DEMO FAILS UNCHANGED', ok[i])
    for i in ids:
        apply(i)
        r = ns('bash /opt/vp/build.sh')
        if r.returncode:
            print(i, 'DOES NOT BUILD', r.stdout[-1500:])
            continue
        rc, out = demo(i)
        res = '/tmp/plant-test.json'
        ns('bash /opt/vp/test.sh %s' % res)
        ps = set(json.load(open(res))['passed'])
        miss = [x for x in stable if x not in ps]
        good = rc != 0 and not miss and ok[i][0] == 0
        print(i, 'GOOD' if good else 'BAD', 'demo', rc, repr(out[-160:]), 'missing', len(miss), miss[:3], flush=True)
    reset()


def check(i, checks):
    meta = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    apply(i)
    for c in checks or [meta['property']]:
        r = ns('cd %s && timeout 900 python3 checks/run.py %s --tier quick' % (V, c), env={'VERIF_CACHE': '/tmp/plc', 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
        print(i, c, 'rc', r.returncode, '|', r.stdout.strip()[-500:].replace('\n', ' / '), flush=True)
    reset()


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'prepare':
        prepare()
    elif a[0] == 'confirm':
        confirm(a[1:])
    else:
        check(a[1], a[2:])
