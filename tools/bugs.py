#!/usr/bin/env python3
"""Write the planted bugs of this table to /verif/seeded/<id>/ (patch.diff, demo.sh, demo.ss, meta.json).

bugs.py [ID...]    patches are made against /repo's HEAD; confirm them with plant.py
"""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def B(id, prop, edits, scm, want, needs, breaks, pre='', timeout=60, before=''):
    """edits: [(file, old, new)]; the demo runs scm with the interpreter and wants the output want."""
    BUGS[id] = dict(prop=prop, edits=edits, scm=scm, want=want, needs=needs, breaks=breaks, pre=pre, timeout=timeout, before=before)


DEMO = '''#!/bin/bash
# Exits 0 when the interpreter prints what it should.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 1
export LD_LIBRARY_PATH=/repo/_build/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
%(pre)s
got=$(timeout %(timeout)d /repo/_build/bin/meevax "$here/demo.ss" 2>&1)
want=$(cat "$here/want.txt")
if [ "$got" == "$want" ]; then exit 0; fi
echo "got:  $(echo "$got" | head -c 300)"
echo "want: $want"
exit 1
'''


def write(id):
    b = BUGS[id]
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='bug-')
    files = []
    for f, _, _ in b['edits']:
        if f not in files:
            files.append(f)
    diff = ''
    for f in files:
        src = open('/repo/' + f).read()
        new = src
        for g, o, n in b['edits']:
            if g == f:
                assert new.count(o) == 1, (id, f, new.count(o), o)
                new = new.replace(o, n)
        for side, text in (('a', src), ('b', new)):
            os.makedirs(os.path.join(tmp, side, os.path.dirname(f)), exist_ok=True)
            open(os.path.join(tmp, side, f), 'w').write(text)
        r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=tmp, stdout=subprocess.PIPE, text=True)
        diff += r.stdout
    subprocess.check_call(['rm', '-rf', tmp])
    diff = '\n'.join(l.split('\t')[0] if l.startswith(('--- ', '+++ ')) else l for l in diff.split('\n'))
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.ss'), 'w').write(b['scm'].strip('\n') + '\n')
    open(os.path.join(d, 'want.txt'), 'w').write(b['want'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % b)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'meta.json'), 'a').write('\n')
    # the patch must only touch original lines
    orig = subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')])
    assert orig.returncode == 0
    for f, o, _ in b['edits']:
        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f], stdout=subprocess.PIPE, text=True).stdout.split('\n')
        minus = set()
        cur = None
        infile = False
        for l in diff.split('\n'):
            if l.startswith('--- '):
                infile = l[6:] == f
            elif l.startswith('@@'):
                cur = int(l.split()[1][1:].split(',')[0])
            elif infile and cur is not None:
                if l.startswith('-'):
                    minus.add(cur)
                    cur += 1
                elif not l.startswith('+') and not l.startswith('\\'):
                    cur += 1
        base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], stdout=subprocess.PIPE, text=True).stdout.strip()
        mine = [n for n in minus if base[:30] not in bl[n - 1].split(' ')[0].lstrip('^') and bl[n - 1].split(' ')[0].lstrip('^')[:30] not in base]
        if mine:
            print(id, f, 'changes lines of my own commits:', mine, 'of', sorted(minus))




if __name__ == '__main__':
    import bugs_table
    BUGS.update(bugs_table.BUGS)
    for i in sys.argv[1:] or BUGS:
        write(i)
        print('wrote', i)
