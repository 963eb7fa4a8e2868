"""Operation histories on the pointer set, the pool allocator and the tagged pointer, against models in Python."""
import bisect
import hashlib
import math
import os
import struct
import subprocess

import build
import pbt
from pbt import VERIF

HARNESS = os.path.join(VERIF, 'harness/mem.cpp')


def harness(built):
    with open(HARNESS, 'rb') as f:
        key = hashlib.sha1(f.read()).hexdigest()[:10]
    exe = os.path.join(built['dir'], 'mem-' + key)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        subprocess.run([build.GXX, '-std=c++20', '-O1', '-DNDEBUG', '-w', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,bounds',
                        '-fno-sanitize-recover=undefined', '-I', built['dir'] + '/include', HARNESS, '-o', tmp], check=True)
        os.rename(tmp, exe)
    return exe


# kind: alignment and number of address bits
SETS = {'s0': (8, 47), 's1': (4, 47), 's2': (8, 14), 's3': (2, 18)}
LEVELS = {'s0': (16, 32), 's1': (16, 32), 's2': (6, 9), 's3': (7, 9)}


class SetModel:
    def __init__(self):
        self.xs = []

    def has(self, x):
        i = bisect.bisect_left(self.xs, x)
        return i < len(self.xs) and self.xs[i] == x

    def add(self, x):
        bisect.insort(self.xs, x)

    def remove(self, x):
        del self.xs[bisect.bisect_left(self.xs, x)]


def gen_set(c):
    kind = c.pick(['s0', 's0', 's1', 's2', 's2', 's3'])
    align, bits = SETS[kind]
    shift = align.bit_length() - 1
    top = (1 << bits) - align
    bases = [0, top] + [c.int(0, (1 << bits) - 1) & -align for _ in range(c.int(1, 3))]
    for l in LEVELS[kind]:
        bases.append(((c.int(0, (1 << bits) - 1) >> (l + shift)) << (l + shift)) & ((1 << bits) - 1))

    def addr():
        k = c.draw(8)
        b = c.pick(bases)
        if k < 5:
            b += align * (c.draw(12) - 6)
        elif k == 5:
            b += align * 64 * (c.draw(5) - 2) + align * (c.draw(3) - 1)
        elif k == 6:
            l = c.pick(LEVELS[kind])
            b += (1 << (l + shift)) * (c.draw(5) - 2) + align * (c.draw(3) - 1)
        else:
            b = c.int(0, (1 << bits) - 1)
        return min(max(b & -align, 0), top)

    a, b = SetModel(), SetModel()
    ops, want = [kind], []
    line = lambda xs, ended: want.append(' '.join('%x' % x for x in xs) + (' ' if xs else '') + ('end' if ended else ''))
    erased = far = walks = 0
    for _ in range(c.int(1, 60)):
        k = c.draw(22)
        if k < 8:
            x = addr()
            if a.has(x) or len(a.xs) > 400:
                continue
            a.add(x)
            ops.append('i %d' % x)
        elif k < 11:
            if not a.xs:
                continue
            x = c.pick(a.xs)
            a.remove(x)
            erased += 1
            ops.append('e %d' % x)
        elif k == 11:
            x = addr()
            ops.append('c %d' % x)
            want.append('%d' % a.has(x))
        elif k == 12:
            ops.append('n')
            want.append('%d %d' % (len(a.xs), not a.xs))
        elif k in (13, 14):
            x, n = addr(), c.int(0, 6)
            i = bisect.bisect_left(a.xs, x)
            ops.append('l %d %d' % (x, n))
            line(a.xs[i:i + n], i + n >= len(a.xs))
            walks += 1
        elif k in (15, 16):
            x, n = addr(), c.int(0, 6)
            i = bisect.bisect_left(a.xs, x)
            ops.append('b %d %d' % (x, n))
            # before the first element comes the end: a special behaviour that the collector relies on and the tests state
            line(a.xs[:i][::-1][:n], n >= i)
            walks += 1
        elif k == 17:
            n = c.int(0, 6)
            ops.append('r %d' % n)
            line(a.xs[::-1][:n], n >= len(a.xs))
        elif k == 18:
            ops.append('f')
            want.append(' '.join(['%x' % x for x in a.xs] + ['.']))
        elif k == 19:
            x, y = sorted((addr(), addr()))
            ops.append('g %d %d' % (x, y))
            want.append(' '.join(['%x' % v for v in a.xs if x <= v < y] + ['.']))
            walks += 1
        elif k == 20:
            m = c.int(1, 3)
            r = c.draw(m)
            xs = [x for x in a.xs if (x >> 3) % m == r]
            ops.append('d %d %d' % (r, m))
            want.append(' '.join(['%x' % x for x in xs] + ['.']))
            a.xs = [x for x in a.xs if (x >> 3) % m != r]
            erased += len(xs)
        else:
            j = c.draw(3)
            if j == 0 and a.xs:
                x = c.pick(a.xs)
                if not b.has(x):
                    ops.append('m %d' % x)
                    a.remove(x)
                    b.add(x)
                    erased += 1
            elif j == 1:
                ops.append('w')
                a, b = b, a
            elif c.bool(0.3):
                ops.append('z')
                a = SetModel()
    ops += ['f', 'n', 'r 1000']
    want.append(' '.join(['%x' % x for x in a.xs] + ['.']))
    want.append('%d %d' % (len(a.xs), not a.xs))
    line(a.xs[::-1], True)
    return ' '.join(ops), '\n'.join(want) + '\n@\n', erased >= 1 and walks >= 1, ['pointer set']


def gen_alloc(c):
    ops = [c.pick(['a0', 'a1', 'a2', 'a3', 'a4', 'a5'])]
    live, frees = 0, 0
    for _ in range(c.int(1, 40)):
        k = c.draw(8)
        if k < 4:
            n = c.pick([1, 1, 2, 3, 9, 40]) if ops[0] != 'a0' else c.pick([1, 3, 40, 1023, 1024, 1025])
            live += n
            ops.append('a %d' % n)
        elif k < 6:
            ops.append('f %d' % c.draw(1000))
            frees += live > 0
            live = max(0, live - 1)
        elif k == 6:
            n = c.pick([1, 2, 8, 50])
            ops.append('%s %d' % (c.pick(['F', 'q']), n))
            frees += live > 0
            live = max(0, live - n)
        else:
            ops.append('t 0')
    return ' '.join(ops), 'ok\n@\n', frees > 0, ['allocator']


NAN = 0x7ff8 << 48


def gen_box(c):
    ops, want = ['n'], []
    v = [('n', 0)] * 4
    kinds = set()
    for _ in range(c.int(1, 25)):
        i = c.draw(4)
        k = c.draw(11)
        if k == 0:
            j = c.draw(4)
            ops.append('%s %d %d' % (c.pick('=k'), i, j))
            v[i] = v[j]
        elif k == 1:
            j = c.draw(4)
            ops.append('? %d %d' % (i, j))
            want.append('%d' % (v[i] == v[j]))
        else:
            t = c.pick('bsfcepnddd')
            if t == 'b':
                x = c.draw(2)
            elif t == 's':
                x = c.pick([0, 1, 2 ** 32 - 1, 2 ** 31, 2 ** 31 - 1, c.int(0, 2 ** 32 - 1)])
            elif t in 'fc':
                x = c.pick([0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00000, 2 ** 32 - 1, c.int(0, 2 ** 32 - 1)])
            elif t == 'e':
                x = c.int(0, 65535)
            elif t == 'p':
                x = max(8, c.pick([8, 2 ** 47 - 8, c.int(0, 2 ** 47 - 1)]) & -8)
            elif t == 'n':
                x = 0
            else:
                x = c.pick([0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, NAN, 0xfff8 << 48, 0xffff << 48, 0x7ff9 << 48 | 1, 0x7ffe << 48 | 4096, 0xfffe << 48 | 4096, 0x7ff0 << 48 | 1,
                            1, 0x7fef << 48 | 2 ** 48 - 1, c.int(0, 2 ** 64 - 1), 0x7ff0 << 48 | c.int(0, 2 ** 52 - 1), 0xfff0 << 48 | c.int(0, 2 ** 52 - 1)])
            ops.append('%s%s %d %d' % (t, c.pick(['', '!']), i, x))
            if t == 'd' and math.isnan(struct.unpack('<d', struct.pack('<Q', x))[0]):
                x = NAN     # NaNs are not told apart
            v[i] = (t, x)
            kinds.add(t)
        t, x = v[i]
        n = 'bsfcepnd'.index(t)
        text = ''.join('01'[j == n] for j in range(8)) + ' %d %d %x ' % (t == 'p', n, x if t == 'p' else 0)
        text += {'b': '%d' % x, 's': '%d' % (x - (x >> 31 << 32)), 'p': '-', 'n': '-'}.get(t, '%x' % x)
        want.append(text)
    return ' '.join(ops), '\n'.join(want) + '\n@\n', len(kinds) > 1, ['tagged pointer']


class Check(pbt.Property):
    id = 'P23'
    batch = 60
    quick = 1000
    thorough = 60000
    rule = 'the history erases, frees or retypes something and looks at the result afterwards'
    assumptions = ['addresses are below 2^47 and aligned, no address is inserted twice or erased while absent (the preconditions the collector keeps)',
                   'only one block is asked for at a time']

    exe = None

    def explore(self, built, seed, tier, count=None):
        self.exe = harness(built)
        return pbt.explore(self, built, seed, tier, count=count)

    def gen(self, c):
        k = c.draw(10)
        text, want, nontrivial, labels = gen_set(c) if k < 6 else gen_alloc(c) if k < 8 else gen_box(c)
        return pbt.Case(text, expect=want, nontrivial=nontrivial, labels=labels)

    def ask(self, cases):
        if not self.exe:
            self.exe = harness(build.build(tuple(self.variants())))
        r = subprocess.run([self.exe], input=''.join(k.code + '\n' for k in cases).encode(), capture_output=True, timeout=120,
                           env={'ASAN_OPTIONS': 'detect_leaks=0'})
        return r.returncode, r.stdout.decode(), r.stderr.decode('utf-8', 'replace')

    def assemble(self, cases):
        return ''.join(k.code + '\n' for k in cases)

    def run_single(self, srv, case):
        code, out, err = self.ask([case])
        if out != case.expect or code:
            want, got = case.expect.splitlines(), out.splitlines()
            i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
            return 'answer %d: expected %s, got %s; exit %d %s' % (i, want[i:i + 1], got[i:i + 1], code, pbt.clip(err, 400))
        return None

    def run_batch(self, srv, cases):
        code, out, err = self.ask(cases)
        if code == 0 and out == ''.join(k.expect for k in cases):
            return []
        for i, k in enumerate(cases):
            m = self.run_single(srv, k)
            if m:
                return [(i, m)]
        return [(-1, 'the histories fail together: exit %d %s' % (code, pbt.clip(err, 400)))]
