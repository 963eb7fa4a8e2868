"""Out-of-tree build of meevax from /repo's current working tree.

Everything is compiled from a scratch copy of the sources, so that the
generated files (src/kernel/system.cpp, include/meevax/unicode/*.hpp, README.md)
never touch /repo.  Builds are cached by a hash of every input file and of the
build recipe; nothing is assumed to survive between runs.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))

SOURCES = ['src', 'include', 'library', 'configure', 'script', 'CMakeLists.txt', 'VERSION', 'LICENSE']
SKIP = {'include/meevax/unicode', 'src/kernel/system.cpp'}

GXX = '/usr/bin/g++'
CLANGXX = '/usr/bin/clang++'

COMMON = ['-std=c++20', '-DNDEBUG', '-fPIC', '-w']

# name -> (per-file compile command chooser, link command, extra sources)
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
       '-fno-sanitize=vptr,alignment', '-fno-omit-frame-pointer', '-g1']


class BuildError(Exception):
    pass


def _files():
    out = []
    for top in SOURCES:
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(top)
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                r = os.path.relpath(os.path.join(d, f), REPO)
                if any(r == s or r.startswith(s + '/') for s in SKIP):
                    continue
                out.append(r)
    return out


def _digest(files, extra):
    h = hashlib.sha256()
    for r in files:
        h.update(r.encode() + b'\0')
        with open(os.path.join(REPO, r), 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    for p in extra:
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))


def _stage(work, files):
    """Copy the sources and let the repository's own CMakeLists generate what it generates."""
    for r in files:
        dst = os.path.join(work, r)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, r), dst)
    os.makedirs(os.path.join(work, 'include/meevax/unicode'), exist_ok=True)
    os.makedirs(os.path.join(work, 'document'), exist_ok=True)
    os.makedirs(os.path.join(work, 'test'), exist_ok=True)
    env = dict(os.environ, LC_ALL='C.UTF-8')
    # CMakeLists also declares tests from files that are not staged; generation
    # may fail for those, but configuration (which writes the files) comes first.
    subprocess.run(['cmake', '-S', work, '-B', work + '/_b', '-DCMAKE_BUILD_TYPE=Release',
                    '-DCMAKE_CXX_COMPILER=' + GXX], env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for need in ('src/kernel/system.cpp', 'include/meevax/unicode/property.hpp'):
        if not os.path.exists(os.path.join(work, need)):
            raise BuildError('cmake did not generate ' + need)


def _sources(work):
    out = []
    for d, ds, fs in os.walk(os.path.join(work, 'src')):
        for f in fs:
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    # the slow ones first
    slow = ['boot.cpp', 'number.cpp', 'homogeneous_vector.cpp', 'system.cpp', 'character.cpp']
    key = lambda p: (slow.index(os.path.basename(p)) if os.path.basename(p) in slow else 99, -os.path.getsize(p))
    return sorted(out, key=key)


def _compile(work, variant, jobs):
    obj = os.path.join(work, 'obj-' + variant)
    os.makedirs(obj, exist_ok=True)

    def one(src):
        base = os.path.basename(src)
        o = os.path.join(obj, os.path.relpath(src, work).replace('/', '_') + '.o')
        if variant == 'asan':
            cmd = [CLANGXX, '-O0' if base == 'boot.cpp' else '-O1', *COMMON, *SAN]
        else:
            cmd = [GXX, '-O1', '-foptimize-sibling-calls', *COMMON]  # the sources rely on tail calls between functions
        _run([*cmd, '-I', os.path.join(work, 'include'), '-c', src, '-o', o], work)
        return o

    with cf.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(one, _sources(work)))
    # boot.o last: its unoptimised inline functions must not be the ones the linker keeps
    objs.sort(key=lambda o: (o.endswith('boot.cpp.o'), o))
    return objs


WRAP = ['-Wl,--wrap=_ZN6meevax6kernel7requestEm']


def build(variants=('plain',), jobs=None, quiet=False):
    """Return {variant: path of executable}; variants: plain, gc, asan."""
    jobs = jobs or os.cpu_count() or 4
    files = _files()
    own = [os.path.abspath(__file__), os.path.join(VERIF, 'lib/shim.cpp'), os.path.join(VERIF, 'lib/gcstress.cpp')]
    key = _digest(files, own)
    out = os.path.join(CACHE, key)
    os.makedirs(out, exist_ok=True)
    with open(out + '/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = [v for v in variants if not os.path.exists(os.path.join(out, v, 'meevax'))]
        if want:
            _prune(key)
            with tempfile.TemporaryDirectory(prefix='meevax-build-') as work:
                _stage(work, files)
                objs = {}
                for v in want:
                    base = 'asan' if v == 'asan' else 'plain'
                    if base not in objs:
                        objs[base] = _compile(work, base, jobs)
                    tmp = os.path.join(work, 'bin-' + v)
                    os.makedirs(tmp)
                    exe = os.path.join(tmp, 'meevax')
                    if v == 'asan':
                        _run([CLANGXX, *SAN, *objs[base], '-lgmp', '-ldl', '-o', exe], work)
                    elif v == 'gc':
                        g = os.path.join(work, 'gcstress.o')
                        _run([GXX, '-O1', *COMMON, '-c', os.path.join(VERIF, 'lib/gcstress.cpp'), '-o', g], work)
                        try:
                            _run([GXX, '-rdynamic', *WRAP, *objs[base], g, '-lgmp', '-ldl', '-o', exe], work)
                        except Exception:
                            # the hook has gone: only the collections of the interpreter itself are left
                            print('note: no hook for forced collections in this tree', file=sys.stderr)
                            _run([GXX, '-rdynamic', *objs[base], '-lgmp', '-ldl', '-o', exe], work)
                    else:
                        _run([GXX, *objs[base], '-lgmp', '-ldl', '-o', exe], work)
                    dst = os.path.join(out, v)
                    if os.path.isdir(dst):
                        shutil.rmtree(dst)
                    os.makedirs(dst)
                    shutil.copy2(exe, os.path.join(dst, 'meevax'))
                # sources with the generated files, for C++ harnesses
                inc = os.path.join(out, 'include')
                if not os.path.isdir(inc):
                    shutil.copytree(os.path.join(work, 'include'), inc)
                    shutil.copytree(os.path.join(work, 'src'), os.path.join(out, 'src'))
        shim = os.path.join(out, 'shim.so')
        if not os.path.exists(shim):
            _run([GXX, '-O1', '-shared', '-fPIC', '-w', os.path.join(VERIF, 'lib/shim.cpp'), '-ldl', '-o', shim], VERIF)
    return {'dir': out, 'shim': shim, 'key': key, **{v: os.path.join(out, v, 'meevax') for v in variants}}


def _prune(keep):
    """Keep the cache small: at most four trees."""
    try:
        ds = [d for d in os.listdir(CACHE) if d != keep and os.path.isdir(os.path.join(CACHE, d))]
        ds.sort(key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in ds[:-3]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    except OSError:
        pass


if __name__ == '__main__':
    r = build(tuple(sys.argv[1:]) or ('plain',))
    for k, v in r.items():
        print(k, v)
