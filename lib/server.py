"""Python side of the fork server (see shim.cpp)."""
import os
import shutil
import struct
import subprocess
import tempfile


WARM = ['(scheme %s)' % x for x in (
    'base case-lambda char complex cxr eval file inexact lazy list load process-context read repl time write '
    'r4rs r5rs bitwise box division fixnum flonum').split()] + [
    '(srfi %d)' % n for n in (0, 1, 4, 6, 8, 9, 11, 16, 23, 31, 34, 38, 39, 45, 78, 98, 111, 141, 143, 144, 149, 151)]


class Result:
    __slots__ = ('status', 'timed_out', 'rss', 'out', 'err', 'allocations')

    def __init__(self, status, timed_out, rss, out, err, allocations):
        self.status, self.timed_out, self.rss, self.out, self.err, self.allocations = status, timed_out, rss, out, err, allocations

    @property
    def exit_code(self):
        return os.WEXITSTATUS(self.status) if os.WIFEXITED(self.status) else None

    @property
    def signal(self):
        return os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else None

    def describe(self):
        if self.timed_out:
            return 'timeout'
        if self.signal is not None:
            return 'signal %d' % self.signal
        return 'exit %d' % self.exit_code


class ServerDied(Exception):
    pass


class Server:
    def __init__(self, built, variant='plain', env=None, args=(), warm=None):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='meevax-srv-'))
        self.point = os.path.join(self.dir, 'fork-point.ss')
        with open(self.point, 'w') as f:
            f.write('')
        os.mkdir(self.dir + '/cwd')
        # Libraries are evaluated when first imported: import them all before the fork point.
        self.warm = []
        for i, l in enumerate(WARM if warm is None else warm):
            self.warm.append(os.path.join(self.dir, 'warm%d.ss' % i))
            with open(self.warm[-1], 'w') as f:
                f.write('(import %s)\n' % l)
        self.exe = built[variant]
        self.shim = built['shim']
        self.variant = variant
        self.args = list(args)
        self.env = dict(env or {})
        self.n = 0
        self._start()

    def _start(self):
        rq_r, rq_w = os.pipe()
        rs_r, rs_w = os.pipe()
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': self.dir, 'TERM': 'dumb',
               'VERIF_FORK_POINT': self.point, 'LD_PRELOAD': self.shim, **self.env}
        if self.variant == 'asan':
            env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:verify_asan_link_order=0:detect_stack_use_after_return=0:allocator_may_return_null=1'
            env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=77:print_stacktrace=1'

        def pre():
            os.dup2(rq_r, 198)
            os.dup2(rs_w, 199)
        self.errlog = open(self.dir + '/server.err', 'wb')
        self.p = subprocess.Popen([self.exe, *self.args, *self.warm, self.point], env=env, cwd=self.dir, preexec_fn=pre,
                                  close_fds=False, stdin=subprocess.DEVNULL,
                                  stdout=self.errlog, stderr=self.errlog)
        os.close(rq_r)
        os.close(rs_w)
        self.w, self.r = rq_w, rs_r

    def run(self, program, timeout=10.0, as_mb=4096, gc_every=0, gc_seed=0, cwd=None, slow_exit=False,
            stdin=None, gc_skip=0, gc_max=0, gc_count=False):
        """Run one program (str or bytes) in a fresh child.  Returns Result."""
        self.n += 1
        if self.variant == 'asan':
            as_mb = 0
        prog = os.path.join(self.dir, 'p.ss')
        out, err = os.path.join(self.dir, 'out'), os.path.join(self.dir, 'err')
        with open(prog, 'wb') as f:
            f.write(program if isinstance(program, bytes) else program.encode('utf-8', 'surrogatepass'))
        sin = ''
        if stdin is not None:
            sin = os.path.join(self.dir, 'in')
            with open(sin, 'wb') as f:
                f.write(stdin)
        opts = '%d %d %d %d %d %d %d %d' % (int(timeout * 1000), as_mb, int(slow_exit), int(gc_count or gc_every > 0), gc_every, gc_seed, gc_skip, gc_max)
        msg = b'\0'.join(x.encode() for x in (prog, out, err, cwd or self.dir + '/cwd', opts, sin)) + b'\0'
        try:
            os.write(self.w, struct.pack('<I', len(msg)) + msg)
            data = b''
            while len(data) < 24:
                k = os.read(self.r, 24 - len(data))
                if not k:
                    raise ServerDied()
                data += k
        except (OSError, ServerDied):
            raise ServerDied('interpreter did not reach the fork point: ' + self.log())
        status, timed_out, rss, allocations = struct.unpack('<iiQQ', data)
        with open(out, 'rb') as f:
            o = f.read()
        with open(err, 'rb') as f:
            e = f.read()
        return Result(status, bool(timed_out), rss, o, e, allocations)

    def log(self):
        try:
            self.errlog.flush()
            with open(self.dir + '/server.err', errors='replace') as f:
                return f.read()[-2000:]
        except OSError:
            return ''

    def close(self):
        try:
            os.close(self.w)
            os.close(self.r)
        except OSError:
            pass
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass
        self.errlog.close()
        shutil.rmtree(self.dir, ignore_errors=True)
