"""A small property-based-testing engine.

Every random decision of a generator goes through Choices.draw(), so that a
test case is a pure function of a list of integers.  Shrinking edits that list
(delete runs, zero, halve, decrement) and re-generates, in the manner of
Hypothesis; replay needs only the list -- or the program text it produced,
which is what the replay file holds.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import server
import sx

VERIF = build.VERIF


class Overrun(Exception):
    pass


class Choices:
    """A source of bounded draws; 0 is always the simplest answer."""

    def __init__(self, seed=None, prefix=None, limit=100000):
        self.rng = random.Random(seed) if prefix is None else None
        self.prefix = prefix
        self.log = []
        self.limit = limit

    def draw(self, n):
        """An integer in [0, n)."""
        i = len(self.log)
        if i >= self.limit:
            raise Overrun()
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            v = min(v, n - 1)
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v

    def int(self, lo, hi):
        """An integer in [lo, hi]; shrinks towards the member nearest zero."""
        if lo > 0:
            return lo + self.draw(hi - lo + 1)
        if hi < 0:
            return hi - self.draw(hi - lo + 1)
        if lo == 0:
            return self.draw(hi + 1)
        k = self.draw(hi - lo + 1)
        # 0, 1, -1, 2, -2 ...
        m = min(hi, -lo)
        if k <= 2 * m:
            return (k + 1) // 2 if k % 2 else -(k // 2)
        return k - m if hi > m else m - k

    def bool(self, p=0.5):
        """True with probability p; shrinks to False."""
        return self.draw(1000) >= 1000 - int(p * 1000)

    def pick(self, xs):
        return xs[self.draw(len(xs))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; shrinks to the first."""
        total = sum(w for w, _ in pairs)
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def list(self, f, lo=0, hi=8):
        n = self.int(lo, hi)
        return [f() for _ in range(n)]

    def sample(self, xs, k):
        xs = list(xs)
        out = []
        for _ in range(min(k, len(xs))):
            out.append(xs.pop(self.draw(len(xs))))
        return out

    def shuffle(self, xs):
        return self.sample(xs, len(xs))


def shrink(choices, fails, budget=400, deadline=None):
    """Smallest list found for which fails(list) is true.  fails returns the consumed list or None."""
    best = list(choices)
    used = [0]

    def attempt(c):
        if used[0] >= budget or (deadline and time.time() > deadline):
            return False
        used[0] += 1
        r = fails(c)
        if r is not None and (len(r), r) < (len(best), best):
            best[:] = r
            return True
        return False

    improved = True
    while improved and used[0] < budget:
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1:
            i = len(best) - k
            while i >= 0:
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                    i = min(i, len(best) - k)
                else:
                    i -= max(1, k // 2)
            k //= 2
        i = 0
        while i < len(best):
            if best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
            i += 1
    return best


class Case:
    """One generated case.

    code    Scheme expression (batched) or whole program (program=True)
    judge   function(text) -> None when right, message when wrong
    expect  shorthand: the exact text that must be printed
    nontrivial / labels: for the evidence
    """
    __slots__ = ('code', 'judge', 'expect', 'nontrivial', 'labels', 'opts', 'extra')

    def __init__(self, code, expect=None, judge=None, nontrivial=True, labels=(), opts=None, extra=None):
        self.code, self.expect, self.judge = code, expect, judge
        self.nontrivial, self.labels, self.opts = nontrivial, labels, opts or {}
        self.extra = extra

    def verdict(self, text):
        if self.judge:
            return self.judge(text)
        text = sx.canon(text)
        if text != self.expect:
            return 'expected %s, got %s' % (clip(self.expect), clip(text))
        return None


def clip(s, n=600):
    s = str(s)
    return s if len(s) <= n else s[:n] + '...[%d]' % len(s)


BATCH_PRELUDE = r'''
(import (scheme base) (scheme write))
''' + sx.SHOW + r'''
(define verif-error (list 'error))
(define (verif-run i thunk)
  (let ((port (open-output-string)))
    (write-string "\n@@" port) (write i port) (write-string " " port)
    (let ((v (call-with-current-continuation
               (lambda (k)
                 (with-exception-handler
                   (lambda (e)
                     (k (list verif-error e)))
                   (lambda () (list (thunk))))))))
      (cond ((eq? (car v) verif-error)
             (write-string (if (error-object? (cadr v)) "!error" "!raised ") port)
             (if (not (error-object? (cadr v))) (verif-show (cadr v) port)))
            (else (verif-show (car v) port)))
      (write-string (get-output-string port))
      (write-string "\n@.")
      (flush-output-port))))
'''

MARK = re.compile(rb'\n@@(\d+) (.*?)\n@\.', re.S)


class Property:
    """Base class of the checks.  Subclasses set id, title..., and gen()."""
    id = None
    variant = 'plain'
    imports = ''            # extra imports for batches
    prelude = ''            # extra definitions for batches
    batch = 40              # cases per process; 1 with program=True
    program = False         # case.code is a complete program, judged by judge_program
    timeout = 30.0
    single_timeout = 15.0
    quick = 400             # number of batches
    thorough = 8000
    level = 'exploration'
    rule = ''
    gc = (0, 0)
    warm = None
    server_env = None
    soft_deadline = {'quick': 420, 'thorough': 3000}

    def gen(self, c):
        raise NotImplementedError

    # -- program text ----------------------------------------------------
    def assemble(self, cases):
        if self.program:
            return cases[0].code
        out = [BATCH_PRELUDE, self.imports, '\n', self.prelude, '\n']
        for i, k in enumerate(cases):
            out.append('(verif-run %d (lambda () %s))\n' % (i, k.code))
        return ''.join(out)

    def run_opts(self, case):
        o = {'timeout': self.timeout, 'gc_every': self.gc[0], 'gc_seed': self.gc[1]}
        o.update(case.opts)
        return o

    def run_program(self, srv, case):
        """Verdict for a program case."""
        r = srv.run(case.code, **self.run_opts(case))
        return self.judge_result(case, r)

    def judge_result(self, case, r):
        if r.timed_out:
            return 'timeout after %gs' % self.timeout
        if r.exit_code != 0:
            return '%s; stderr: %s; stdout: %s' % (r.describe(), clip(r.err.decode('utf-8', 'replace'), 300),
                                                   clip(r.out.decode('utf-8', 'replace'), 300))
        return case.verdict(r.out.decode('utf-8', 'replace'))

    # -- running ----------------------------------------------------------
    def run_single(self, srv, case):
        if self.program:
            return self.run_program(srv, case)
        o = self.run_opts(case)
        o['timeout'] = min(o['timeout'], self.single_timeout)
        r = srv.run(self.assemble([case]), **o)
        m = MARK.search(r.out)
        if not m or r.timed_out or r.exit_code != 0:
            return '%s without an answer; stderr: %s' % (r.describe(), clip(r.err.decode('utf-8', 'replace'), 300))
        return case.verdict(m.group(2).decode('utf-8', 'replace'))

    def run_batch(self, srv, cases):
        """[(index, message)] of the failing cases."""
        if self.program:
            m = self.run_program(srv, cases[0])
            return [(0, m)] if m else []
        r = srv.run(self.assemble(cases), **self.run_opts(cases[0]))
        got = {int(m.group(1)): m.group(2).decode('utf-8', 'replace') for m in MARK.finditer(r.out)}
        bad = []
        dirty = r.timed_out or r.exit_code != 0
        for i, k in enumerate(cases):
            if i in got:
                m = k.verdict(got[i])
                if m:
                    bad.append((i, m))
            elif dirty:
                m = self.run_single(srv, k)   # who was it?
                if m:
                    bad.append((i, m))
                    break
            else:
                bad.append((i, 'no answer'))
        if dirty and not bad:
            bad.append((-1, 'batch ended with %s; stderr: %s' % (r.describe(), clip(r.err.decode('utf-8', 'replace'), 300))))
        return bad

    def seed_for(self, seed, b):
        return int.from_bytes(hashlib.sha256(('%s/%d/%d' % (self.id, seed, b)).encode()).digest()[:8], 'big')

    def make_batch(self, seed, b):
        n = 1 if self.program else self.batch
        rng = random.Random(self.seed_for(seed, b))
        out = []
        for j in range(n):
            c = Choices(seed=rng.getrandbits(64))
            out.append((c, self.gen(c)))
        return out

    # -- the whole check ---------------------------------------------------
    assumptions = ()

    def variants(self):
        return [self.variant]

    def explore(self, built, seed, tier, count=None):
        return explore(self, built, seed, tier, count=count)

    demos = {}   # known findings: {id: (expression, what a correct answer prints)}

    def demonstrate(self, built, fid):
        """True while the known finding still shows."""
        srv = server.Server(built, self.variant, warm=self.warm, env=self.server_env)
        try:
            code, right = self.demos[fid]
            k = Case(code, expect=right)
            if code.startswith('!'):
                r = srv.run(code[1:], timeout=self.timeout)
                return r.exit_code != 0 or r.out.decode('utf-8', 'replace') != right
            return Property.run_single(self, srv, k) is not None
        finally:
            srv.close()


def _worker(prop, built, seed, lo, hi, step, start, deadline, q):
    try:
        srv = server.Server(built, prop.variant, warm=prop.warm, env=prop.server_env)
    except Exception as e:
        q.put(('fatal', repr(e)))
        return
    stats = {'n': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'batches': 0, 'excluded': 0}
    fails = []
    try:
        for b in range(lo + start, hi, step):
            if time.time() > deadline:
                stats['cut'] = True
                break
            batch = prop.make_batch(seed, b)
            cases = [k for _, k in batch]
            bad = prop.run_batch(srv, cases)
            stats['batches'] += 1
            for _, k in batch:
                stats['n'] += 1
                if k.nontrivial:
                    stats['nontrivial'].add(hashlib.sha1(str(k.code).encode('utf-8', 'surrogatepass')).digest()[:8])
                for l in k.labels:
                    stats['labels'][l] = stats['labels'].get(l, 0) + 1
            if len(stats['samples']) < 3 and cases and (b - lo - start) // step % 7 == 0:
                k = next((k for k in cases if k.nontrivial), cases[0])
                stats['samples'].append(clip(k.code, 400))
            if bad:
                for i, m in bad:
                    if i >= 0:
                        fails.append((b, i, list(batch[i][0].log), m))
                    else:
                        fails.append((b, -1, None, m))
                break
    except server.ServerDied as e:
        q.put(('died', str(e)))
        srv.close()
        return
    except Exception:
        q.put(('fatal', traceback.format_exc()))
        srv.close()
        return
    srv.close()
    stats['excluded'] = getattr(prop, 'excluded', 0)
    q.put(('done', stats, fails))


class Outcome:
    def __init__(self):
        self.violations = []   # (message, replay path)
        self.evaluations = 0
        self.nontrivial = 0
        self.labels = {}
        self.samples = []
        self.cut = False
        self.excluded = 0
        self.fatal = None
        self.extra = {}


def explore(prop, built, seed, tier, jobs=None, count=None):
    jobs = jobs or os.cpu_count() or 4
    total = count or (prop.quick if tier == 'quick' else prop.thorough)
    deadline = time.time() + prop.soft_deadline[tier]
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(prop, built, seed, 0, total, jobs, w, deadline, q)) for w in range(jobs)]
    for p in ps:
        p.start()
    o = Outcome()
    nontrivial = set()
    fails = []
    died = None
    left = len(ps)
    while left:
        try:
            m = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                o.fatal = 'a worker vanished'
                break
            continue
        left -= 1
        if m[0] == 'fatal':
            o.fatal = m[1]
        elif m[0] == 'died':
            died = m[1]
        else:
            _, s, f = m
            o.evaluations += s['n']
            nontrivial |= s['nontrivial']
            for k, v in s['labels'].items():
                o.labels[k] = o.labels.get(k, 0) + v
            o.samples += s['samples']
            o.cut |= s.get('cut', False)
            o.excluded += s['excluded']
            fails += f
    for p in ps:
        p.join()
    o.nontrivial = len(nontrivial)
    fails.sort(key=lambda f: (f[0], f[1]))
    if died:
        # The interpreter must at least load its own libraries.
        for _ in range(3):
            srv = server.Server(built, prop.variant, warm=prop.warm, env=prop.server_env)
            try:
                srv.run('(import (scheme base))')
                break
            except server.ServerDied:
                pass
            finally:
                srv.close()
        else:
            prog = ''.join('(import %s)\n' % l for l in (server.WARM if prop.warm is None else prop.warm))
            o.violations.append((died, save_replay(prop, prog, died, {'seed': seed})))
            return o
        o.fatal = died
    if fails:
        settle(prop, built, seed, fails, o)
    return o


def settle(prop, built, seed, fails, o):
    """Confirm (three times), shrink and record the first failures."""
    if os.environ.get('VERIF_VERBOSE'):
        for b, i, choices, msg in fails:
            print('--', b, i, msg, '\n   ', clip(prop.gen(Choices(prefix=choices)).code, 400) if choices else '')
    srv = server.Server(built, prop.variant, warm=prop.warm, env=prop.server_env)
    try:
        for b, i, choices, msg in fails[:6]:
            if choices is None:
                # only the whole batch failed: report it as it is, if it repeats
                cases = [k for _, k in prop.make_batch(seed, b)]
                again = [prop.run_batch(srv, cases) for _ in range(3)]
                if all(again):
                    path = save_replay(prop, prop.assemble(cases), msg, {'batch': b, 'seed': seed})
                    o.violations.append((msg, path))
                    break
                continue

            def fails_now(cs):
                c = Choices(prefix=cs)
                try:
                    k = prop.gen(c)
                except Overrun:
                    return None
                m = prop.run_single(srv, k)
                return list(c.log) if m else None

            if not all(fails_now(choices) is not None for _ in range(3)):
                # does it need its batch?
                cases = [k for _, k in prop.make_batch(seed, b)]
                again = [prop.run_batch(srv, cases) for _ in range(3)]
                if all(again):
                    path = save_replay(prop, prop.assemble(cases), msg, {'batch': b, 'seed': seed})
                    o.violations.append((msg, path))
                    break
                continue
            small = shrink(choices, fails_now, deadline=time.time() + 90)
            k = prop.gen(Choices(prefix=small))
            m = prop.run_single(srv, k) or msg
            path = save_replay(prop, prop.assemble([k]), m,
                               {'choices': small, 'seed': seed, 'batch': b, 'code': k.code, 'expect': k.expect})
            o.violations.append(('%s\n  in: %s' % (m, clip(k.code, 1500)), path))
            break
    finally:
        srv.close()


def save_replay(prop, program, message, meta):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    text = program if isinstance(program, str) else repr(program)
    h = hashlib.sha1((prop.id + text).encode('utf-8', 'surrogatepass')).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop.id, h))
    with open(path, 'w') as f:
        json.dump({'property': prop.id, 'message': message, 'program': text, **meta}, f, indent=1, default=str)
    return path
