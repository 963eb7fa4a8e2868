"""Command lines, script files and standard input for real processes, against a model of what they print and how they end."""
import json
import os
import shutil
import subprocess
import tempfile

import pbt
import sx

HEAD = '(import (scheme base) (scheme write) (scheme read) (scheme file) (scheme process-context))'
TEXT = ['a', 'xy', 'one', '\u03bb', 'A b', '-', '0', '\\', '"']
DATA = ['1', '(1 2)', '(a . b)', '"s"', '#(1 2)', 'sym', '#\\a', '(quote x)', '3/4', '1.5', '#u8(1 2)', '()', '#t', '(1 (2 . 3) "x y")']


NAMES = {'\n': 'newline', ' ': 'space', '\t': 'tab'}


def wr(v):
    """What write prints."""
    if isinstance(v, sx.Char):
        return '#\\' + NAMES.get(chr(v.cp), chr(v.cp))
    if isinstance(v, str):
        return '"%s"' % ''.join('\\' + ch if ch in '"\\|' else ch if ' ' <= ch <= '~' else '\\x%X;' % ord(ch) for ch in v)
    return sx.show(v)


class End(Exception):
    """The process ends, with this status."""


class Model:
    def __init__(self, stdin):
        self.out, self.err, self.stdin, self.pos = [], [], stdin, 0
        self.files = {}


class Gen:
    def __init__(self, c):
        self.c = c
        self.files = {}     # name -> text
        self.n = 0
        self.features = set()
        self.m = Model('')
        self.data_files = {}

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def text(self):
        return ''.join(self.c.pick(TEXT) for _ in range(self.c.int(1, 3))) + self.c.pick(['', '\n', ' '])

    # A statement generator appends source to a list and runs the model at once; it raises End after adding
    # the statement that ends the process.
    def statement(self, src, scope, depth=0, last=True):
        c, m = self.c, self.m
        k = c.weighted([(8, 'display'), (3, 'define'), (3, 'use'), (2, 'set'), (3, 'wind'), (2, 'err'), (2, 'stdin'), (2, 'file'), (1, 'escape'), (1, 'handled'), (1, 'command'), (1, 'port'), (1, 'quiet')])
        if k == 'display':
            t = self.text()
            src.append('(display %s)' % sx.lit(t) if c.bool(.7) else '(write-string %s)' % sx.lit(t))
            m.out.append(t)
        elif k == 'define' and depth == 0:
            v, n = self.fresh('v'), c.int(-50, 50)
            src.append('(define %s %d)' % (v, n))
            scope[v] = n
        elif k == 'use' and scope:
            v = c.pick(sorted(scope))
            src.append('(write %s)' % v if c.bool() else '(begin (write %s) (newline))' % v)
            m.out.append(str(scope[v]) + ('\n' if 'newline' in src[-1] else ''))
        elif k == 'set' and scope:
            v = c.pick(sorted(scope))
            scope[v] += 1
            src.append('(set! %s (+ %s 1))' % (v, v))
        elif k == 'wind' and depth < 3:
            a, b = self.text(), self.text()
            m.out.append(a)
            body = []
            self.afters.append(b)
            try:
                for _ in range(c.int(1, 3)):
                    self.statement(body, scope, depth + 1)
            finally:
                src.append('(dynamic-wind (lambda () (display %s)) (lambda () %s) (lambda () (display %s)))' % (sx.lit(a), ' '.join(body), sx.lit(b)))
                self.features.add('wind')
            self.afters.pop()
            m.out.append(b)
        elif k == 'err':
            t = self.text()
            src.append('(write-string %s (current-error-port))' % sx.lit(t))
            m.err.append(t)
        elif k == 'stdin' and not self.interactive:
            self.features.add('stdin')
            p, s = m.pos, m.stdin
            how = c.pick(['read-line', 'read-char', 'peek-char', 'read-string'])
            if how == 'read-line':
                e = s.find('\n', p)
                r = None if p >= len(s) else s[p:] if e < 0 else s[p:e]
                m.pos = len(s) if e < 0 else e + 1
                src.append('(write (read-line))')
                m.out.append(wr(sx.EOF if r is None else r))
            elif how == 'read-string':
                n = c.int(1, 4)
                src.append('(write (read-string %d))' % n)
                m.out.append(wr(s[p:p + n] if p < len(s) else sx.EOF))
                m.pos = min(len(s), p + n)
            else:
                src.append('(write (%s))' % how)
                m.out.append(wr(sx.Char(ord(s[p])) if p < len(s) else sx.EOF))
                if how == 'read-char' and p < len(s):
                    m.pos += 1
        elif k == 'file':
            if self.data_files and c.bool():
                f = c.pick(sorted(self.data_files))
                src.append('(write (call-with-input-file %s (lambda (p) (read-string 1000 p))))' % sx.lit(f))
                t = self.data_files[f]
                m.out.append(wr(t if t else sx.EOF))
            else:
                f, t = self.fresh('data'), self.text()
                self.data_files[f] = t
                src.append(c.pick(['(call-with-output-file %s (lambda (p) (write-string %s p)))', '(let ((p (open-output-file %s))) (write-string %s p) (close-port p))',
                                   '(with-output-to-file %s (lambda () (display %s)))']) % (sx.lit(f), sx.lit(t)))
            self.features.add('file')
        elif k == 'escape':
            a, b = self.text(), self.text()
            src.append('(call-with-current-continuation (lambda (k) (dynamic-wind (lambda () #f) (lambda () (display %s) (k 1) (display "never")) (lambda () (display %s)))))' % (sx.lit(a), sx.lit(b)))
            m.out += [a, b]
        elif k == 'handled':
            t = self.text()
            e = c.pick(["(raise 'x)", '(error "x" 1)', "(+ 'a 1)", '(open-input-file "no/such/file")', '(raise 1)', '(read (open-input-string ")"))', '(raise #f)', "(delete-file \"no-such-file\")"])
            src.append('(guard (e (#t (display %s))) (display "in") %s (display "never"))' % (sx.lit(t), e))
            m.out += ['in', t]
            self.features.add('handled')
        elif k == 'command':
            src.append('(write (cdr (command-line)))')
            m.out.append(None)        # the arguments, filled in later
        elif k == 'port':
            t = self.text()
            src.append('(let ((p (open-output-string))) (parameterize ((current-output-port p)) (display %s)) (display (get-output-string p)))' % sx.lit(t))
            m.out.append(t)
        else:
            src.append(c.pick(['(+ 1 2)', '"unprinted"', "'(1 2)", '(values 1 2)', '(if #f #f)']))
        if depth and c.bool(.06):
            self.ending(src, depth)

    def ending(self, src, depth):
        c, m = self.c, self.m
        k = c.weighted([(6, 'exit'), (3, 'emergency'), (4, 'error')] if depth == 0 else [(6, 'exit'), (3, 'emergency')])
        arg, status = c.pick([('', 0), ('#t', 0), ('#f', None), ('0', 0), ('1', 1), ('7', 7), ('42', 42), ('255', 255), ('(+ 1 2)', 3)])
        if k == 'error':
            e = c.pick(["(raise 'boom)", "(raise 17)", '(error "what" 1 "two" (quote (three)))', "(raise-continuable 'c)", "(+ 'a 1)", '(open-input-file "no/such/file")', "(raise (list 1 2))",
                        '(with-exception-handler (lambda (e) 1) (lambda () (raise 2)))', '(guard (e ((string? e) 1)) (raise 5))', '(read (open-input-string "(1 . "))', '(raise #f)', "(string->symbol 1)"])
            src.append(e)
            self.features.add('uncaught error')
            raise End('error')
        self.features.add(k + (' in a wind' if depth else ''))
        if k == 'exit':
            src.append('(exit%s)' % (' ' + arg if arg else ''))
            m.out += reversed(self.afters)
        else:
            src.append('(emergency-exit%s)' % (' ' + arg if arg else ''))
        raise End('failure' if status is None else status)

    def statements(self, src, scope, ending):
        for _ in range(self.c.int(0, 5)):
            self.statement(src, scope)
        if ending:
            self.ending(src, 0)
        # what stands behind an ending is never evaluated


class Check(pbt.Property):
    id = 'P30'
    program = True
    batch = 1
    quick = 480
    thorough = 12000
    timeout = 60.0
    rule = 'at least two arguments evaluate something and the end is exit, emergency-exit or an uncaught error, or standard input is read'
    assumptions = ['exit values outside 0..255 and other objects than booleans and exact integers are not given', 'the text of error messages is not judged, only that there is one, on standard error',
                   'whether dynamic-wind after thunks run when an uncaught error ends the program is left open']

    def gen(self, c):
        g = Gen(c)
        g.afters = []
        m = g.m
        interactive = g.interactive = c.bool(.15)
        if c.bool(.5) and not interactive:
            m.stdin = ''.join(c.pick(['a', 'bc', '\n', ' ', '\n\n', '\u03bb', '"', 'xyz']) for _ in range(c.int(0, 12)))
        stdin = m.stdin
        args, files = [], {}
        inter = {}          # variables of the interaction environment
        evaluated = 0
        status = 0
        feats = g.features

        def option(short, long, text):
            k = c.draw(3)
            if k == 0:
                return ['-' + short, text]
            if k == 1:
                return ['--%s=%s' % (long, text)]
            return ['--' + long, text]

        n = c.int(1, 6)
        started = ended = False
        try:
            for i in range(n):
                k = c.weighted([(5, 'file'), (5, 'evaluate'), (3, 'load'), (2, 'write'), (1, 'feature'), (1, 'library'), (1, 'bad'), (1, 'combined')])
                end = c.bool(.12)
                if k in ('evaluate', 'load', 'combined') and not started:
                    args += option('e', 'evaluate', HEAD)
                    started = True
                if k in ('file', 'load'):
                    f = g.fresh('script') + c.pick(['.ss', '', '.scm', ' x.ss', '(1).ss', "'s.ss", '#1', '=a', ';.ss', '"', '.7'])
                    src = [HEAD] if k == 'file' else []
                    args += [f] if k == 'file' else option('l', 'load', f)
                    if k == 'file' and inter and c.bool(.3):
                        # a script does not see the variables of the interaction environment
                        v = c.pick(sorted(inter))
                        src.append('(define %s 999)' % v)
                        scope = {v: 999}
                        feats.add('scripts are apart')
                    else:
                        scope = {} if k == 'file' else inter
                    evaluated += 1
                    try:
                        g.statements(src, scope, end)
                    except End:
                        if c.bool():
                            src.append('(display "never")')
                        raise
                    finally:
                        files[f] = c.pick(['\n', ' ', '\n\n']).join(src) + c.pick(['\n', '', ' ; end'])
                elif k == 'evaluate':
                    src = []
                    evaluated += 1
                    try:
                        if end:
                            g.ending(src, 0)
                        g.statement(src, inter)
                    finally:
                        for s in src:
                            args += option('e', 'evaluate', s)
                elif k == 'write':
                    d = c.pick(DATA)
                    args += option('w', 'write', d)
                    m.out.append(d + '\n')
                    feats.add('write')
                elif k == 'combined':
                    v = g.fresh('v')
                    inter[v] = c.int(0, 9)
                    d = c.pick(['-ew', '-we'])
                    e = '(define %s %d)' % (v, inter[v])
                    args += [d] + ([e, 'x'] if d == '-ew' else ['x', e])
                    m.out.append('x\n')
                    feats.add('combined options')
                elif k == 'feature':
                    f = g.fresh('feature')
                    args += option('D', 'add-feature-identifier', f)
                    args += option('e', 'evaluate', HEAD)
                    started = True
                    args += option('e', 'evaluate', '(cond-expand (no-%s (display "no")) (%s (display "yes")) (else (display "else")))' % (f, f))
                    m.out.append('yes')
                    feats.add('feature')
                elif k == 'library':
                    # directories given with -I come before earlier ones, those given with -A behind them
                    lib = g.fresh('lib')
                    order = []
                    for _ in range(c.int(1, 3)):
                        d = g.fresh(c.pick(['dir', 'my dir', 'D', 'd|', 'λ', 'd=']))
                        o = c.pick(['I', 'A'])
                        args += option(o, {'I': 'prepend-library-directory', 'A': 'append-library-directory'}[o], d)
                        if o == 'I':
                            order.insert(0, d)
                        else:
                            order.append(d)
                        files['%s/my/%s%s' % (d, lib, c.pick(['.ss', '.sld', '.scm']))] = '(define-library (my %s) (import (scheme base)) (export here) (begin (define here "%s")))' % (lib, d)
                    args += option('e', 'evaluate', '(import (prefix (my %s) %s:))' % (lib, lib))
                    if not started:
                        args += option('e', 'evaluate', HEAD)
                        started = True
                    args += option('e', 'evaluate', '(display %s:here)' % lib)
                    m.out.append(order[0])
                    evaluated += 1
                    feats.add('library directories')
                else:
                    args += c.pick([['--no-such-option'], ['-q'], ['no-such-file.ss'], ['--color=3'], ['-e', ')'], ['-w', '(1 . '], ['-l', 'no-such-file']])
                    feats.add('bad argument')
                    raise End('error')
        except End as e:
            status, ended = e.args[0], True
            for _ in range(c.int(0, 2)):
                args += ['-w', 'never'] if c.bool() else ['-e', '(import (scheme base) (scheme write))']
        if not ended and c.bool(.1):
            args += [c.pick(['-v', '--version'])] + c.pick([[], ['-w', 'never'], ['no-such-file']])
            m.out.append('VERSION\n')
            interactive = g.interactive = False
            feats.add('version')
        if interactive and not ended:
            status = self.repl(c, g, args)
        sent = [a for a in args]
        shown = '(%s)' % ' '.join(wr(a) for a in sent)
        out = ''.join(shown if t is None else t for t in m.out)
        spec = dict(args=args, files=files, stdin=g.m.stdin if interactive else stdin, out=out, err=''.join(m.err), status=status, interactive=interactive)
        ends = {'exit', 'emergency', 'exit in a wind', 'emergency in a wind', 'uncaught error', 'stdin'}
        return pbt.Case(json.dumps(spec, indent=1, ensure_ascii=False), nontrivial=evaluated > 1 and bool(feats & ends) or interactive, labels=sorted(feats))

    def repl(self, c, g, args):
        """The session that -i starts: errors are reported and it goes on; each value is printed on a line."""
        m = g.m
        args.insert(c.draw(2) * len(args), c.pick(['-i', '--interactive']))
        g.features.add('interactive')
        lines, status = [], 0
        for _ in range(c.int(1, 6)):
            k = c.draw(7)
            if k == 0:
                lines.append('(error "x" 1)' if c.bool() else "(raise 'y)")
                m.out.append('> ')
                m.err.append('')
            elif k == 1:
                t = self.simple(c)
                lines.append('(begin (display %s) %d)' % (sx.lit(t), 5))
                m.out.append('> %s5\n' % t)
            elif k == 2:
                n = c.int(0, 99)
                v = g.fresh('r')
                lines.append('(define %s %d) (+ %s 1)' % (v, n, v))
                m.out.append('> %s\n> %d\n' % (v if False else n, n + 1))
            elif k == 3:
                d = c.pick(DATA)
                lines.append("'" + d)
                m.out.append('> %s\n' % d)
            elif k == 4 and c.bool(.4):
                s = c.int(0, 9)
                lines.append('(exit %d) (display "never")' % s)
                m.out.append('> ')
                g.m.stdin = c.pick(['\n', ' ']).join(lines) + '\n'
                return s
            else:
                a, b = c.int(-99, 99), c.int(-99, 99)
                lines.append('(let ((a %d))\n (* a %d))' % (a, b))
                m.out.append('> %d\n' % (a * b))
        g.m.stdin = c.pick(['\n', ' ']).join(lines) + '\n'
        m.out.append('> ')
        return 0

    def simple(self, c):
        return c.pick(['a', 'xy', 'one'])

    def run_program(self, srv, case):
        s = json.loads(case.code)
        d = os.path.realpath(tempfile.mkdtemp(prefix='p30-'))
        try:
            for f, t in s['files'].items():
                p = os.path.join(d, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w', encoding='utf-8', newline='') as o:
                    o.write(t)
            try:
                r = subprocess.run([srv.exe] + s['args'], cwd=d, input=s['stdin'].encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=self.timeout,
                                   env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': d, 'TERM': 'dumb'})
            except subprocess.TimeoutExpired:
                return 'timeout'
            out, err = r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')
        finally:
            shutil.rmtree(d)
        with open('/repo/VERSION') as f:
            want = s['out'].replace('VERSION\n', f.read().strip() + '\n')
        if s['interactive']:
            # the end of file may or may not be shown
            ok = out == want or s['status'] == 0 and out.rstrip('\n').removesuffix('#,(eof-object)') == want.rstrip('\n')
        else:
            ok = out == want
        if not ok:
            return 'standard output: expected %s, got %s (status %s, standard error %s)' % (pbt.clip(repr(want)), pbt.clip(repr(out)), r.returncode, pbt.clip(repr(err), 300))
        st = s['status']
        if st in ('error', 'failure'):
            if r.returncode <= 0 or r.returncode >= 126:
                return 'status %s instead of failure; standard error %r' % (r.returncode, err[:300])
        elif r.returncode != st:
            return 'status %s instead of %s; standard error %r' % (r.returncode, st, err[:300])
        if st == 'error':
            if not (err.startswith(s['err']) and len(err) > len(s['err'])):
                return 'standard error: expected %r and a message, got %r' % (s['err'], err[:300])
        elif not s['interactive'] and err != s['err']:
            return 'standard error: expected %r, got %r' % (s['err'], err[:300])
        return None
