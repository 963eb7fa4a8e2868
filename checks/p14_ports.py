"""Histories of port operations against a model of ports."""
import gen
import pbt
import sx
from sx import Char, EOF


class Out:
    def __init__(self, binary, file=None):
        self.data, self.binary, self.file, self.open = [], binary, file, True


class In:
    def __init__(self, data, binary, file=None):
        self.data, self.pos, self.binary, self.file, self.open = list(data), 0, binary, file, True

    def left(self):
        return len(self.data) - self.pos


class Check(pbt.Property):
    id = 'P14'
    imports = '(import (scheme file) (scheme read) (srfi 1))\n'
    batch = 40
    quick = 700
    thorough = 40000
    rule = 'a history of at least three operations that moves data through at least one port'
    assumptions = ['u8-ready? is not generated at the end of file (a recorded finding)', 'counts of zero are not generated at the end of file']
    prelude = '''
(define n 0)
(define (fname i) (string-append "f" (number->string i)))
'''
    demos = {'u8-ready-eof': ('(u8-ready? (open-input-bytevector (bytevector)))', '#t')}

    def text(self, c, hi=12):
        out = []
        for _ in range(c.int(0, hi)):
            k = c.draw(8)
            if k < 3:
                out.append(c.pick('abc ()"1;'))
            elif k == 3:
                out.append('\n')
            elif k == 4:
                out.append(c.pick(['\r', '\r\n', '\n\n', '\t']))
            elif k == 5:
                out.append(c.pick('λé日😀\x7f\u2028\u07ff\u0800\uffff'))
            elif k == 6:
                out.append(chr(gen.codepoint(c)))
            else:
                out.append(c.pick('xyz'))
        return ''.join(out)

    def bytes(self, c, hi=10):
        return bytes(c.pick([0, 255, 10, 13, 127, 128, c.draw(256)]) for _ in range(c.int(0, hi)))

    def gen(self, c):
        nfile = c.draw(2)
        ports, binds, files = [], [], {}
        stmts, outs = [], []
        moved = 0

        def record(code, value):
            stmts.append('(set! out (cons %s out))' % code)
            outs.append(value)

        def define(code, port):
            stmts.append('(set! p%d %s)' % (len(ports), code))
            ports.append(port)

        def source(c):
            b = c.bool(0.4)
            if b:
                d = self.bytes(c)
                define('(open-input-bytevector %s)' % sx.datum(d), In(d, True))
            else:
                d = self.text(c)
                define('(open-input-string %s)' % sx.datum(d), In(d, False))

        def sink(c):
            b = c.bool(0.4)
            if c.bool(0.35):
                f = len(files)
                files[f] = None
                define('(open-%soutput-file "f%d")' % ('binary-' if b else '', f), Out(b, f))
            else:
                define('(open-output-%s)' % ('bytevector' if b else 'string'), Out(b))

        (source if c.bool(0.6) else sink)(c)
        nops = c.int(1, 14)
        for _ in range(nops):
            k = c.draw(16)
            if k == 0 and len(ports) < 5:
                (source if c.bool() else sink)(c)
                continue
            if k == 1 and len(ports) < 5:
                done = [f for f, v in files.items() if v is not None]
                if done:
                    f = c.pick(done)
                    binary, data = files[f]
                    if binary and c.bool(0.3):
                        try:
                            data, binary = list(bytes(data).decode()), False
                        except UnicodeDecodeError:
                            pass
                    elif not binary and c.bool(0.3):
                        data, binary = list(''.join(data).encode()), True
                    define('(open-%sinput-file "f%d")' % ('binary-' if binary else '', f), In(data, binary, f))
                    continue
            i = c.draw(len(ports))
            p = ports[i]
            name = 'p%d' % i
            if k == 2:
                kind = isinstance(p, In)
                record('(list (input-port? %s) (output-port? %s) (port? %s) (textual-port? %s) (binary-port? %s) (%sput-port-open? %s))' % (name, name, name, name, name, 'in' if kind else 'out', name),
                       [kind, not kind, True, not p.binary, p.binary, p.open])
                continue
            if k == 3:
                # closing twice is allowed
                if isinstance(p, In):
                    stmts.append('(%s %s)' % (c.pick(['close-port', 'close-input-port']), name))
                else:
                    stmts.append('(%s %s)' % (c.pick(['close-port', 'close-output-port']), name))
                    if p.file is not None and p.open:
                        files[p.file] = (p.binary, list(p.data))
                p.open = False
                record('(%sput-port-open? %s)' % ('in' if isinstance(p, In) else 'out', name), False)
                continue
            if not p.open:
                continue
            moved += 1
            (self.read if isinstance(p, In) else self.write)(c, p, name, record, stmts)
        # finally: everything that is left, and everything that was written
        for i, p in enumerate(ports):
            name = 'p%d' % i
            if isinstance(p, In):
                if p.open:
                    if p.binary:
                        record('(read-bytevector 1000 %s)' % name, bytes(p.data[p.pos:]) if p.left() else EOF)
                    else:
                        record('(read-string 1000 %s)' % name, ''.join(p.data[p.pos:]) if p.left() else EOF)
            elif p.file is None:
                record('(get-output-%s %s)' % ('bytevector' if p.binary else 'string', name), bytes(p.data) if p.binary else ''.join(p.data))
            else:
                if p.open:
                    stmts.append('(close-port %s)' % name)
                if p.binary:
                    record('(call-with-port (open-binary-input-file "f%d") (lambda (p) (read-bytevector 1000 p)))' % p.file, bytes(p.data) if p.data else EOF)
                elif c.bool():
                    record('(call-with-port (open-input-file "f%d") (lambda (p) (read-string 1000 p)))' % p.file, ''.join(p.data) if p.data else EOF)
                else:
                    how = c.draw(2)
                    record(['(call-with-input-file "f%d" (lambda (p) (list (read-char p) (read-string 1000 p))))', '(with-input-from-file "f%d" (lambda () (let* ((a (read-char)) (b (read-string 1000))) (list a b))))'][how] % p.file if how else
                           '(call-with-input-file "f%d" (lambda (p) (let* ((a (read-char p)) (b (read-string 1000 p))) (list a b))))' % p.file,
                           [Char(ord(p.data[0])) if p.data else EOF, ''.join(p.data[1:]) if len(p.data) > 1 else EOF])
        for f in files:
            if c.bool(0.3):
                record('(let* ((a (file-exists? "f%d")) (b (delete-file "f%d")) (d (file-exists? "f%d"))) (list a d))' % (f, f, f), [True, False])
                if c.bool():
                    op = c.pick(['open-input-file', 'open-binary-input-file', 'delete-file'])
                    record('(guard (e ((file-error? e) 7)) (%s "f%d"))' % (op, f), 7)
        code = "(let (%s (out '())) %s (reverse out))" % (' '.join('(p%d #f)' % i for i in range(len(ports))), ' '.join(stmts))
        labels = sorted({('file ' if p.file is not None else '') + ('binary ' if p.binary else 'textual ') + ('input' if isinstance(p, In) else 'output') for p in ports})
        return pbt.Case(code, expect=sx.show(outs), nontrivial=moved >= 3, labels=labels)

    def read(self, c, p, name, record, stmts):
        n = p.left()
        k = c.draw(10)
        if p.binary:
            if k < 3:
                record('(read-u8 %s)' % name, p.data[p.pos] if n else EOF)
                p.pos += 1 if n else 0
            elif k == 3:
                record('(let* ((a (peek-u8 %s)) (b (peek-u8 %s))) (list a b))' % (name, name), [p.data[p.pos] if n else EOF] * 2)
            elif k == 4 and n:
                record('(u8-ready? %s)' % name, True)
            elif k < 8:
                m = c.int(0 if n else 1, 12)
                d = p.data[p.pos:p.pos + m]
                record('(read-bytevector %d %s)' % (m, name), bytes(d) if n else EOF)
                p.pos += len(d)
            else:
                size = c.int(1, 8)
                form = c.draw(3)
                a, b = 0, size
                if form:
                    a = c.draw(size)
                if form == 2:
                    b = c.int(a + 1, size)
                d = p.data[p.pos:p.pos + b - a]
                p.pos += len(d)
                v = [9] * size
                v[a:a + len(d)] = d
                rng = ['', ' %d' % a, ' %d %d' % (a, b)][form]
                record('(let* ((v (make-bytevector %d 9)) (r (read-bytevector! v %s%s))) (list r v))' % (size, name, rng), [len(d) if n else EOF, bytes(v)])
            return
        if k < 3:
            record('(read-char %s)' % name, Char(ord(p.data[p.pos])) if n else EOF)
            p.pos += 1 if n else 0
        elif k == 3:
            record('(let* ((a (peek-char %s)) (b (peek-char %s))) (list a b))' % (name, name), [Char(ord(p.data[p.pos])) if n else EOF] * 2)
        elif k == 4:
            record('(char-ready? %s)' % name, True)
        elif k < 7:
            rest = ''.join(p.data[p.pos:])
            if not rest:
                record('(read-line %s)' % name, EOF)
                return
            ends = [q for q in (rest.find('\n'), rest.find('\r')) if q >= 0]
            if not ends:
                line, used = rest, len(rest)
            else:
                e = min(ends)
                line, used = rest[:e], e + (2 if rest[e:e + 2] == '\r\n' else 1)
            record('(read-line %s)' % name, line)
            p.pos += used
        else:
            m = c.int(0 if n else 1, 12)
            d = p.data[p.pos:p.pos + m]
            record('(read-string %d %s)' % (m, name), ''.join(d) if n else EOF)
            p.pos += len(d)

    def write(self, c, p, name, record, stmts):
        k = c.draw(8)
        if p.binary:
            if k < 3:
                x = c.draw(256)
                stmts.append('(write-u8 %d %s)' % (x, name))
                p.data.append(x)
            elif k < 6:
                d = self.bytes(c)
                i = c.draw(len(d) + 1)
                j = c.int(i, len(d))
                rng, sl = c.pick([('', slice(0, len(d))), (' %d' % i, slice(i, len(d))), (' %d %d' % (i, j), slice(i, j))])
                stmts.append('(write-bytevector %s %s%s)' % (sx.datum(d), name, rng))
                p.data += d[sl]
            elif k == 6:
                stmts.append('(flush-output-port %s)' % name)
            elif p.file is None:
                record('(get-output-bytevector %s)' % name, bytes(p.data))
            return
        if k == 0:
            x = gen.codepoint(c)
            stmts.append('(write-char %s %s)' % (sx.datum(Char(x)), name))
            p.data.append(chr(x))
        elif k < 4:
            d = self.text(c, 8)
            i = c.draw(len(d) + 1)
            j = c.int(i, len(d))
            rng, sl = c.pick([('', slice(0, len(d))), (' %d' % i, slice(i, len(d))), (' %d %d' % (i, j), slice(i, j))])
            stmts.append('(write-string %s %s%s)' % (sx.datum(d), name, rng))
            p.data += d[sl]
        elif k == 4:
            stmts.append('(newline %s)' % name)
            p.data.append('\n')
        elif k == 5:
            x = c.pick([c.int(-99, 99), [1, [2]], c.bool(), sx.Sym('ab'), sx.Vec([1, 2])])
            stmts.append("(%s '%s %s)" % (c.pick(['write', 'display', 'write-simple', 'write-shared'] if not isinstance(x, sx.Vec) else ['write', 'display']), sx.datum(x), name))
            p.data += sx.show(x)
        elif k == 6:
            stmts.append('(flush-output-port %s)' % name)
            if p.file is not None and c.bool():
                record('(call-with-port (open-input-file "f%d") (lambda (p) (read-string 1000 p)))' % p.file, ''.join(p.data) if p.data else EOF)
        elif p.file is None:
            record('(get-output-string %s)' % name, ''.join(p.data))
