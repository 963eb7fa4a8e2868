"""Fuzzing read, under AddressSanitizer and UndefinedBehaviorSanitizer."""
import re
import gen
import pbt
import sx
import p01_roundtrip as p01

TOKENS = ['(', ')', '(', ')', '#(', '#u8(', "'", '`', ',', ',@', '.', ' . ', '#;', ';', '#|', '|#', '|', '"', '\\', '\\x', ';', '\\x41;', '\\n', '\\\n  ', '\\ \n', ' ', '\n', '\t', '\r', '\x0c',
          '#\\', '#\\a', '#\\x41', '#\\x110000', '#\\xD800', '#\\newline', '#\\nul', '#\\(', '#\\)', '#\\ ', '#t', '#f', '#true', '#false', '#tru', '#T', '#!', '#!eof', '#!fold-case', '#!no-fold-case', '#!r6rs',
          '#0=', '#0#', '#1=', '#1#', '#01#', '#99999999999999999999=', '#99999999999999999999#', '#0', '#', '##', '#a', '#u', '#u8', '#u16(', '#s8(', '#s64(', '#f32(', '#f64(', '#f', '#f3', '#u9(', '#s(', '#u99999999999999999999(',
          '#b', '#o', '#d', '#x', '#e', '#i', '#b1', '#x1F', '#e1.5', '#i1/2', '#x#e10', '#e#x10', '#b#b', '#d1e2', '#e1e30', '#e+inf.0', '#i+nan.0', '1', '-1', '+1', '1/2', '1/0', '0/0', '-0', '1.', '.1', '1.5', '1e3', '1e', '1e400', '-1e-400', 'e1', '+', '-', '...', '..',
          '+i', '-i', '1+i', '1+2i', '1@2', '+inf.0', '-inf.0', '+nan.0', '+inf.0i', '1+', '1+2', '12345678901234567890', '0x1', '1/2/3', '1/2.5', 'abc', 'a', 'ABC', 'λ', '日本', '\U0001F600', '\u2028', '\x7f', '\x00', '\x01', '[', ']', '{', '}',
          '@', '$', '~', 'a|b', '|a b|', '||', '"a"', '""', '"a\\', '#"a b"', '#<unspecified>', '#&1', "#'a", '#`a', '#{', '#[', '128', '255', '256', '-129', '65536', '99999999999999999999']
SRFI10 = re.compile(r'#,')


class Check(pbt.Property):
    id = 'P02'
    variant = 'asan'
    imports = '(import (scheme read) (scheme file) (scheme char) (srfi 4))\n'
    prelude = p01.ENC + '''
(define (datum-ok? x again)
  (or (not again)
      (let* ((t (written x)) (y (read (open-input-string t))))
        (equal? (written y) t))))
;; reads to the end: the number of data, or what went wrong
(define (read-through p limit again)
  (let loop ((n 0))
    (if (< limit n)
        'too-many
        (let ((x (call-with-current-continuation
                   (lambda (k)
                     (with-exception-handler
                       (lambda (e) (k (if (or (read-error? e) (error-object? e)) 'caught-error (list 'raised e))))
                       (lambda () (list (read p))))))))
          (cond ((eq? x 'caught-error) 'error)
                ((eq? (car x) 'raised) x)
                ((eof-object? (car x)) (if (eof-object? (read p)) 'end 'no-eof))
                ((datum-ok? (car x) again) (loop (+ n 1)))
                (else (list 'unstable (written (car x)))))))))
(define (file-with bytes)
  (call-with-port (open-binary-output-file "f") (lambda (p) (write-bytevector bytes p)))
  (open-input-file "f"))
'''
    batch = 60
    quick = 260
    thorough = 20000
    timeout = 60.0
    rule = 'the text has at least two tokens that the reader treats specially'
    assumptions = ['"#," (SRFI 10, which evaluates code) is not generated', 'texts are shorter than a few hundred characters: nesting deep enough to exhaust the C++ stack is a recorded finding']
    demos = {'deep-nesting': ('(pair? (read (open-input-string (make-string 400000 #\\())))', '!error')}

    def text(self, c):
        k = c.draw(6)
        if k == 0:
            return gen.string(c, 12)
        if k < 3:
            return ''.join(c.pick(TOKENS) + (c.pick(['', '', ' ']) if c.bool(0.7) else '') for _ in range(c.int(1, 14)))
        if k == 3:
            return ''.join(c.pick('()#\\;|"\'.,`1a x=\n0') for _ in range(c.int(1, 16)))
        # a valid text, damaged
        s = ' '.join(self.plain(c, c.int(1, 3)) for _ in range(c.int(1, 3)))
        for _ in range(c.int(0, 3)):
            i = c.draw(len(s) + 1)
            j = min(len(s), i + c.int(0, 3))
            s = c.pick([lambda: s[:i] + s[j:], lambda: s[:i] + c.pick(TOKENS) + s[i:], lambda: s[:i], lambda: s[i:] + s[:i], lambda: s[:j] + s[i:]])()
        return s[:400]

    def plain(self, c, d):
        if d == 0 or c.bool(0.3):
            return c.pick(TOKENS[30:])
        k = c.draw(8)
        n = c.int(0, 4)
        xs = [self.plain(c, d - 1) for _ in range(n)]
        if k < 3:
            return '(' + ' '.join(xs) + ')'
        if k == 3 and n:
            return '(' + ' '.join(xs) + ' . ' + self.plain(c, d - 1) + ')'
        if k == 4:
            return '#(' + ' '.join(xs) + ')'
        if k == 5:
            return c.pick(["'", '`', ',', ',@', '#;', '#0=', '#1=']) + self.plain(c, d - 1)
        if k == 6:
            return c.pick(['#u8(', '#s8(', '#f64(', '#u16(', '#s32(']) + ' '.join(c.pick(['0', '1', '255', '256', '-1', '1.5', '1/2', 'a', '1e3', '+i']) for _ in range(n)) + ')'
        return c.pick(['#0#', '#1#', 'x'])

    def gen(self, c):
        s = SRFI10.sub('#;', self.text(c))
        special = len(re.findall(r'[()#\\"|;.,`\']', s))
        if c.bool(0.2):
            b = bytearray(s.encode())
            for _ in range(c.int(0, 3)):
                i = c.draw(len(b) + 1)
                b[i:i] = c.pick([b'\xff', b'\xc3', b'\xe3\x81', b'\xf0\x9f', b'\x80', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xf8', b'\xe3('])
            b = bytes(b).replace(b'#,', b'#;')
            try:
                b.decode()
                again = '#t'
            except UnicodeDecodeError:
                again = '#f'
            code = '(read-through (file-with %s) %d %s)' % (sx.datum(b), len(b), again)
            kind = 'file'
        else:
            code = '(read-through (open-input-string %s) %d #t)' % (sx.strlit(s), len(s))
            kind = 'string'

        def judge(t):
            if t in ('end', 'error'):
                return None
            if t.startswith('(unstable') and re.search(r'-0(?![0-9./xe])', t):
                return None     # -0.0 is written -0: write-integral-flonum of P09
            return 'reading %r: %s' % (s, t)
        return pbt.Case(code, judge=judge, nontrivial=special >= 2, labels=[kind])
