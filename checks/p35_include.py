"""Programs of P15 whose text is spread over files: include, include-ci, include-library-declarations, load and library files."""
import json
import os
import shutil
import tempfile

import p15_programs
import pbt
import ref
import sx
from sx import Sym as S

BODY = {'lambda': 2, 'let': 2, 'let*': 2, 'letrec': 2, 'letrec*': 2, 'begin': 1, 'when': 2, 'unless': 2}


def names_of(x, out):
    if isinstance(x, S):
        out.add(x.name)
    elif isinstance(x, sx.Dot):
        for y in x.items:
            names_of(y, out)
        names_of(x.tail, out)
    elif isinstance(x, list):
        for y in x:
            names_of(y, out)
    return out


class Files:
    def __init__(self, c):
        self.c, self.files, self.n = c, {}, 0
        self.features = set()
        self.budget = 8

    # --- text of data, for a file read with or without folding of case
    def text(self, x, ci):
        if isinstance(x, S):
            t = ref.src(x)
            if ci and t[0] != '|':
                c = self.c
                t = ''.join(ch.upper() if c.bool(.3) else ch for ch in t)
            return t
        if isinstance(x, sx.Vec):
            return '#(%s)' % ' '.join(self.text(y, ci) for y in x)
        if isinstance(x, list):
            return '(%s)' % ' '.join(self.text(y, ci) for y in x)
        if isinstance(x, sx.Dot):
            return '(%s . %s)' % (' '.join(self.text(y, ci) for y in x.items), self.text(x.tail, ci))
        if x is True or x is False:
            return self.c.pick(['#t', '#true', '#T' if ci else '#t']) if x else '#f'
        return ref.src(x)

    def path(self):
        self.n += 1
        c = self.c
        d = c.pick(['', '', 'a/', 'b/', 'a/b/', 'sp ace/', 'λ/'])
        return d + 'f%d%s' % (self.n, c.pick(['.ss', '.scm', '.txt', '.inc.ss', '']))

    def relative(self, to, frm):
        c = self.c
        k = c.draw(8)
        if k == 0:
            self.features.add('absolute path')
            return '@ROOT@/' + to
        r = os.path.relpath('/' + to, '/' + os.path.dirname(frm))
        if k == 1:
            r = './' + r
        if '..' in r:
            self.features.add('parent directory')
        return r

    def store(self, forms, depth, keyword):
        """Puts the forms into a new file; its path."""
        c = self.c
        p = self.path()
        ci = keyword == 'include-ci'
        head = ''
        if c.bool(.12):
            # a directive holds for its own file only
            if ci:
                head, ci = '#!no-fold-case\n', False
            else:
                head, ci = '#!fold-case ', True
            self.features.add('fold-case directive')
        sep = c.pick(['\n', ' ', '\n\n ; comment\n', '#;(include "nowhere") ', ' #| (include "nowhere") |# ', '\r\n'])
        parts = self.sequence(forms, p, depth - 1, ci)
        self.files[p] = head + sep.join(parts) + c.pick(['', '\n', ' ; end', '\n#| end |#', '#;9'])
        if not forms:
            self.features.add('empty file')
        if ci:
            self.features.add('folded file')
        return p

    def include(self, forms, frm, depth, ci=False, keyword=None):
        """An include form, in the file frm, that stands for the forms."""
        c = self.c
        self.budget -= 1
        k = keyword or c.pick(['include', 'include', 'include-ci'])
        self.features.add(k)
        m = c.pick([1, 1, 1, 2, 3])
        cuts = sorted(c.int(0, len(forms)) for _ in range(m - 1))
        parts = [forms[a:b] for a, b in zip([0] + cuts, cuts + [len(forms)])]
        if m > 1:
            self.features.add('several files')
        ps = [self.store(x, depth, k) for x in parts]
        return '(%s %s)' % (self.text(S(k), ci), ' '.join(sx.lit(self.relative(p, frm)) for p in ps))

    def sequence(self, forms, frm, depth, ci):
        """The texts of a sequence of forms in the file frm."""
        c = self.c
        out = []
        i = 0
        while i < len(forms):
            if depth > 0 and self.budget > 0 and c.bool(.3):
                j = i + c.int(0, min(4, len(forms) - i))
                out.append(self.include(forms[i:j], frm, depth, ci))
                if j == i:
                    out.append(self.form(forms[i], frm, depth, ci))
                    j += 1
                i = j
            else:
                out.append(self.form(forms[i], frm, depth, ci))
                i += 1
        return out

    def form(self, x, frm, depth, ci):
        """The text of a form, with bodies in files."""
        c = self.c
        if depth <= 0 or self.budget <= 0 or not isinstance(x, list) or isinstance(x, sx.Vec) or not x:
            return self.text(x, ci)
        h = x[0].name if isinstance(x[0], S) else None
        if h in ('quote', 'quasiquote', 'define-syntax', 'let-syntax', 'letrec-syntax', 'case', 'syntax-rules', 'define-record-type'):
            return self.text(x, ci)
        k = BODY.get(h)
        if h == 'define' and len(x) > 2 and isinstance(x[1], (list, sx.Dot)):
            k = 2
        if k and len(x) > k and not (h == 'let' and isinstance(x[1], S)):
            head = [self.text(y, ci) for y in x[:k]]
            if c.bool(.35):
                i = c.int(k, len(x) - 1)
                body = [self.text(y, ci) for y in x[k:i]] + [self.include(x[i:], frm, depth, ci)]
                self.features.add('inside a body')
            else:
                body = [self.form(y, frm, depth, ci) for y in x[k:]]
            return '(%s)' % ' '.join(head + body)
        if h in ('if', 'out', '+', 'list', 'cons', 'set!') and c.bool(.15) and len(x) > 2 and not isinstance(x[-1], S):
            self.features.add('expression')
            junk = [c.pick([1, [S('quote'), S('x')], 'junk'])] if c.bool(.3) else []
            return '(%s %s)' % (' '.join(self.text(y, ci) for y in x[:-1]), self.include(junk + [x[-1]], frm, depth, ci))
        if h in ('if', 'out', '+', 'list', 'cons', 'set!', 'define'):
            return '(%s)' % ' '.join(self.form(y, frm, depth, ci) if i else self.text(y, ci) for i, y in enumerate(x))
        return self.text(x, ci)


class Check(p15_programs.Check):
    id = 'P35'
    program = True
    batch = 1
    timeout = 20.0
    quick = 4000
    thorough = 40000
    rule = 'the program is spread over three files or more'
    assumptions = ['lib/ref.py implements R7RS', 'a relative name is found beside the including file; no file of that name lies in the working directory as well']
    size = 45
    imports = '(import (scheme base) (scheme write) (scheme lazy))'

    def gen(self, c):
        for _ in range(20):
            top, body, features = self.make(c)
            try:
                expect, steps = self.reference(top, body)
            except (ref.Overrun, RecursionError, ref.SchemeError):
                continue
            if len(expect) > 20000:
                continue
            break
        else:
            top, body, expect = [], [S('x')], None
        bad = names_of([top, body], set()) & {'include', 'include-ci'}
        if expect is None or bad:
            return pbt.Case(json.dumps(dict(files={'main.ss': "(import (scheme base) (scheme write)) (write 1)"}, cwd='', show=False)), expect='1', nontrivial=False)
        rename = lambda x: S(x.name.replace('@@', '0')) if isinstance(x, S) else sx.Vec(map(rename, x)) if isinstance(x, sx.Vec) else [rename(y) for y in x] if isinstance(x, list) else sx.Dot([rename(y) for y in x.items], rename(x.tail)) if isinstance(x, sx.Dot) else x
        top, body = rename(top), rename(body)
        f = Files(c)
        log = [[S('define'), S('verif-log'), [S('quote'), []]], [S('define'), [S('out'), S('x')], [S('set!'), S('verif-log'), [S('cons'), S('x'), S('verif-log')]]]]
        let = [S('let'), []] + body
        value = [S('define'), S('verif-value'), let]
        forms = log + top + [value]
        imports = [S('import'), [S('scheme'), S('base')], [S('scheme'), S('write')], [S('scheme'), S('lazy')]]
        style = c.weighted([(5, 'program'), (3, 'library'), (3, 'library file'), (2, 'load'), (1, 'eval')])
        f.features.add(style)
        cwd = c.pick(['', '', 'other'])
        end = '(verif-show (list verif-value (reverse verif-log)) (current-output-port))'
        main = 'main.ss'
        text = ['(import (scheme base) (scheme write))', sx.SHOW]
        if style == 'program':
            seq = f.sequence(forms, main, 4, False)
            text = ['(import (scheme base) (scheme write) (scheme lazy))', sx.SHOW] + seq + [end]
        elif style in ('library', 'library file'):
            where = main if style == 'library' else 't/' + c.pick(['l.ss', 'l.sld', 'l.scm'])
            decl = []
            groups, i = [], 0
            while i < len(forms):
                j = i + c.int(1, len(forms) - i)
                groups.append(forms[i:j])
                i = j
            for g in groups:
                k = c.draw(4)
                if k == 0:
                    decl.append([S('begin')] + g)
                elif k == 1:
                    decl.append(('file', g))
                else:
                    decl.append([S('begin')] + g if k == 2 else ('raw', g))
            exports = [S('export'), S('verif-value'), S('verif-log')]

            def put(ds, frm, depth):
                """Texts of declarations, some of them in files of declarations."""
                out, i = [], 0
                while i < len(ds):
                    if depth > 0 and c.bool(.35):
                        j = i + c.int(1, len(ds) - i)
                        p = f.path()
                        f.files[p] = '\n'.join(put(ds[i:j], p, depth - 1))
                        f.features.add('include-library-declarations')
                        q = f.path() if c.bool(.2) else None
                        if q:
                            f.files[q] = c.pick(['', '(export)', '(begin)', '; nothing'])
                        out.append('(include-library-declarations %s)' % ' '.join(sx.lit(f.relative(z, frm)) for z in [p] + [q] * bool(q)))
                        i = j
                        continue
                    d = ds[i]
                    if isinstance(d, tuple):
                        f.budget = max(f.budget, 2)
                        out.append(f.include(d[1], frm, 2, False))
                    elif d[0] == S('begin'):
                        out.append('(begin %s)' % ' '.join(f.sequence(d[1:], frm, 2, False)))
                    else:
                        out.append(f.text(d, False))
                    i += 1
                return out
            ds = [imports] + decl
            ds.insert(c.int(0, len(ds)), exports)
            lib = '(define-library (t l)\n %s)' % '\n '.join(put(ds, where, 2))
            if style == 'library file':
                f.files[where] = lib
                cwd = c.pick(['', 'other'])
                text.append('(import (t l))')
            else:
                text += [lib, '(import (t l))']
            text.append(end)
        else:
            # loaded or evaluated in an environment of its own, in parts
            text[0] = '(import (scheme base) (scheme write) (scheme load) (scheme eval) (scheme repl))'
            if c.bool():
                text.append("(define e (environment '(scheme base) '(scheme write) '(scheme lazy)))")
                to = ' e'
            else:
                text.append("(define e (interaction-environment))")
                to = c.pick([' e', ''])
                text.append("(eval '(import (scheme base) (scheme write) (scheme lazy)) e)")
                f.features.add('interaction environment')
            i = 0
            while i < len(forms):
                j = i + c.int(1, len(forms) - i)
                if style == 'load':
                    p = f.store(forms[i:j], 2, 'include')
                    text.append('(load %s%s)' % (sx.lit('@ROOT@/' + p), to))
                else:
                    for t in f.sequence(forms[i:j], main, 3, False):
                        text.append("(eval '%s e)" % t)
                i = j
            text.append("(verif-show (eval '(list verif-value (reverse verif-log)) e) (current-output-port))")
        f.files[main] = '\n'.join(text) + '\n'
        return pbt.Case(json.dumps(dict(files=f.files, cwd=cwd), indent=1, ensure_ascii=False), expect=expect, nontrivial=len(f.files) >= 3, labels=sorted(f.features))

    def run_program(self, srv, case):
        s = json.loads(case.code)
        d = os.path.realpath(tempfile.mkdtemp(prefix='p35-'))
        try:
            os.makedirs(os.path.join(d, s['cwd']), exist_ok=True)
            for x in ('a/b', 'b', 'λ', 'sp ace', 't'):
                os.makedirs(os.path.join(d, x))
            for f, t in s['files'].items():
                with open(os.path.join(d, f), 'w', encoding='utf-8', newline='') as o:
                    o.write(t.replace('@ROOT@', d))
            r = srv.run('(include "%s/main.ss")' % d, cwd=os.path.join(d, s['cwd']), timeout=self.timeout)
        finally:
            shutil.rmtree(d)
        return self.judge_result(case, r)
