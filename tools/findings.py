#!/usr/bin/env python3
"""Writes known-findings.txt: the repairs from /repo's history, and the findings that are recorded only."""
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# start of the subject of a fix commit -> property
FIX = '''
P05 Round exact|gcd and lcm|expt of an exact|An exact quotient
P06 remainder of a flonum
P07 Shift small|Rotating an empty
P08 Convert large|Infinities are|Comparing NaN|magnitude of|Negating 0.0|exact of an infinity
P09 number->string of|string->number of|Read decimals beyond|Parse decimals|Normalise rational|Compare ratios and|Decimals have|A ratio equals
P12 Compare strings|string->vector|char-whitespace|Do not lose|Code points inside|digit-value|string->utf8|boolean=|utf8->string|Write strings with
P13 vector-copy!|bytevector-append|Write single
P29 equal? of|eqv? distinguishes
P30 Operands of|--help and
P31 Quasiquote splices
P08 The square root of a large
P36 A complex number whose
P32 null-environment has|interaction-environment of
P15 The body of letrec
P35 load evaluates|A name in a file
P10 apply passes|Procedures on lists of some
P01 display shows|Write symbols whose
P03 Read an unquoted|A line continuation|An exactness prefix|Read #T|A comment at
P02 Reject misplaced|Read malformed|A numeric vector wrapped
P14 End of file|At the end of a binary|read-bytevector!|char-ready|A closed string|Files that|A carriage|read-line
P04 Datum labels|Write circular
P17 Continuations unwind
P20 A macro use that|Internal definitions of var
P26 Chained promises
P19 Pattern variables in|quote strips|Literals of syntax|identifier->symbol took|A literal or an underscore
P21 The lists of import
P22 The elements of vectors|The elements of a vector are not roots
P20 letrec that shadows a local|A variable renamed by alpha|Internal definitions that shadow keywords|A local keyword that shadows|Free identifiers of a macro
P34 fxsqrt|flcbrt
P24 Renamed imports
P25 include and cond-expand|cond-expand in the
'''
FINDINGS = [
    ('P02', 'deep-nesting', 'data nested some 10^5 levels deep exhaust the C++ stack (reading, printing and comparing are recursive)'),
    ('P03', 'exact-decimal', '#e1.1 is the exact value of the flonum 1.1 instead of 11/10'),
    ('P08', 'flonum-equal-tolerance', '(= 1e-300 2e-300) is #t: = between flonums has an absolute tolerance of DBL_EPSILON (stable tests of inexact results depend on it)'),
    ('P08', 'nan-equal-nan', '(= +nan.0 +nan.0) is #t, for the same reason'),
    ('P08', 'nan-order', '(<= 1 +nan.0) is #t: <= and >= are the negations of > and < (stable tests compare infinities through the NaN of their difference)'),
    ('P09', 'write-integral-flonum', '8.0 is written 8, which reads back exact (the names of stable tests contain values written this way)'),
    ('P09', 'flonum-radix', 'number->string of a flonum in radix 2 or 8 gives "TODO"'),
    ('P09', 'string-number-prefix', '(string->number "#xff") is #f: radix prefixes are known to the reader only'),
    ('P12', 'alphabetic-nl', 'char-alphabetic? is #f of characters that are Alphabetic but not letters, such as U+2160 (the derived properties are not among the data the build uses)'),
    ('P12', 'upper-case-other', 'char-upper-case? is #f of characters that have Other_Uppercase, such as U+24B6, for the same reason'),
    ('P12', 'foldcase-final-sigma', 'char-foldcase is char-downcase: characters such as U+03C2 are not folded'),
    ('P12', 'upcase-sharp-s', 'string-upcase uses the simple mapping: U+00DF stays'),
    ('P14', 'u8-ready-eof', 'u8-ready? is #f at the end of a bytevector port (a stable test expects it)'),
    ('P28', 'record-vector', 'records are vectors: (vector? record) is #t, and equal? compares them by content'),
    ('P29', 'eqv-strings', 'eqv? is #t of separately allocated strings of the same characters (a stable test of literals depends on it)'),
    ('P36', 'log-of-negative', '(log -1), (asin 2) and (acos 2) are NaN instead of the complex number (they are complex for complex arguments)'),
    ('P34', 'fl-least', 'fl-least is the smallest normalised flonum, not the smallest positive one (a stable test pins it)'),
]


def main():
    m = [(p, s) for l in FIX.strip().splitlines() for p, ss in [l.split(' ', 1)] for s in ss.split('|')]
    out = ['# Genuine defects of the code under test; written by tools/findings.py.',
           '#   finding: property=<id> id=<demo id> <what fails>      still there; the check prints KNOWN-FINDING for it',
           '#   fixed: property=<id> <commit> <what failed>            repaired by that commit in /repo; suppresses nothing']
    for p, i, t in FINDINGS:
        out.append('finding: property=%s id=%s %s' % (p, i, t))
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '7898cfa..HEAD'], text=True)
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        s = s[5:]
        ps = [p for p, start in m if s.startswith(start)]
        if len(ps) != 1:
            print('no property for', l, ps)
            continue
        out.append('fixed: property=%s %s %s' % (ps[0], h, s))
    open(os.path.join(V, 'known-findings.txt'), 'w').write('\n'.join(out) + '\n')


main()
