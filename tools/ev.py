#!/usr/bin/env python3
"""Evaluate expressions one by one against the current tree: tools/ev.py [-v variant] EXPR ... (or one per stdin line)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
import build, server
args = sys.argv[1:]
v = 'plain'
if args[:1] == ['-v']:
    v, args = args[1], args[2:]
ge = 0
if args[:1] == ['-g']:
    ge, args = int(args[1]), args[2:]
exprs = args or [l for l in sys.stdin.read().splitlines() if l.strip()]
s = server.Server(build.build((v,)), v)
IMP = '(import (scheme base) (scheme case-lambda) (scheme char) (scheme complex) (scheme cxr) (scheme eval) (scheme file) (scheme inexact) (scheme lazy) (scheme process-context) (scheme read) (scheme repl) (scheme write) (srfi 1) (srfi 151) (srfi 143) (srfi 144) (srfi 4) (srfi 111) (srfi 141))\n'
for e in exprs:
    r = s.run(IMP + ('(write %s)' % e if not e.startswith('!') else e[1:]), timeout=10, gc_every=ge)
    print(e, ' => ', r.out.decode('utf-8', 'replace')[:1500], r.err.decode('utf-8', 'replace')[:1500].strip(), '' if r.exit_code == 0 else '[%s]' % r.describe())
s.close()
