#!/usr/bin/env python3
"""Rewrites the `fixed:` lines of known-findings.txt from tools/fixes.txt and the fix: commits of /repo (run by hand after a repair; never by a check)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = [l.rstrip('\n').split('|') for l in open(V + '/tools/fixes.txt') if l.strip() and not l.startswith('#')]
out = [l for l in open(V + '/known-findings.txt') if not l.startswith('fixed:')]
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]; k = [x for x in m if s.startswith(x[0])]
    if not k: print('no property for', l); continue
    out.append('fixed: property=%s %s %s\n' % (k[0][1], h, s))
open(V + '/known-findings.txt', 'w').writelines(out)
