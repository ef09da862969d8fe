#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.jsonl from fixmap.txt and /repo's history."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        log[s[5:]] = h
p = os.path.join(V, 'known_findings.jsonl')
keep = [l for l in open(p).read().splitlines() if l.startswith('{')]
n = set()
for l in open(os.path.join(V, 'tools', 'fixmap.txt')).read().splitlines():
    pid, what = l.split(' ', 1)
    keep.append('fixed: property=%s %s %s' % (pid, log[what], what))
    n.add(what)
for s in log:
    if s not in n:
        print('unmapped fix:', s)
open(p, 'w').write('\n'.join(keep) + '\n')
