#!/usr/bin/env python3
"""Prints the fixed: lines of known_findings.txt from /repo's fix commits."""
import subprocess, sys
MAP = [l.rstrip('\n').split('\t') for l in open(__file__.replace('mkfixed.py', 'fixmap.tsv')) if l.strip()]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
missing = []
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    for prop, msg in MAP:
        if msg == s:
            print(f'fixed: property={prop} {h} {s}')
            break
    else:
        missing.append(s)
for m in missing:
    print('UNMAPPED', m, file=sys.stderr)
