#!/usr/bin/env python3
"""Says which planted bugs change lines that a fix of ours added."""
import os
import re
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '748c015'
blame = {}


def ours(path):
    if path not in blame:
        out = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', path], text=True)
        blame[path] = [l.split()[0].lstrip('^')[:7] != BASE for l in out.splitlines()]
    return blame[path]


for b in sorted(os.listdir(V + '/seeded')):
    path, n, bad = None, 0, []
    gone = 0
    for l in open('%s/seeded/%s/patch.diff' % (V, b)):
        if l.startswith('--- a/'):
            path = l[6:].strip()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            gone += 1
            if ours(path)[n]:
                bad.append(l.strip())
            n += 1
        elif l.startswith(' '):
            n += 1
    if bad or not gone:
        print(b, 'removes', gone, 'lines, of ours:', bad)
