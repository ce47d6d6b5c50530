#!/usr/bin/env python3
"""Which planted bugs change no line of the original repository? (those do not
count): looks up every removed line of seeded/*/patch.diff in git blame."""
import glob
import os
import re
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'b03300e'
blame = {}
for p in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'patch.diff'))):
    f, n, orig, gone = None, 0, 0, 0
    for line in open(p):
        m = re.match(r'--- a/(.*)', line)
        if m:
            f = m.group(1)
            if f not in blame:
                blame[f] = subprocess.run(
                    ['git', '-C', '/repo', 'blame', '-s', f], text=True,
                    stdout=subprocess.PIPE).stdout.split('\n')
            continue
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1))
        elif line.startswith('-'):
            orig += blame[f][n - 1].startswith('^' + BASE)
            gone += 1
            n += 1
        elif line.startswith(' '):
            n += 1
    if gone and not orig:
        print('no original line:', p.split('/')[-2])
