#!/usr/bin/env python3
"""catch.py [id ...]: apply each seeded change to /repo, run the check of its property, undo; print what caught it."""
import sys, os, subprocess, json
S = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    d = S + '/' + i
    p = json.load(open(d + '/meta.json'))['property']
    if subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode: print(i, 'does not apply'); continue
    try:
        r = subprocess.run(['python3', '/verif/engine/check.py', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/verif')
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    l = [x for x in r.stdout.splitlines() if x.startswith('  ')][:1]
    print(i, p, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED', (l[0][:200] if l else ''), [x for x in r.stdout.splitlines() if x.startswith('UNDECIDED')][:3])
