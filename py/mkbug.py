#!/usr/bin/env python3
"""mkbug.py <id> <property> <file> : reads old/new text pairs from stdin (separated by lines ==== and ----), writes patch.diff and meta.json."""
import json, os, subprocess, sys
id, prop = sys.argv[1:3]
spec = sys.stdin.read()
d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
head, *hunks = spec.split('\n====\n')
meta = dict(l.split(': ', 1) for l in head.strip().split('\n'))
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
try:
    for h in hunks:
        f, rest = h.split('\n', 1); old, new = rest.split('\n----\n'); new = new.rstrip('\n'); old = old.rstrip('\n')
        p = '/repo/' + f.strip(); s = open(p).read(); assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(d + '/patch.diff', 'w').write(diff)
json.dump(dict(property=prop, needs=meta['needs'], what_it_breaks=meta['breaks']), open(d + '/meta.json', 'w'), indent=1)
print(diff)
