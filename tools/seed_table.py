#!/usr/bin/env python3
"""seed_table.py LOG: the table of planted bugs in DESIGN.md from the output of try_seeded.sh."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d+) exit=(\d) \S+ ?(?:run (\d+) \(seed \d+\): (\S+))?', l)
    if m:
        got.setdefault(m[1], []).append((m[2], m[3], m[4], m[5]))
out = ["| planted change | needs | caught by (run of seed 1: verdict) |", "|---|---|---|"]
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(f'{ROOT}/seeded/{d}/meta.json'))
    r = '; '.join(f'{p} ({n}: {v})' if c == '1' else f'{p}: not caught' for p, c, n, v in got.get(d, [])) or 'not tried'
    out.append(f"| {d} | {m['needs']} | {r} |")
t = open(ROOT + '/DESIGN.md').read()
a, b = t.index('<!-- seeds -->'), t.index('<!-- /seeds -->')
open(ROOT + '/DESIGN.md', 'w').write(t[:a] + '<!-- seeds -->\n' + '\n'.join(out) + '\n' + t[b:])
