#!/usr/bin/env python3
"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json (development aid)."""
import glob, json, os
p = '/verif/DESIGN.md'; s = open(p).read()
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['property']} |")
a = s.index('| bug | property |'); a = s.index('\n', s.index('\n', a) + 1) + 1; b = s.index('Missed at first,')
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n\n' + s[b:]); print(len(rows))
