#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.head.md, properties.jsonl, checks.json, the entries' comments and seeded/."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
checks = json.load(open(here + '/checks.json'))
entries = {}
for f in sorted(glob.glob(here + '/harness/*/*.go')):
    doc = []
    for l in open(f):
        if l.startswith('// '):
            doc.append(l[3:].strip()); continue
        m = re.match(r'func (C\d\d)_(\w+)\(\)', l)
        if m:
            t = ' '.join(doc)
            t = re.sub(r'^C\d\d_\w+( and its siblings)?: ', '', t)
            entries.setdefault(m[1], []).append((m[2], t))
        doc = []
oracle = json.load(open(here + '/tools/oracles.json'))
seeds = {}
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    seeds.setdefault(m['property'], []).append((d, m))
out = open(here + '/tools/design.head.md').read()
common = [a for a in checks['C01']['assumptions'] if not a.startswith('Outside')]
for p in props:
    i = p['id']; c = checks[i]
    out += f"\n### {i} {p['title']}\n\n"
    out += f"Oracle: {oracle[i]}\n\n"
    out += f"Entries (harness/{c['harness']}): " + '; '.join(f"`{n}`" + (f" {t.rstrip('.')}" if t else '') for n, t in entries[i]) + ".\n\n"
    out += "Bounds: " + '; '.join(c['bounds']) + ".\n"
    o = [a[9:] for a in c['assumptions'] if a.startswith('Outside')]
    if o:
        out += "\nOutside: " + '; '.join(o) + ".\n"
    if i in seeds:
        out += "\nPlanted bugs caught by this check: " + ', '.join(f"{d} ({m['what_it_breaks']}; needs {m['needs']})" for d, m in seeds[i]) + ".\n"
open(here + '/DESIGN.md', 'w').write(out)
