#!/usr/bin/env python3
"""DESIGN.md = design_head.md + bounds per harness + planted bugs."""
import glob, os, re, json
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
o = open(os.path.join(H, 'tools', 'design_head.md')).read()
o += '\n## 6. Bounds per harness\n'
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    by = {}
    for f in sorted(glob.glob(os.path.join(H, 'harness', p['id'] + '*.cpp'))):
        for n, b in re.findall(r'^// @bound (\w+):? (.*)$', open(f).read(), re.M):
            by.setdefault(b, []).append(n)
    o += '\n**%s %s**\n' % (p['id'], p['title'])
    for b, n in by.items():
        o += '* `%s`: %s\n' % ('`, `'.join(n), b)
o += '\n## 7. Planted bugs\n\nEach was written from the property text, compiles, passes the 83 tests and has a demonstration.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
c = {}
cf = os.path.join(H, 'tools', 'caught.json')
if os.path.exists(cf):
    c = json.load(open(cf))
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    b = os.path.basename(d)
    o += '| %s | %s | %s | %s |\n' % (b, m['property'], m['needs'], c.get(b, 'not caught'))
open(os.path.join(H, 'DESIGN.md'), 'w').write(o)
