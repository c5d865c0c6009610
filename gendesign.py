#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md and props.py."""
import json, os, props
V = os.path.dirname(os.path.abspath(__file__))
rd = lambda n: open(os.path.join(V, 'design', n)).read()
o = rd('head.md')
o += '## Properties\n\nDeciding method for all of them: symbolic execution with an SMT verdict per assertion, as above.\n\n'
for k, p in props.CHECKS.items():
    o += '### %s %s\n%s\n\n* quantified over: %s\n* harness runs: %s\n* bounds: %s\n* note: %s\n' % (k, p['title'], p['statement'], p['quant'], '; '.join('`%s` × %d (+%d thorough)' % (r['entry'], len(r['cases']), len([c for c in r['thorough'] if c not in r['cases']])) for r in p['runs']), p['bounds'], p['note'])
    for a in p['assumes']: o += '* assumes: %s\n' % a
    o += '* why tests cannot settle it: %s\n\n' % p['why']
o += rd('tail.md')
d = json.load(open(os.path.join(V, 'design', 'seeds.json')))
o += '\n## Planted changes and what catches them\nEach lies in `seeded/<id>` and was applied to `/repo` with the quick check of its property run against it. The last column names what was added to the checks because the change was first missed (or took too long).\n\n| change | property | what it breaks | caught by | strengthened first |\n|---|---|---|---|---|\n'
for k in sorted(d):
    f = os.path.join(V, 'seeded', k, 'meta.json')
    if not os.path.exists(f): continue
    m = json.load(open(f))
    o += '| %s | %s | %s | %s | %s |\n' % (k, d[k]['property'], m['what_it_breaks'].replace('|', '/'), ('`%s`' % d[k]['by']) if d[k]['by'] else '**missed**', d[k]['strengthened'])
open(os.path.join(V, 'DESIGN.md'), 'w').write(o)
