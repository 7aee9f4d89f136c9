#!/usr/bin/env python3
"""writes DESIGN.md: spec/design_head.md, then one section per property (run the checks first: rule texts come from evidence/)"""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from spec.claims import TECH, NA
from sa.rules import TABLE
out = [open(R + '/spec/design_head.md').read().rstrip(), '', '## Properties', '']
seeds = {}
for d in sorted(os.listdir(R + '/seeded')):
    j = json.load(open(R + '/seeded/%s/meta.json' % d))
    seeds.setdefault(j['property'], []).append((d, j))
fixed = {}
for l in open(R + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
try:
    missed = json.load(open(R + '/spec/missed.json'))
except OSError:
    missed = {}
nas = []
for l in open(R + '/properties.jsonl'):
    p = json.loads(l)
    k = p['id']
    out.append('### %s. %s' % (k, p['title']))
    if k in TABLE:
        e = R + '/evidence/%s.json' % k
        rule = ''
        if os.path.exists(e):
            x = json.load(open(e))['coverage']
            rule = x['explanation'].split('Rule:', 1)[-1].strip()
        out.append('*Method*: %s (`sa/rules/%s.py`).' % (TECH[k][0], TABLE[k][0]))
        if rule:
            out.append('*Rule*: ' + rule)
            out.append('*Covered on the current tree*: %d obligations in %d functions, %d undecided. %s' % (x['obligations'], x['functions_analysed'], x['undecided_count'], TECH[k][1].split(' Sound up to')[0]))
        out.append('*Why the tests cannot*: ' + p['why_tests_cant'])
        for h, t in fixed.get(k, ()):
            out.append('- repaired in /repo %s: %s' % (h, t))
        for d, j in seeds.get(k, ()):
            out.append('- planted `seeded/%s` (%s): %s' % (d, 'missed: ' + missed[d] if d in missed else 'caught', j['what_it_breaks']))
    else:
        why = NA.get(k, 'no rule built yet')
        out.append('*Not applicable*: ' + why)
        for h, t in fixed.get(k, ()):
            out.append('- repaired in /repo %s: %s' % (h, t))
    out.append('')
open(R + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
