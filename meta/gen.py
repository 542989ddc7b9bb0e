#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from meta/ (one place for every property's text)."""
import glob
import json
import os
import sys
import textwrap
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA, NOTES
from design import D

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': [], 'not_applicable': [], 'notes': NOTES}
for p in PROPS:
    m['checks'].append({
        'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'], 'level': p.get('level', 'other'), 'level_note': p['note']})
for p in NA:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)

fill = lambda t: textwrap.fill(t, 118) + '\n'
out = open(os.path.join(here, 'design_head.md')).read()
for p in sorted(PROPS, key=lambda p: p['id']):
    what, oracle = D[p['id']]
    out += '### %s %s\n\n' % (p['id'], p['title'])
    out += fill('*Method*: %s (rules/%s.py).' % (p['technique'], p['id'].lower()))
    out += fill('*Analysed*: ' + what)
    out += fill('*Decided by*: ' + oracle)
    out += fill('*Beyond tests*: ' + p['why']) + '\n'
out += '## Not applicable\n\n'
for p in NA:
    out += fill('* **%s %s** — %s' % (p['id'], p['title'], p['reason']))
out += '\n## Findings in libMVRgdtf\n\n'
known = [l.strip() for l in open(os.path.join(root, 'KNOWN_FINDINGS.txt')) if l.strip() and l[0] != '#']
out += fill('The known-findings file is KNOWN_FINDINGS.txt. Repaired in /repo (fix: commits), each shown against the real code first:')
for l in known:
    if l.startswith('fixed:'):
        out += '* ' + l[len('fixed: property='):] + '\n'
out += '\n' + fill('Recorded, not repaired (the repair would change what files are accepted or what callers see):')
for l in known:
    if l.startswith('known:'):
        out += '* ' + l[len('known: property='):] + '\n'
out += '\n## Planted bugs and the checks that catch them\n\n'
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d))
    out += '* %s — caught by %s: %s\n' % (os.path.basename(os.path.dirname(d)), j.get('caught_by', j['property']), j['what_it_breaks'])
out += open(os.path.join(here, 'design_tail.md')).read()
open(os.path.join(root, 'DESIGN.md'), 'w').write(out)
