"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, properties, check modules and the notes below."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from design_notes import NOTES

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
fixed = json.load(open(os.path.join(ROOT, 'known_findings.json')))
cost = {}
if os.path.exists(os.path.join(ROOT, 'tools/costs.json')):
    cost = json.load(open(os.path.join(ROOT, 'tools/costs.json')))
seeds = {}
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
catches = {}
fn = os.path.join(ROOT, 'tools/catches.json')
if os.path.exists(fn):
    catches = json.load(open(fn))

out = [open(os.path.join(ROOT, 'tools/design_head.md')).read().rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    out.append('### %s. %s' % (i, p['title']))
    out.append('')
    try:
        m = importlib.import_module('mc.checks.' + i.lower())
    except ImportError:
        out.append('No check yet.')
        out.append('')
        continue
    b = m.BOUND if isinstance(m.BOUND, dict) else dict(quick=m.BOUND)
    out.append('- Method: %s.' % m.TECHNIQUE)
    if i in NOTES:
        out.append('- Oracle: %s' % NOTES[i][0])
        out.append('- Why beyond tests: %s' % NOTES[i][1])
    out.append('- Bound (quick): %s.' % b['quick'])
    if b.get('thorough'):
        out.append('- Bound (thorough): %s.' % b['thorough'])
    if getattr(m, 'ASSUMPTIONS', []):
        out.append('- Assumed: %s.' % '; '.join(getattr(m, 'ASSUMPTIONS', [])))
    if i in cost:
        out.append('- Cost (quick): %s.' % cost[i])
    fx = [t.split(' ', 3) for t in fixed['fixed'] if 'property=%s ' % i in t]
    for t in fx:
        out.append('- Defect found and repaired (%s): %s.' % (t[2], t[3]))
    for t in fixed['findings']:
        if t.get('property') == i:
            out.append('- Known finding: %s.' % t.get('what', t))
    for n, d in seeds.get(i, []):
        out.append('- Planted bug `%s`: %s %s' % (n, d['what_it_breaks'].rstrip('.') + '.', 'Caught by %s.' % ', '.join(catches[n]) if catches.get(n) else '(not caught)' if n in catches else ''))
    out.append('')
out.append(open(os.path.join(ROOT, 'tools/design_tail.md')).read().rstrip())
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
