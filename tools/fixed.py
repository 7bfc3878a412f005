"""python3 tools/fixed.py PID HASH text...: records a repaired defect."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
e = 'fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:]))
if e not in d['fixed']:
    d['fixed'].append(e)
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
