"""tools/stable.py OUT.json: did every stable test pass?"""
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o = json.load(open(sys.argv[1]))
bad = sorted(b - set(o['passed']))
print('%d stable, %d not passing' % (len(b), len(bad)), bad[:10])
sys.exit(1 if bad else 0)
