"""Rewrites MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
NA = {}
for l in open(os.path.join(here, 'properties.jsonl')):
    d = json.loads(l)
    pid = d['id']
    f = os.path.join(here, 'mc', 'checks', pid.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=pid, reason=NA.get(pid, 'the check is not built yet')))
        continue
    src = open(f).read()

    def const(name):
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) == name:
                return ast.literal_eval(n.value)
    level = const('LEVEL') or 'model_checking'
    tech = const('TECHNIQUE')
    note = ('Holds for every case of the enumerated bound (stated in evidence coverage.bound), executed on the real code and compared with an independent '
            'reference model; nothing is claimed beyond the bound. ')
    if level == 'exploration':
        note = 'Exhaustive over the enumerated inputs of the stated bound, judged by a reference definition; nothing is claimed beyond the bound. '
    checks.append(dict(property=pid, quick_cmd='./run.sh %s quick' % pid, thorough_cmd='./run.sh %s thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=tech, level=level,
                       level_note=note + (const('NOTE') or '')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Bounded-exhaustive exploration of the real code against reference models; see DESIGN.md.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
