"""python3 tools/mkseed.py SPEC.py [name...]: turns specs of planted bugs into seeded/<name>/.

SPEC.py defines SEEDS: list of dict(name, property, edits=[(file, old, new)], needs, breaks, demo).
Each one is confirmed in a scratch copy of /repo: patch applies, syntax, stable tests pass,
the demo passes without and fails with the change.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/mkseed_repo'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONPATH=SCR, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           MPLCONFIGDIR='/opt/vp/mpl', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
d=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    shutil.rmtree(SCR + '/tests/data_out', ignore_errors=True)
    os.makedirs(SCR + '/tests/data_out/ark'); os.makedirs(SCR + '/tests/data_out/h5')
    x = '/tmp/mkseed.xml'
    sh(['timeout', '840', PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
        '--continue-on-collection-errors', '-W', 'ignore', '--tb=short', '-o', 'junit_family=xunit2',
        '--junitxml=' + x, './tests'], cwd=SCR, env=ENV)
    sh(['/usr/bin/python3', '/opt/vp/results.py', '/tmp/mkseed.json', 'junit:' + x])
    return sh(['python3', V + '/tools/stable.py', '/tmp/mkseed.json']).stdout.strip().splitlines()[-1]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.copytree(os.environ.get('REPO', '/repo'), SCR, symlinks=True)
    for s in ns['SEEDS']:
        if only and s['name'] not in only:
            continue
        sh(['git', 'checkout', '--', '.'], cwd=SCR)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(SCR, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['name'], 'EDIT', f, t.count(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        diff = sh(['git', 'diff'], cwd=SCR).stdout
        # removed lines have to be original ones
        base = {f: sh(['git', 'show', 'b7be6b6:' + f], cwd=SCR).stdout.splitlines() for f, _, _ in s['edits']}
        rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        new = [l for l in rem if not any(l in b for b in base.values())]
        d = os.path.join(V, 'seeded', s['name'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'])
        for f, src in (s.get('files') or {}).items():      # files beside the demo: name -> copied from (or empty)
            os.makedirs(os.path.dirname(d + '/' + f), exist_ok=True)
            open(d + '/' + f, 'w').write(open(src).read() if src else '')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        bad = sh(['bash', d + '/demo.sh'], cwd=SCR, env=ENV)
        t = tests()
        sh(['git', 'checkout', '--', '.'], cwd=SCR)
        good = sh(['bash', d + '/demo.sh'], cwd=SCR, env=ENV)
        fine = bad.returncode != 0 and good.returncode == 0 and ' 0 not passing' in t and not (new and len(new) == len(rem))
        print(s['name'], 'OK' if fine else 'NOT OK', 'demo bad=%d good=%d' % (bad.returncode, good.returncode), t,
              'LINES NOT ORIGINAL: %s' % new if new else '')
        if not fine or '-v' in sys.argv:
            print(bad.stdout[-600:], good.stdout[-600:])
        else:
            print('   ', bad.stdout.strip().splitlines()[-1:] )
        if not fine:
            shutil.rmtree(d)
        sys.stdout.flush()
    shutil.rmtree(SCR, ignore_errors=True)


main()
