"""python tools/onecase.py ID [kind=value ...]: run matching cases in-process, stop at the first failure."""
import sys, os, tempfile, time, importlib, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, '/repo')
from mc import core
core._quiet()
mod = importlib.import_module('mc.checks.' + sys.argv[1].lower())
flt = dict(a.split('=') for a in sys.argv[2:])
d = tempfile.mkdtemp()
import signal
signal.signal(signal.SIGALRM, core._alarm)
n = 0; nf = 0; tt = []
try:
    for i, c in enumerate(mod.cases(os.environ.get('VERIF_TIER', 'quick'))):
        if any(str(c.get(k)) != v for k, v in flt.items()):
            continue
        ck = core.Ck('quick', 1, tempfile.mkdtemp(dir=d))
        t = time.time()
        r = core.run_one(mod, ck, c, getattr(mod, 'CASE_TIMEOUT', 120))
        tt.append((time.time() - t, c, ck.steps, len(ck.states)))
        n += 1
        if r:
            print(c, r[1]); nf += 1
            if nf >= 3: break
finally:
    shutil.rmtree(d)
tt.sort(key=lambda x: -x[0])
print(n, 'cases', sum(x[0] for x in tt), 's; slowest', tt[:3])
