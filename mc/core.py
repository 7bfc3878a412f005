"""
Shared engine of the checks.

A check is a module mc/checks/<id>.py with

    LEVEL        evidence level
    TECHNIQUE    a few words
    BOUND        text, or dict tier -> text: the bound that the case list realises
    cases(tier)  -> iterable of JSON-able case descriptors, smallest first
    run_case(ck, case)  explores one case on the real code; reports through ck

The case list is a fixed, finite enumeration (no sampling).  Every case is executed on the
real code imported from /repo's working tree, in worker processes; a case is also the unit
of replay: the replay file holds the descriptor and `./run.sh ID --replay FILE` reruns it.

In run_case:
    ck.state(obj)    an observable state of the system under test that was reached (deduplicated)
    ck.step(n)       n operations of the real code were executed and compared with the model
    ck.trace()       one complete behaviour (operation sequence / schedule / crash history) was
                     executed on the implementation and agreed with the reference model
    ck.fail(msg, sig)  the property is broken (raises)
An exception escaping run_case is a violation too: every case is a legal use of the API.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORT = 3


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig


class Hang(BaseException):
    pass


def _hash(obj):
    import numpy as np
    h = hashlib.blake2b(digest_size=8)

    def upd(o):
        if isinstance(o, np.ndarray):
            h.update(b'A' + str(o.dtype).encode() + str(o.shape).encode())
            if o.dtype.kind in 'OUS':
                h.update(repr(o.tolist()).encode())
            else:
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b'(')
            for x in o:
                upd(x)
                h.update(b',')
            h.update(b')')
        elif isinstance(o, dict):
            upd(sorted((str(k), v) for k, v in o.items()))
        else:
            h.update(repr(o).encode())
    upd(obj)
    return int.from_bytes(h.digest(), 'big')


class Ck(object):
    """Per-worker recorder handed to run_case."""

    def __init__(self, tier, seed, scratch):
        self.tier = tier
        self.seed = seed
        self.scratch_root = scratch
        self._n = 0
        self.reset()

    def reset(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.evals = 0
        self.outcomes = set()
        self.samples = []
        self.known = []
        self.extra = {}

    def state(self, obj):
        self.states.add(_hash(obj))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def check(self, cond, msg, sig=None):
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation(msg, sig)

    def dir(self):
        self._n += 1
        d = os.path.join(self.scratch_root, '%06d' % self._n)
        os.makedirs(d)
        return d

    def eq(self, got, want, what, sig=None):
        """Structural comparison; arrays compared exactly (NaN equal to NaN)."""
        if not same(got, want):
            raise Violation('%s: got %s, want %s' % (what, short(got), short(want)), sig)

    def close(self, got, want, what, rtol=1e-6, atol=1e-8, sig=None):
        import numpy as np
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape or not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation('%s: got %s, want %s' % (what, short(got), short(want)), sig)

    def raises(self, fn, what, sig=None, exc=Exception):
        try:
            r = fn()
        except Hang:
            raise
        except exc:
            return
        raise Violation('%s: no error was raised, got %s' % (what, short(r)), sig)


def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a = np.asarray(a)
            b = np.asarray(b)
        except Exception:
            return False
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' and b.dtype.kind in 'fciu' or b.dtype.kind in 'fc' and a.dtype.kind in 'iu':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.all(a == b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    try:
        if a != a and b != b:
            return True
        return bool(a == b)
    except Exception:
        return False


def kept(keep):
    """Arguments of a filter: keeping is the default."""
    return {} if keep else dict(keep=False)


def short(o, n=300):
    s = repr(o).replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


# --------------------------------------------------------------------------- worker
_W = {}


def _alarm(signum, frame):
    raise Hang()


def _winit(modname, tier, seed, scratch, case_timeout):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 2)
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    _quiet()
    _W['mod'] = importlib.import_module(modname)
    _W['ck'] = Ck(tier, seed, d)
    _W['dir'] = d
    _W['timeout'] = case_timeout
    signal.signal(signal.SIGALRM, _alarm)


def _quiet():
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)


def run_one(mod, ck, case, timeout):
    """Returns None or (sig, msg)."""
    import numpy as np
    try:
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            with np.errstate(all='ignore'):
                mod.run_case(ck, case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        return (e.sig, e.msg)
    except Hang:
        return ('hang', 'the case did not finish within %d s' % timeout)
    except MemoryError:
        return ('memory', 'out of memory')
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return ('exception:' + type(e).__name__,
                'unexpected %s: %s\n%s' % (type(e).__name__, e, tb))
    return None


def _wrun(chunk):
    mod, ck = _W['mod'], _W['ck']
    ck.reset()
    bad = []
    n = 0
    for idx, case in chunk:
        n += 1
        r = run_one(mod, ck, case, _W['timeout'])
        for f in os.listdir(ck.scratch_root):
            p = os.path.join(ck.scratch_root, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass
        if r is not None:
            bad.append((idx, case, r[0], r[1]))
            if len(bad) >= 3:
                break
    return dict(n=n, bad=bad, states=ck.states, steps=ck.steps, traces=ck.traces,
                samples=ck.samples, extra=ck.extra)


def _chunks(it, size):
    buf = []
    for i, c in enumerate(it):
        buf.append((i, c))
        if len(buf) >= size:
            yield buf
            buf = []
    if buf:
        yield buf


# --------------------------------------------------------------------------- known findings
def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == pid]


# --------------------------------------------------------------------------- main
def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == '--replay':
            replay = argv[i + 1]
            i += 2
        elif argv[i] in ('quick', 'thorough'):
            tier = argv[i]
            i += 1
        else:
            i += 1
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    modname = 'mc.checks.' + pid.lower()
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    mpl = os.path.join(scratch, 'mpl')
    os.makedirs(mpl)
    if os.path.exists('/opt/vp/mpl/fontlist-v330.json'):
        shutil.copy('/opt/vp/mpl/fontlist-v330.json', mpl)
    os.environ['MPLCONFIGDIR'] = mpl
    rc = 2
    try:
        if replay is not None:
            rc = _replay(pid, modname, tier, seed, scratch, replay)
        else:
            rc = _run(pid, modname, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


def _replay(pid, modname, tier, seed, scratch, path):
    with open(path) as f:
        d = json.load(f)
    _quiet()
    mod = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    ck = Ck(tier, seed, tempfile.mkdtemp(dir=scratch))
    r = run_one(mod, ck, d['case'], getattr(mod, 'CASE_TIMEOUT', 120))
    if r is None:
        print('replay of %s: the property holds on this case' % path)
        return 0
    print('case: %s\n%s' % (json.dumps(d['case'])[:2000], r[1]))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def _run(pid, modname, tier, seed, scratch):
    t0 = time.time()
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '_'):
            os.unlink(os.path.join(rdir, f))
    bad = []
    tot = dict(n=0, steps=0, traces=0)
    states = set()
    samples = []
    extra = {}
    complete = True
    mod = None
    try:
        mod = importlib.import_module(modname)
    except Exception:
        # the code under test cannot even be loaded: nothing a user relies on works
        bad.append((0, {'import': modname}, 'import', traceback.format_exc(limit=-6)))
    if mod is not None:
        budget = getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 3600 * 2)
        workers = getattr(mod, 'WORKERS', 8)
        timeout = getattr(mod, 'CASE_TIMEOUT', 120)
        from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
        from concurrent.futures.process import BrokenProcessPool
        ctx = mp.get_context('fork')
        gen = _chunks(mod.cases(tier), getattr(mod, 'CHUNK', 16))
        ex = ProcessPoolExecutor(workers, mp_context=ctx, initializer=_winit,
                                 initargs=(modname, tier, seed, scratch, timeout))
        pending = {}
        done_gen = False
        broken = None
        try:
            while True:
                while not done_gen and len(pending) < workers * 3:
                    try:
                        ch = next(gen)
                    except StopIteration:
                        done_gen = True
                        break
                    pending[ex.submit(_wrun, ch)] = ch
                if not pending:
                    break
                done, _ = wait(list(pending), timeout=5, return_when=FIRST_COMPLETED)
                for f in done:
                    ch = pending.pop(f)
                    r = f.result()
                    tot['n'] += r['n']
                    tot['steps'] += r['steps']
                    tot['traces'] += r['traces']
                    states |= r['states']
                    for k, v in r['extra'].items():
                        extra[k] = extra.get(k, 0) + v
                    if len(samples) < 6:
                        samples += r['samples']
                    bad += r['bad']
                if len(bad) >= MAX_REPORT + 20:
                    complete = False
                    break
                if [b for b in bad if not _is_known(pid, b)] and len(bad) >= MAX_REPORT:
                    complete = False
                    break
                if time.time() - t0 > budget:
                    complete = False
                    break
        except BrokenProcessPool:
            # the interpreter itself died (segfault, abort) while executing a case
            ch = list(pending.values())[0] if pending else [(0, {})]
            bad.append((ch[0][0], ch[0][1], 'crash',
                        'the process died while it executed one of the cases %d..%d'
                        % (ch[0][0], ch[-1][0])))
            complete = False
        finally:
            for p in list((getattr(ex, '_processes', None) or {}).values()):
                try:
                    p.kill()
                except Exception:
                    pass
            ex.shutdown(wait=False, cancel_futures=True)
    bad.sort(key=lambda b: b[0])
    known = load_known(pid)
    seen_known = set()
    nviol = 0
    out = []
    for idx, case, sig, msg in bad:
        k = _match_known(known, sig)
        if k is not None:
            seen_known.add(k['sig'])
            continue
        nviol += 1
        if nviol <= MAX_REPORT:
            path = os.path.join(rdir, '%s_%d.json' % (pid, idx))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, case=case, sig=sig, message=msg), f, indent=1)
            out.append((path, msg))
    for k in known:
        if k['sig'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    level = getattr(mod, 'LEVEL', 'model_checking')
    bound = getattr(mod, 'BOUND', '')
    if isinstance(bound, dict):
        bound = bound.get(tier, '')
    cov = dict(states=len(states), transitions=tot['steps'],
               traces_validated_against_impl=tot['traces'],
               evaluations=tot['n'],
               exhaustive=bool(complete and not nviol),
               bound=bound,
               samples=samples[:4] or ['(none)'])
    if level in ('exploration', 'fault_enumeration'):
        cov['distinct_nontrivial'] = len(states)
        cov['rule'] = getattr(mod, 'RULE', 'distinct by hash of the observed result')
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d cases, %d states, %d transitions, %d traces, %s, %.1f s' % (
        pid, tier, tot['n'], len(states), tot['steps'], tot['traces'],
        'complete' if cov['exhaustive'] else 'NOT complete', time.time() - t0))
    for path, msg in out:
        print(msg[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if nviol else 0


def _match_known(known, sig):
    for k in known:
        if sig is not None and k['sig'] == sig:
            return k
    return None


def _is_known(pid, b):
    return _match_known(load_known(pid), b[2]) is not None
