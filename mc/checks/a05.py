"""A05: a writer that dies leaves a script and an archive that agree.

Every operating-system level write that the writer performs is recorded (both files, in
order); every prefix of that log, and every torn last write to the archive, is a crash
state.  The real readers are then run on every crash state.
"""
import builtins
import io
import itertools
import os
import shutil
import numpy as np
from mc import feat

LEVEL = 'fault_enumeration'
TECHNIQUE = 'enumeration of every crash point (each raw write, each torn byte of the archive) and of persistent write errors, judged by the real readers'
BOUND = {
    'quick': 'all sequences of <=2 records over 5 shapes and selected ones of 3, all divisions into write calls; every raw write and every byte of it; flush on; binary, text, compressed, HDF5 (at call boundaries)',
    'thorough': 'all sequences of 3 records'}
RULE = 'a case is one write history; non-trivial crash states are those with distinct archive and script contents'
ASSUMPTIONS = ['process crash: everything handed to the operating system survives, everything in user space is lost',
               'a raw write to the archive may be torn at any byte; script lines are single short writes and are not torn',
               'HDF5 files are examined when a write call returns (the library issues its own writes)']
CHUNK = 2
SHAPES = [(2, 2), (3, 1), (3,), (1, 4), (10, 2)]


def cases(tier):
    for fmt, comp in (('ark', None), ('ark_t', None), ('ark', 'auto'), ('ark', '1byte-auto')):
        for n in (1, 2, 3):
            for ss in itertools.product(range(5), repeat=n):
                if n == 3 and tier == 'quick' and len(set(ss)) < 3:
                    continue
                if comp and any(len(SHAPES[i]) == 1 for i in ss):
                    continue
                for g in (feat.compositions(n) if n < 3 else [[1, 1, 1]]):
                    if n == 3 and tier == 'quick' and ss[0] > ss[1]:
                        continue
                    yield dict(kind='crash', fmt=fmt, comp=comp, shapes=ss, groups=g)
    for fmt in ('ark', 'ark_t'):
        for n in (1, 2, 3):
            for ss in itertools.product(range(4), repeat=n):
                yield dict(kind='fault', fmt=fmt, shapes=ss)
    for comp in (None, 'auto'):
        for n in (1, 2, 3):
            for g in feat.compositions(n):
                yield dict(kind='h5', comp=comp, groups=g, n=n)
    # records larger than the output buffers
    for fmt in ('ark', 'ark_t'):
        for big in (3, 5):
            yield dict(kind='big', fmt=fmt, big=big)


class Log(object):
    def __init__(self, root):
        self.root = root
        self.ops = []          # (path, bytes)
        self.fail_from = None

    def open(self, path, mode='r', *a, **k):
        if not isinstance(path, (str, bytes, os.PathLike)) or not str(path).startswith(self.root) or mode[0] not in 'wa':
            return self._real(path, mode, *a, **k)
        raw = _Raw(self, str(path), mode.replace('t', '').replace('b', ''))
        b = io.BufferedWriter(raw)
        if 'b' in mode:
            return b
        return io.TextIOWrapper(b, encoding='utf-8')

    def __enter__(self):
        self._real = builtins.open
        builtins.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = self._real


class _Raw(io.FileIO):
    def __init__(self, log, path, mode):
        super().__init__(path, mode)
        self.log = log
        self.path = path

    def write(self, b):
        data = bytes(b)
        if self.log.fail_from is not None and len(self.log.ops) >= self.log.fail_from:
            raise OSError(28, 'No space left on device')
        n = super().write(data)
        self.log.ops.append((self.path, data))
        return n


def records(shapes):
    keys = ['k%d' % i for i in range(len(shapes))]
    return keys, [feat.mat(SHAPES[s] if isinstance(s, int) else s, i) for i, s in enumerate(shapes)]


def produce(ck, d, fmt, keys, data, groups, comp, fail_from=None):
    """Runs the real writer; returns the log, the marks (log length when each write call returned, records done)."""
    from hyperion.io import DataWriterFactory as F
    opts = feat.FORMATS[fmt][0]
    opts = opts.replace('ark', 'ark,f', 1) if ',f' not in opts else opts
    spec = '%s:%s,%s' % (opts, os.path.join(d, 'a.ark'), os.path.join(d, 'a.scp'))
    log = Log(d)
    log.fail_from = fail_from
    marks = []
    failed = False
    with log:
        w = F.create(spec, compress=comp is not None, compression_method=comp or 'auto')
        i = 0
        for g in groups:
            try:
                if g == 's':
                    w.write(keys[i], data[i])
                    g = 1
                else:
                    w.write(keys[i:i + g], data[i:i + g])
            except OSError:
                failed = True
                break
            i += g
            marks.append((len(log.ops), i))
            ck.step()
        try:
            w.close()
        except OSError:
            failed = True
    # let the failed buffers go without a second attempt at interpreter exit
    return log, marks, failed


def judge(ck, d, fmt, keys, data, done, exact, what):
    """The crash state in d: complete script entries are right, done records are all there, nothing else is returned."""
    arch, scp = os.path.join(d, 'a.ark'), os.path.join(d, 'a.scp')
    ck.step()
    with open(scp, 'rb') as f:
        lines = f.read().decode().split('\n')
    listed = [l.split(' ')[0] for l in lines if l]
    ck.check(listed == keys[:len(listed)], lambda: '%s: script lists %s' % (what, listed))
    ck.check(len(listed) >= done, lambda: '%s: %d records were acknowledged but the script lists %d' % (what, done, len(listed)))
    if listed:
        for mode in ('ran', 'seq'):
            try:
                if mode == 'ran':
                    r = feat.ran('scp:' + scp)
                    x = r.read(listed)
                else:
                    r = feat.seq('scp:' + scp)
                    k, x = r.read()
                r.close()
            except Exception as e:
                ck.fail('%s: the script lists %s but they cannot be read: %s %s' % (what, listed, type(e).__name__, e))
            ck.check(ok(x, data[:len(listed)], exact), lambda: '%s: listed records read back wrong' % what)
    # the bare archive: complete records, then an error or the end, never anything else
    r = feat.seq('ark:' + arch)
    n = 0
    while True:
        try:
            k, x = r.read(1)
        except Exception:
            break
        if not len(k):
            break
        ck.check(n < len(keys) and str(k[0]) == keys[n] and ok(x, data[n:n + 1], exact),
                 lambda: '%s: record %d of the cut archive is returned as %s %s' % (what, n, k, x))
        n += 1
    r.close()
    ck.check(n >= done, lambda: '%s: %d records were acknowledged, the archive gives %d' % (what, done, n))
    return n, len(listed)


def ok(x, want, exact):
    if exact is None:
        return len(x) == len(want) and all(np.shape(a) == b.shape and np.array_equal(a, b) for a, b in zip(x, want))
    return feat.same_data(x, want, exact)


def replay_state(d, ops, upto, cut=None):
    """files as they are after ops[:upto], the last one cut to `cut` bytes"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    content = {'a.ark': b'', 'a.scp': b''}
    for j in range(upto):
        p, b = ops[j]
        if j == upto - 1 and cut is not None:
            b = b[:cut]
        content[os.path.basename(p)] += b
    for p, b in content.items():
        with open(os.path.join(d, p), 'wb') as f:
            f.write(b)
    return content


def run_case(ck, c):
    if c['kind'] == 'h5':
        return h5(ck, c)
    base = ck.dir()
    live = os.path.join(base, 'live')
    crash = os.path.join(base, 'live')
    os.makedirs(live)
    if c['kind'] == 'big':
        shapes = [(2, 2), (c['big'] * 1000, 3), (2, 2)]
    else:
        shapes = [int(s) for s in c['shapes']]
    keys, data = records(shapes)
    fmt = c['fmt']
    comp = c.get('comp')
    exact = True
    if c['kind'] == 'fault':
        log, marks, failed = produce(ck, live, fmt, keys, data, ['s'] * len(keys), comp)
        total = len(log.ops)
        for k in range(total):
            shutil.rmtree(live)
            os.makedirs(live)
            log, marks, failed = produce(ck, live, fmt, keys, data, ['s'] * len(keys), comp, fail_from=k)
            ck.check(failed, 'a failed write was not reported (raw write %d of %d)' % (k, total))
            done = marks[-1][1] if marks else 0
            r = judge(ck, live, fmt, keys, data, done, exact, 'raw write %d of %d fails' % (k, total))
            ck.state((fmt, shapes, k, r))
            ck.trace()
        return
    log, marks, failed = produce(ck, live, fmt, keys, data, c.get('groups') or [1] * len(keys), comp)
    ops = log.ops
    ck.check(not failed, 'writing failed')
    ref = data
    if comp:
        r = feat.ran('scp:' + os.path.join(live, 'a.scp'))
        ref = [np.asarray(q) for q in r.read(keys)]
        r.close()
        exact = None
    for upto in range(len(ops) + 1):
        done = max([m[1] for m in marks if m[0] <= upto] or [0])
        cuts = [None]
        if upto and ops[upto - 1][0].endswith('.ark'):
            n = len(ops[upto - 1][1])
            cuts += list(range(n)) if n <= 400 else sorted(set(list(range(40)) + list(range(n - 40, n)) + list(range(0, n, n // 50))))
        for cut in cuts:
            done_here = done if cut is None else max([m[1] for m in marks if m[0] <= upto - 1] or [0])
            content = replay_state(crash, ops, upto, cut)
            r = judge(ck, crash, fmt, keys, ref, done_here, exact,
                      'crash after raw write %d of %d%s' % (upto, len(ops), '' if cut is None else ' torn at byte %d' % cut))
            ck.state((content['a.ark'], content['a.scp'].replace(base.encode(), b'')))
            ck.count('crash_states')
        ck.trace()
    ck.sample(dict(c, raw_writes=[(os.path.basename(p), len(b)) for p, b in ops]))


def h5(ck, c):
    from hyperion.io import DataWriterFactory as F
    base = ck.dir()
    live = os.path.join(base, 'live')
    copy = os.path.join(base, 'live2')
    os.makedirs(live)
    keys, data = records([0, 1, 3][:c['n']])
    spec = 'h5,f,scp:%s/a.h5,%s/a.scp' % (live, live)
    w = F.create(spec, compress=c['comp'] is not None, compression_method=c['comp'] or 'auto')
    i = 0
    snaps = []
    for g in c['groups']:
        if g == 's':
            w.write(keys[i], data[i])
            g = 1
        else:
            w.write(keys[i:i + g], data[i:i + g])
        i += g
        ck.step()
        snap = os.path.join(base, 'snap%d' % i)
        shutil.copytree(live, snap)
        snaps.append((snap, i))
    w.close()
    r = feat.ran('h5:' + os.path.join(live, 'a.h5'))
    ref = [np.asarray(q) for q in r.read(keys)]
    r.close()
    if c['comp'] is None:
        ck.check(feat.same_data(ref, data), 'data differ')
    for snap, done in snaps + [(live, c['n'])]:
        with open(os.path.join(snap, 'a.scp')) as f:
            t = f.read()
        with open(os.path.join(snap, 'a.scp'), 'w') as f:
            f.write(t.replace(live, snap))
        listed = [l.split(' ')[0] for l in t.split('\n') if l]
        ck.check(listed == keys[:done], lambda: 'script lists %s, %d records were acknowledged' % (listed, done))
        for s in ('scp:%s/a.scp' % snap, 'h5:%s/a.h5' % snap):
            try:
                r = feat.ran(s)
                x = r.read(keys[:done])
                r.close()
            except Exception as e:
                ck.fail('%d records were acknowledged but cannot be read: %s' % (done, e))
            ck.step()
            ck.check(all(np.array_equal(a, b) for a, b in zip(x, ref)), 'acknowledged records read back wrong')
        ck.state((c['comp'], done, ref))
        ck.count('crash_states')
    ck.trace()
