"""A03: a sequential reader hands out every record exactly once, whatever the calls in between."""
import itertools
import os
import numpy as np
from mc import feat

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive operation sequences on the real readers against a cursor model'
BOUND = {
    'quick': 'all sequences of 4 operations out of 10 (read 1/2/rest/squeezed, next, shapes, rows, dims, reset, end-of-data) on 3 records, '
             '4 kinds of reader x plain/compressed; all divisions of <=7 records into <=8 parts, grouped by key or not',
    'thorough': 'all sequences of 5 operations; divisions of <=9 records'}
ASSUMPTIONS = ['record keys of HDF5 files come in alphabetical order']
CHUNK = 20

OPS = ['r1', 'r2', 'r0', 'nx', 's1', 's0', 'n2', 'd1', 'rst', 'eof']
N = 3


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for kind in ('ark', 'ark_t', 'arkscp', 'h5', 'h5scp', 'arkc', 'h5c', 'arkvec'):
        for pre in itertools.product(OPS, repeat=2):
            yield dict(kind=kind, pre=pre, depth=depth)
    nmax = 7 if tier == 'quick' else 9
    for n in range(1, nmax + 1):
        for kind in ('arkscp', 'h5', 'h5scp'):
            for grouped in (False, True):
                yield dict(kind='split', store=kind, n=n, grouped=grouped)


def open_reader(kind, d, **kw):
    fmt = {'ark': 'ark', 'ark_t': 'ark_t', 'arkscp': 'ark', 'h5': 'h5', 'h5scp': 'h5', 'arkc': 'ark', 'h5c': 'h5',
           'arkvec': 'ark'}[kind]
    spec, arch, scp = feat.wspec(d, fmt)
    if kind in ('arkscp', 'h5scp'):
        return feat.seq('scp:' + scp, **kw)
    return feat.seq(('h5:' if fmt == 'h5' else 'ark:') + arch, **kw)


def prepare(kind, d):
    fmt = {'ark_t': 'ark_t', 'h5': 'h5', 'h5scp': 'h5', 'h5c': 'h5'}.get(kind, 'ark')
    keys = ['b0', 'b1', 'b2'][:N]
    if kind == 'arkvec':
        data = [feat.mat((2,), i) for i in range(N)]
    else:
        data = [feat.mat((2 + (i == 1) + 9 * (i == 2), 2), i) for i in range(N)]
    spec, arch, scp = feat.wspec(d, fmt)
    feat.write(spec, keys, data, compress=kind in ('arkc', 'h5c'))
    if kind in ('arkc', 'h5c'):
        # storage is lossy: the reference is what a fresh reader gives for each record on its own
        r = feat.ran('scp:' + scp)
        data = [np.asarray(r.read([k])[0]) for k in keys]
        r.close()
    return keys, data


def apply(ck, r, op, cur, keys, data, vec):
    """One operation on the real reader; returns the new cursor of the model."""
    ck.step()
    left = len(keys) - cur
    if op in ('r1', 'r2', 'r0'):
        n = int(op[1])
        n = left if n == 0 else min(n, left)
        k, x = r.read(int(op[1]))
        ck.check(feat.keys_of(k) == keys[cur:cur + n], lambda: 'keys %s, expected %s' % (k, keys[cur:cur + n]))
        ck.check(feat.same_data(x, data[cur:cur + n]), 'data of the records read differ')
        return cur + n
    if op == 'nx':
        if left == 0:
            try:
                next(r)
            except StopIteration:
                return cur
            ck.fail('iteration goes on after the last record')
        k, x = next(r)
        ck.check(str(k) == keys[cur] and feat.same_data([x], [data[cur]]), 'next() gave another record')
        return cur + 1
    if op in ('s1', 's0'):
        n = int(op[1])
        n = left if n == 0 else min(n, left)
        if left == 0:
            n = 0
        k, s = r.read_shapes(int(op[1]), assert_same_dim=False) if op == 's1' else r.read_shapes()
        ck.check(feat.keys_of(k) == keys[cur:cur + n], lambda: 'keys of shapes %s, expected %s' % (k, keys[cur:cur + n]))
        ck.check([tuple(int(q) for q in v) for v in s] == [v.shape for v in data[cur:cur + n]], 'shapes differ')
        return cur + n
    if op == 'n2':
        n = min(2, left)
        k, s = r.read_num_rows(2)
        ck.check(feat.keys_of(k) == keys[cur:cur + n] and [int(q) for q in s] ==
                 [1 if vec else v.shape[0] for v in data[cur:cur + n]], 'numbers of rows differ')
        return cur + n
    if op == 'd1':
        n = min(1, left)
        k, s = r.read_dims(1)
        ck.check(feat.keys_of(k) == keys[cur:cur + n] and [int(q) for q in s] ==
                 [v.shape[-1] for v in data[cur:cur + n]], 'dimensions differ')
        return cur + n
    if op == 'rst':
        r.reset()
        return 0
    if op == 'eof':
        e = bool(r.eof())
        # a reader of a bare archive only knows that it is at the end after it has tried to read on
        if left > 0:
            ck.check(not e, 'end of data is reported with records left')
        return cur


def run_case(ck, c):
    d = ck.dir()
    if c['kind'] == 'split':
        return split(ck, d, c)
    kind = c['kind']
    keys, data = prepare(kind, d)
    vec = kind == 'arkvec'
    r = open_reader(kind, d)
    for tail in itertools.product(OPS, repeat=c['depth'] - 2):
        r.reset()
        cur = 0
        hist = list(c['pre']) + list(tail)
        for i, op in enumerate(hist):
            try:
                cur = apply(ck, r, op, cur, keys, data, vec)
            except StopIteration:
                ck.fail('stopped early')
            except AssertionError as e:
                ck.fail('%s after %s: assertion failed' % (op, hist[:i]))
            ck.state((kind, cur, op))
        # whatever happened, the rest of the records follows
        if cur < len(keys):
            ck.check(not r.eof(), lambda: 'end of data reported after %s' % hist)
        k, x = r.read()
        ck.step()
        ck.check(feat.keys_of(k) == keys[cur:] and feat.same_data(x, data[cur:]),
                 lambda: 'after %s the rest is %s instead of %s' % (hist, k, keys[cur:]))
        ck.check(r.eof(), lambda: 'no end of data after everything was read: %s' % hist)
        ck.trace()
    ck.sample(dict(kind=kind, history=hist))
    r.close()


def split(ck, d, c):
    """The parts of a data set are disjoint, consecutive, and together are the data set."""
    n, store = c['n'], c['store']
    fmt = 'h5' if store.startswith('h5') else 'ark'
    keys = ['k%d' % i for i in range(n)]
    data = [feat.mat((2, 2), i) for i in range(n)]
    spec, arch, scp = feat.wspec(d, fmt)
    feat.write(spec, keys, data)
    for parts in range(1, n + 1):
        got = []
        sizes = []
        for p in range(1, parts + 1):
            r = open_reader(store, d, part_idx=p, num_parts=parts, split_by_key=c['grouped'])
            for op in ('r0', 'r1'):
                r.reset()
                k, x = [], []
                while not r.eof():
                    a, b = r.read(int(op[1]))
                    ck.step()
                    if not len(a):
                        break
                    k += feat.keys_of(a)
                    x += b
            r.reset()
            ks, sh = r.read_shapes()
            ck.check(feat.keys_of(ks) == k, 'shapes of a part belong to other records')
            r.close()
            got += list(zip(k, x))
            sizes.append(len(k))
        ck.check([g[0] for g in got] == keys, lambda: '%d parts give %s' % (parts, [g[0] for g in got]))
        ck.check(feat.same_data([g[1] for g in got], data), 'data of the parts differ')
        ck.check(max(sizes) - min(sizes) <= 1, lambda: 'uneven parts %s' % sizes)
        ck.trace()
        ck.state((store, n, parts, tuple(sizes)))
