"""A02: reading part of a recording gives exactly those rows of the recording."""
import itertools
import os
import numpy as np
from mc import feat

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of row requests and script row ranges against slices of the whole matrix'
BOUND = {
    'quick': 'matrices of 1..6 and 9..11 rows; every (first row, number of rows) inside the matrix; every script row range x every request inside it; '
             '6 storages x sequential/random access x shared/per-record requests; every script of 3 entries over 3 records in 2 archives x 3 row ranges, in any order',
    'thorough': 'matrices up to 14 rows, 3 records per request vector, scripts of 4 entries'}
ASSUMPTIONS = ['requests lie inside the recording (or inside the row range its script line declares); requests that do not fit must fail']
CHUNK = 4

STORES = [('ark', None), ('ark', 'auto'), ('ark', '2byte-auto'), ('ark', '1byte-auto'), ('h5', None), ('h5', 'auto'),
          ('h5', '2byte-auto'), ('h5', '1byte-auto')]


def cases(tier):
    rows = [1, 2, 3, 4, 5, 6, 9, 10, 11] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14]
    for R in rows:
        for fmt, comp in STORES:
            yield dict(kind='req', fmt=fmt, comp=comp, R=R)
    rr = [1, 2, 3, 4, 5, 9] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 9, 10, 11]
    for R in rr:
        for fmt, comp in STORES:
            yield dict(kind='range', fmt=fmt, comp=comp, R=R)
    for fmt, comp in STORES:
        for combo in itertools.product((2, 4, 9), repeat=2 if tier == 'quick' else 3):
            yield dict(kind='vec', fmt=fmt, comp=comp, rows=combo)
    for fmt, comp in [('ark_t', None)] + STORES:
        for e0 in range(9 if fmt != 'ark_t' else 3):
            yield dict(kind='script', fmt=fmt, comp=comp, e0=e0, n=3 if tier == 'quick' else 4)
    yield dict(kind='text')


def whole(spec, key):
    r = feat.ran(spec)
    x = r.read([key])[0]
    r.close()
    return np.asarray(x)


def requests(R):
    out = []
    for o in range(R):
        for n in range(0, R - o + 1):
            out.append((o, n))
    return out


def want(x, o, n):
    return x[o:] if n == 0 else x[o:o + n]


def same(g, w):
    g = np.asarray(g)
    return g.shape == w.shape and np.array_equal(g, w)


def run_case(ck, c):
    d = ck.dir()
    if c['kind'] == 'text':
        text(ck, d)
        return
    fmt, comp = c['fmt'], c['comp']
    kw = dict(compress=comp is not None, compression_method=comp or 'auto')
    spec, arch, scp = feat.wspec(d, fmt)
    aspec = ('h5:' if feat.is_h5(fmt) else 'ark:') + arch
    if c['kind'] == 'script':
        return script(ck, d, c, kw)
    if c['kind'] == 'req':
        R = c['R']
        data = [feat.mat((R, 3), 0), feat.mat((R + 2, 3), 1)]
        feat.write(spec, ['x', 'y'], data, **kw)
        full = [whole('scp:' + scp, 'x'), whole('scp:' + scp, 'y')]
        if comp is None:
            ck.check(feat.same_data(full, data), 'the whole matrices differ from what was written')
        s1, s2, r1 = feat.seq(aspec), feat.seq('scp:' + scp), feat.ran('scp:' + scp)
        rs = [r1] + ([feat.ran(aspec)] if feat.is_h5(fmt) else [])
        for o, n in requests(R):
            for s in (s1, s2):
                s.reset()
                k, x = s.read(row_offset=o, num_rows=n)
                ck.step()
                ck.check(len(x) == 2 and same(x[0], want(full[0], o, n)) and same(x[1], want(full[1], o, n)),
                         lambda: 'sequential rows [%d, +%d) differ: %s vs %s' % (o, n, x, [want(f, o, n) for f in full]))
                # one record at a time
                s.reset()
                k, x = s.read(1, row_offset=o, num_rows=n)
                k2, x2 = s.read(1)
                ck.step(2)
                ck.check(same(x[0], want(full[0], o, n)), 'sequential rows of one record differ')
                ck.check(len(x2) == 1 and same(x2[0], full[1]), 'the record after a partly read one differs')
            for r in rs:
                x = r.read(['y', 'x', 'y'], row_offset=o, num_rows=n)
                ck.step()
                ck.check(same(x[1], want(full[0], o, n)) and same(x[0], want(full[1], o, n)) and same(x[2], x[0]),
                         lambda: 'random access rows [%d, +%d) differ: %s' % (o, n, x))
                if n > 0:
                    q = r.read(['x', 'y'], row_offset=o, num_rows=n, squeeze=True)
                    ck.step()
                    ck.check(same(q, np.stack([want(full[0], o, n), want(full[1], o, n)])), 'squeezed rows differ')
            ck.state((fmt, comp, x))
            ck.trace()
        # requests that do not fit must fail instead of giving something else
        for o, n in [(0, R + 3), (R, 3), (R + 1, 2), (1, R + 2)]:
            for s in (s1, s2):
                s.reset()
                must_fail(ck, lambda: s.read(1, row_offset=o, num_rows=n)[1], (o, n, R))
            for r in rs:
                must_fail(ck, lambda: r.read(['x'], row_offset=o, num_rows=n), (o, n, R))
        for r in [s1, s2] + rs:
            r.close()
    elif c['kind'] == 'range':
        R = c['R']
        data = [feat.mat((R, 3), 0), feat.mat((R + 1, 3), 1)]
        feat.write(spec, ['x', 'y'], data, **kw)
        full = [whole('scp:' + scp, 'x'), whole('scp:' + scp, 'y')]
        with open(scp) as f:
            l0, l1 = f.read().splitlines()
        for a in range(R):
            for b in list(range(a + 1, R + 1)) + [None]:
                rng = '[%d:%s]' % (a, '' if b is None else b)
                scp2 = os.path.join(d, 'r.scp')
                with open(scp2, 'w') as f:
                    f.write(l0 + rng + '\n' + l1 + '\n')
                sub = full[0][a:b]
                s = feat.seq('scp:' + scp2)
                r = feat.ran('scp:' + scp2)
                k, sh = s.read_shapes()
                ck.eq([tuple(int(q) for q in v) for v in sh], [sub.shape, full[1].shape], 'shapes with the row range %s' % rng)
                ck.eq([int(v) for v in r.read_num_rows(['y', 'x'])], [full[1].shape[0], sub.shape[0]], 'rows with the row range %s' % rng)
                ck.step(2)
                for o, n in requests(sub.shape[0]):
                    s.reset()
                    k, x = s.read(1, row_offset=o, num_rows=n)
                    k2, x2 = s.read(1)
                    ck.step(2)
                    ck.check(same(x[0], want(sub, o, n)),
                             lambda: 'row range %s of %d rows, request (%d,%d): got %s, want %s' % (rng, R, o, n, x[0], want(sub, o, n)))
                    ck.check(same(x2[0], full[1]), 'the record without a row range differs')
                    x = r.read(['x', 'y'], row_offset=[o, 0], num_rows=[n, 0])
                    ck.step()
                    ck.check(same(x[0], want(sub, o, n)) and same(x[1], full[1]),
                             lambda: 'row range %s of %d rows, random access request (%d,%d): got %s, want %s' % (rng, R, o, n, x[0], want(sub, o, n)))
                    ck.trace()
                    ck.state((fmt, comp, x))
                if b is not None:
                    L = b - a
                    for o, n in [(0, L + 1), (1, L), (L - 1, 2)]:
                        s.reset()
                        must_fail(ck, lambda: s.read(1, row_offset=o, num_rows=n)[1], (rng, o, n, R))
                        must_fail(ck, lambda: r.read(['x'], row_offset=o, num_rows=n), (rng, o, n, R))
                s.close()
                r.close()
    elif c['kind'] == 'vec':
        rows = c['rows']
        keys = ['k%d' % i for i in range(len(rows))]
        data = [feat.mat((q, 2), i) for i, q in enumerate(rows)]
        feat.write(spec, keys, data, **kw)
        full = [whole('scp:' + scp, k) for k in keys]
        readers = [feat.seq(aspec), feat.seq('scp:' + scp)]
        ra = [feat.ran('scp:' + scp)] + ([feat.ran(aspec)] if feat.is_h5(fmt) else [])
        per = [[q for q in requests(R) if q[0] in (0, 1, R - 1) and q[1] in (0, 1, R - q[0])] for R in rows]
        for reqs in itertools.product(*per):
            for as_array in (False, True):
                o = [q[0] for q in reqs]
                n = [q[1] for q in reqs]
                if as_array:
                    o, n = np.array(o), np.array(n)
                w = [want(full[i], q[0], q[1]) for i, q in enumerate(reqs)]
                for s in readers:
                    s.reset()
                    k, x = s.read(row_offset=o, num_rows=n)
                    ck.step()
                    ck.check(all(same(g, q) for g, q in zip(x, w)) and len(x) == len(w),
                             lambda: 'per-record rows %s differ' % (reqs,))
                for r in ra:
                    x = r.read(keys, row_offset=o, num_rows=n)
                    ck.step()
                    ck.check(all(same(g, q) for g, q in zip(x, w)) and len(x) == len(w),
                             lambda: 'per-record random access rows %s differ' % (reqs,))
            ck.state((fmt, comp, w))
            ck.trace()
        for r in readers + ra:
            r.close()


def script(ck, d, c, kw):
    """Scripts whose entries are in any order, repeat records and lie in two archives."""
    fmt = c['fmt']
    lines, full = [], []
    keys = ['x', 'y', 'z']
    data = [feat.mat((R, 2), i) for i, R in enumerate((3, 2, 4))]
    for name, sel in (('p', [0, 1]), ('q', [2])):
        spec, arch, scp = feat.wspec(d, fmt, name)
        feat.write(spec, [keys[i] for i in sel], [data[i] for i in sel], **kw)
        full += [whole('scp:' + scp, keys[i]) for i in sel]
        lines += [l.split(' ', 1)[1] for l in open(scp).read().splitlines()]
    nr = 1 if fmt == 'ark_t' else 3
    ranges = [('', 0, None), ('[0:1]', 0, 1), ('[1:]', 1, None)][:nr]
    entries = [(i, r) for r in ranges for i in range(3)]
    scp2 = os.path.join(d, 's.scp')
    for tail in itertools.product(range(len(entries)), repeat=c['n'] - 1):
        sel = (c['e0'],) + tail
        want, ks = [], []
        with open(scp2, 'w') as f:
            for j, e in enumerate(sel):
                i, (txt, a, b) = entries[e]
                k = keys[i] if feat.is_h5(fmt) else 'n%d' % ((j * 2) % len(sel))
                if feat.is_h5(fmt) and k in ks:
                    continue
                f.write('%s %s%s\n' % (k, lines[i], txt))
                ks.append(k)
                want.append(full[i][a:b])
        s = feat.seq('scp:' + scp2)
        for step in (0, 1):
            s.reset()
            k, x = [], []
            while not s.eof():
                a, b = s.read(step)
                k += feat.keys_of(a)
                x += b
                ck.step()
            ck.check(k == ks and len(x) == len(want) and all(same(g, w) for g, w in zip(x, want)),
                     lambda: 'script %s: got %s, want %s' % (open(scp2).read(), x, want))
        s.reset()
        k, sh = s.read_shapes()
        ck.eq([tuple(int(q) for q in v) for v in sh], [w.shape for w in want], 'shapes of the script entries')
        s.close()
        if len(set(ks)) == len(ks):
            r = feat.ran('scp:' + scp2)
            for order in (ks, ks[::-1]):
                x = r.read(order)
                ck.step()
                ck.check(all(same(g, want[ks.index(k)]) for g, k in zip(x, order)), 'random access through the script differs')
            r.close()
        ck.trace()
        ck.state((fmt, c['comp'], sel))


def must_fail(ck, fn, what):
    ck.step()
    try:
        r = fn()
    except Exception:
        return
    ck.fail('the request %s does not fit but gave data of shape %s' % (what, [np.shape(q) for q in r]))


def text(ck, d):
    """A row request on a text archive either gives the rows or is refused; it never gives others."""
    spec, arch, scp = feat.wspec(d, 'ark_t')
    data = [feat.mat((4, 2), 0), feat.mat((4, 2), 1)]
    feat.write(spec, ['x', 'y'], data)
    for s in ('ark:' + arch, 'scp:' + scp):
        for o, n in requests(4):
            r = feat.seq(s)
            ck.step()
            try:
                k, x = r.read(1, row_offset=o, num_rows=n)
            except Exception:
                ck.check((o, n) != (0, 0), 'a whole text matrix cannot be read')
                continue
            ck.check(np.array_equal(x[0], want(data[0], o, n)), 'text rows differ')
            ck.trace()
            ck.state((s[:3], o, n))
            r.close()
