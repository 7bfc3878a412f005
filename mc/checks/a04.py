"""A04: compressed features stay within the resolution of the method, whatever container holds them."""
import io
import itertools
import os
import numpy as np
from mc import feat

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small matrices through the real codec, container and slicing paths against an interval-resolution oracle'
BOUND = {
    'quick': 'every matrix over a 4-value grid with <=6 elements, every 3-value column of 5..8 rows, 9- and 13-row columns over 2..3 values; '
             '7 methods; 3 scales/offsets; ark, HDF5 and in-memory forms; every row slice',
    'thorough': 'grids one element larger'}
ASSUMPTIONS = ['resolution: range/65535 or range/255 of the matrix; in the quantile method 1/64, 1/128, 1/63 of the quartile intervals of the column']
CHUNK = 2

METHODS = ['auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1']
GRID = [-1.0, 0.0, 0.25, 3.0]
SCALES = [(1.0, 0.0), (1e-3, -5.0), (3e4, 1e3)]


def shapes(tier):
    s = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (4, 1), (1, 4), (5, 1), (2, 3), (3, 2), (6, 1)]
    if tier == 'thorough':
        s += [(7, 1), (1, 7), (1, 6)]
    return [q for q in s if q[0] * q[1] <= (6 if tier == 'quick' else 7)]


def cases(tier):
    for s in shapes(tier):
        n = s[0] * s[1]
        for m in METHODS:
            for sc in range(len(SCALES)):
                if n <= 4:
                    yield dict(kind='grid', shape=s, method=m, scale=sc, prefix=[], vals=4)
                else:
                    for pre in itertools.product(range(4), repeat=2):
                        if tier == 'quick' and n > 5 and sc:
                            continue
                        yield dict(kind='grid', shape=s, method=m, scale=sc, prefix=pre, vals=4)
    rows = [(5, 3), (6, 3), (7, 3), (8, 3), (9, 2), (13, 2)] if tier == 'quick' else [(5, 4), (6, 4), (7, 3), (8, 3), (9, 3), (10, 2), (13, 2)]
    for r, v in rows:
        for m in ('auto', 'speech-feat', '2byte-auto', '1byte-auto'):
            for pre in itertools.product(range(v), repeat=2 if v ** r < 20000 else 3):
                yield dict(kind='grid', shape=(r, 1), method=m, scale=0, prefix=pre, vals=v)
    for r in (1, 2, 3, 4, 5, 8, 9, 10, 16, 33):
        for cdim in (1, 2, 3):
            for m in METHODS:
                yield dict(kind='file', shape=(r, cdim), method=m)
    for m in METHODS:
        yield dict(kind='ints', method=m)
        yield dict(kind='scale', method=m)
        yield dict(kind='refuse', method=m)
        yield dict(kind='const', method=m)


def resolution(x, method, rows):
    """elementwise bound of the error"""
    x = np.asarray(x, dtype='float64')
    mn, mx = x.min(), x.max()
    if mn == mx:
        mx = mn + 1 + abs(mn)
    rng = mx - mn
    eps = 1e-6 * (abs(mn) + abs(mx) + rng)
    if method == 'auto':
        method = 'speech-feat' if rows > 8 else '2byte-auto'
    if method == '2byte-auto':
        return np.full(x.shape, 0.51 * rng / 65535 + eps)
    if method == '1byte-auto':
        return np.full(x.shape, 0.51 * rng / 255 + eps)
    if method == '2byte-signed-integer':
        return np.where((x >= -32768) & (x <= 32767), 0.51, np.maximum(-32768 - x, x - 32767)) + eps
    if method == '1byte-unsigned-integer':
        return np.where((x >= 0) & (x <= 255), 0.51, np.maximum(-x, x - 255)) + eps
    if method == '1byte-0-1':
        return np.where((x >= 0) & (x <= 1), 0.51 / 255, np.maximum(-x, x - 1)) + eps
    b = np.zeros(x.shape)
    u = rng / 65535
    for c in range(x.shape[1]):
        v = np.sort(x[:, c])
        n = len(v)
        if n >= 5:
            q = n // 4
            p = [v[0], v[q], v[3 * q], v[-1]]
        else:
            p = list(v) + [v[-1] + u * (k + 1) for k in range(4 - n)]
        # equal quartiles are pushed one unit apart by the format
        slack = 5 * u + eps
        for r in range(n):
            y = x[r, c]
            if y < p[1]:
                b[r, c] = (p[1] - p[0]) / 64 * 0.51
            elif y < p[2]:
                b[r, c] = (p[2] - p[1]) / 128 * 0.51
            else:
                b[r, c] = max((p[3] - p[2]) / 63 * 0.51, (p[2] - p[1]) / 128 * 0.51)
            b[r, c] += slack
    return b


def check_codec(ck, x, method):
    from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as C
    m = C.compress(x, method)
    y = m.to_ndarray()
    ck.step(2)
    ck.check(y.shape == x.shape, 'shape changed by compression')
    b = resolution(x, method, x.shape[0])
    err = np.abs(np.asarray(y, dtype='float64') - x)
    ck.check(bool(np.all(err <= b)), lambda: '%s: error %s exceeds %s for %s -> %s' % (method, err.tolist(), b.tolist(), x.tolist(), y.tolist()))
    # order is kept inside a column
    for c in range(x.shape[1]):
        o = np.argsort(x[:, c], kind='stable')
        d = np.diff(y[o, c])
        ck.check(bool(np.all(d >= -1e-9 * (1 + np.abs(y).max()))), lambda: '%s: order of a column changed: %s -> %s' % (method, x.tolist(), y.tolist()))
    return m, y


def run_case(ck, c):
    from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as C, KaldiMatrix
    kind, method = c['kind'], c['method']
    if kind == 'grid':
        shape = tuple(c['shape'])
        n = shape[0] * shape[1]
        s, off = SCALES[c['scale']]
        pre = [int(q) for q in c['prefix']]
        for tail in itertools.product(range(c['vals']), repeat=n - len(pre)):
            v = np.array([GRID[i] for i in list(pre) + list(tail)])
            x = (v * s + off).reshape(shape)
            m, y = check_codec(ck, x, method)
            ck.trace()
        # container forms, on the last one of the block
        forms(ck, m, y)
        ck.state((method, y))
    elif kind == 'file':
        files(ck, c)
    elif kind == 'ints':
        x = np.array([-40000., -32768, -32767, -256, -255, -1, 0, 1, 2, 127, 128, 254, 255, 256, 32766, 32767, 40000])[:, None]
        for r in (range(len(x)), range(0, len(x), 2)):
            xx = x[list(r)]
            m = C.compress(xx, method)
            y = m.to_ndarray()
            ck.step()
            if method == '2byte-signed-integer':
                ck.close(y, np.clip(xx, -32768, 32767), 'integers in the 2-byte integer method', atol=0.02)
            elif method == '1byte-unsigned-integer':
                ck.close(y, np.clip(xx, 0, 255), 'integers in the 1-byte integer method', atol=1e-4)
            elif method == '1byte-0-1':
                ck.close(y, np.clip(xx, 0, 1), '0/1 in the 1-byte unit method', atol=1e-6)
            else:
                check_codec(ck, xx, method)
            ck.trace()
            ck.state((method, y))
    elif kind == 'scale':
        for a in (1.0, 2.0, 0.5, 10.0, -1.0, -0.25):
            for r in (2, 5, 12):
                x = feat.mat((r, 2), r)
                if method == '1byte-0-1':
                    x = (x - x.min()) / (x.max() - x.min())
                m = C.compress(x, method)
                y = m.to_ndarray()
                m.scale(a)
                z = m.to_ndarray()
                ck.step(3)
                ck.close(z, a * y, 'scaled compressed matrix', rtol=1e-5, atol=1e-5 * np.abs(y).max())
                forms(ck, m, z)
                ck.trace()
                ck.state((method, z))
    elif kind == 'const':
        for v in (0.0, -0.0, 1.0, -1.0, 1e-6, -1e-6, 0.5, 100.0, -7e4, 3e8, -3e8, 1e12, -1e12, 1e30, -1e30):
            for sh in ((1, 1), (1, 3), (4, 2), (9, 1), (12, 2)):
                for dt in ('float32', 'float64'):
                    x = np.full(sh, v, dt)
                    if '-auto' in method or method in ('auto', 'speech-feat'):
                        m = C.compress(x, method)
                        y = m.to_ndarray()
                        ck.close(y, x, 'matrix of equal values %g' % v, rtol=3e-5, atol=1e-5)
                        forms(ck, m, y)
                        ck.state((method, sh, v))
                        ck.step()
        ck.trace()
    elif kind == 'refuse':
        for bad in (np.inf, -np.inf, np.nan):
            x = feat.mat((3, 2), 0)
            x[1, 1] = bad
            if method in ('auto', 'speech-feat', '2byte-auto', '1byte-auto'):
                ck.raises(lambda: C.compress(x, method), 'compressing a matrix with %s' % bad)
                ck.step()
        ck.raises(lambda: C.compress(feat.mat((3, 2), 0), 'no-such-method'), 'unknown method')


def forms(ck, m, y):
    """attributes form, stream form, and every row slice of both"""
    from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as C, KaldiMatrix
    from hyperion.utils.kaldi_io_funcs import init_kaldi_output_stream, init_kaldi_input_stream
    data, attrs = m.get_data_attrs()
    ck.check(data.shape == y.shape, 'shape of the coded data')
    buf = io.BytesIO()
    init_kaldi_output_stream(buf, True)
    m.write(buf, True)
    buf.write(b'tail')
    buf = io.BufferedReader(io.BytesIO(buf.getvalue()))
    R = y.shape[0]
    for o in range(R):
        for n in range(0, R - o + 1):
            w = y[o:] if n == 0 else y[o:o + n]
            part = data[o:] if n == 0 else data[o:o + n]
            z = C.build_from_data_attrs(part, attrs).to_ndarray()
            ck.step()
            ck.close(z, w, 'rows [%d,+%d) rebuilt from coded data' % (o, n), rtol=1e-6, atol=1e-6)
            buf.seek(0)
            b = init_kaldi_input_stream(buf)
            z = KaldiMatrix.read(buf, b, o, n, sequential_mode=True).to_ndarray()
            ck.step()
            ck.close(z, w, 'rows [%d,+%d) read from a stream' % (o, n), rtol=1e-6, atol=1e-6)
            ck.check(buf.read() == b'tail', 'the stream is not left at the end of the matrix')
    buf.seek(0)
    b = init_kaldi_input_stream(buf)
    sh = KaldiMatrix.read_shape(buf, b, sequential_mode=True)
    ck.eq(tuple(int(q) for q in sh), y.shape, 'shape read from a stream')
    ck.check(buf.read() == b'tail', 'the stream is not left at the end of the matrix after reading its shape')
    z = m.to_matrix()
    ck.close(z.data, y, 'uncompressed matrix object', rtol=1e-6, atol=1e-6)


def files(ck, c):
    from hyperion.utils.kaldi_matrix import KaldiCompressedMatrix as C
    d = ck.dir()
    method = c['method']
    shape = tuple(c['shape'])
    data = [feat.mat(shape, i) for i in range(3)]
    if method == '1byte-0-1':
        data = [(x - x.min()) / max(1e-9, x.max() - x.min()) for x in data]
    keys = ['p', 'q', 'r']
    ref = None
    for fmt in ('ark', 'h5'):
        spec, arch, scp = feat.wspec(d, fmt)
        feat.write(spec, keys, data, compress=True, compression_method=method)
        for s in (('h5:' if fmt == 'h5' else 'ark:') + arch, 'scp:' + scp):
            r = feat.seq(s)
            k, x = r.read()
            ck.step()
            ck.eq(feat.keys_of(k), keys, 'keys')
            for g, w in zip(x, data):
                b = resolution(w, method, w.shape[0]) + 1e-5 * np.abs(w).max()
                ck.check(g.shape == w.shape and bool(np.all(np.abs(g - w) <= b)), 'compressed record outside of the resolution')
            if ref is None:
                ref = x
            for g, w, q in zip(x, ref, data):
                b = resolution(q, method, q.shape[0]) + 1e-5 * np.abs(q).max()
                ck.check(bool(np.all(np.abs(g - w) <= 2 * b)), 'the same data compressed in two containers differ')
            r.reset()
            k, sh = r.read_shapes()
            ck.eq([tuple(int(q) for q in v) for v in sh], [shape] * 3, 'shapes of compressed records')
            r.close()
            ck.trace()
            ck.state((fmt, method, x))
    # an already compressed object is written as it is, or uncompressed when no compression is asked for
    for compress in (True, False):
        spec, arch, scp = feat.wspec(d, 'ark', 'o%d' % compress)
        objs = [C.compress(x, method) for x in data]
        feat.write(spec, keys, objs, compress=compress)
        r = feat.seq('scp:' + scp)
        k, x = r.read()
        ck.step()
        for g, w in zip(x, objs):
            ck.close(g, w.to_ndarray(), 'compressed object written to an archive', rtol=1e-5, atol=1e-5)
        r.close()
