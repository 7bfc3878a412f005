"""A01: what is written to a feature archive is what is read from it."""
import itertools
import os
import numpy as np
from mc import feat

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive write/read histories on the real readers and writers against a list model'
BOUND = {
    'quick': 'every sequence of <=3 records over 5 shapes x {float32,float64} alternation, every division into write calls, 4 storage formats; '
             'every ordered random-access request of <=3 keys (repetitions and absent keys included); 2 archives behind one script in every order; '
             '6 script separators x 7 ways of naming the files',
    'thorough': 'same with <=4 records over 6 shapes'}
ASSUMPTIONS = ['local file system', 'keys are printable tokens', 'values are exact in float32 (and in six decimals for text archives)']
CHUNK = 8

KEYSETS = [['a', 'b', 'c', 'd'], ['zz', 'k-1_x.y', 'A', 'utt0000000000000000000000000000000000001' * 4],
           ['u10', 'u9', 'u1', 'u010']]
PATHS = ('abs', 'bare', 'rel', 'new', 'blank', 'dots', 'up')
SHAPES = [(1, 2), (3, 2), (2, 1), (12, 2), (3,), (5, 7)]


def cases(tier):
    nmax = 3 if tier == 'quick' else 4
    shapes = SHAPES[:5] if tier == 'quick' else SHAPES
    for n in range(1, nmax + 1):
        for fmt in ('ark', 'ark_t', 'h5', 'ark_f'):
            for ss in itertools.product(range(len(shapes)), repeat=n):
                if fmt == 'ark_f' and n > 2:
                    continue
                yield dict(kind='data', fmt=fmt, shapes=ss, ks=(sum(ss) + n) % 3)
    for n in range(1, nmax + 1):
        for fmt in ('ark', 'ark_t', 'h5', 'ark_f'):
            for g in feat.compositions(n):
                for script in (True, False):
                    yield dict(kind='calls', fmt=fmt, n=n, groups=g, script=script)
    for fmt in ('ark', 'ark_t', 'h5'):
        for ks in range(3):
            for sep in (' ', '\t', '=') if fmt != 'h5' else (' ', '='):
                for prefix in (False, True):
                    yield dict(kind='random', fmt=fmt, ks=ks, sep=sep, prefix=prefix)
        for perm in itertools.permutations(range(4)):
            yield dict(kind='multi', fmt=fmt, perm=perm)
        for dt in ('float32', 'float64', 'int32', 'fortran', 'strided', '3d', 'matrix_obj', 'matrix_mixed'):
            yield dict(kind='dtype', fmt=fmt, dt=dt)
        for ks in range(3):
            yield dict(kind='badkey', fmt=fmt, ks=ks)
    # boundaries of the value range and of the dimensions
    for fmt in ('ark', 'h5', 'ark_t'):
        for rows, cols in itertools.product((1, 2, 8, 9, 31, 127, 128, 255, 256, 257, 1000), (1, 2, 13, 256)):
            yield dict(kind='dim', fmt=fmt, rows=rows, cols=cols)
        for n in (1, 2, 127, 128, 129, 255, 256, 1000):
            yield dict(kind='vec', fmt=fmt, n=n)
        yield dict(kind='values', fmt=fmt)
    # every alignment of a record relative to the input buffer
    for fmt in ('ark', 'ark_t'):
        for base in (4096, 8192, 16384) if tier == 'quick' else (4096, 8192, 12288, 16384, 65536, 131072):
            for lo in range(-40, 16, 8):
                yield dict(kind='align', fmt=fmt, base=base, lo=lo)
    for fmt in ('ark', 'h5', 'ark_t'):
        for n in (10, 30, 101):
            yield dict(kind='many', fmt=fmt, n=n)
    # separators of the script x ways of naming the files
    for fmt in ('ark', 'h5', 'ark_t', 'ark_f'):
        for sep in (' ', '\t', '=', ';', '|', '  '):
            for style in PATHS:
                yield dict(kind='paths', fmt=fmt, sep=sep, style=style)


def specs(d, fmt, name='a'):
    _, arch, scp = feat.wspec(d, fmt, name)
    return ('h5:' if feat.is_h5(fmt) else 'ark:') + arch, 'scp:' + scp


def order(fmt, keys, data):
    """order in which an archive hands its records out when read sequentially"""
    if feat.is_h5(fmt):
        o = sorted(range(len(keys)), key=lambda i: keys[i])
        return [keys[i] for i in o], [data[i] for i in o]
    return list(keys), list(data)


def spoil(arrays):
    """What a reader returned belongs to the caller."""
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = -77


def verify_all(ck, d, fmt, keys, data, name='a', script=True, exact=True, sep=' '):
    arch, scp = specs(d, fmt, name)
    k0, d0 = order(fmt, keys, data)
    readers = [(arch, k0, d0)]
    if script:
        readers.append((scp, keys, data))
    for spec, kk, dd in readers:
        kw = dict(scp_sep=sep) if spec.startswith('scp') else {}
        r = feat.seq(spec, **kw)
        k, x = r.read()
        ck.step()
        ck.eq(feat.keys_of(k), list(kk), 'keys read from %s' % spec[:4])
        ck.check(feat.same_data(x, dd, exact), lambda: 'data read from %s differ: %s vs %s' % (spec[:4], x, dd))
        first = x
        k, x = r.read(1)
        ck.check(len(k) == 0 and len(x) == 0 and r.eof(), 'records are left after everything was read')
        spoil(first)
        r.reset()
        got = [(str(a), b) for a, b in r]
        ck.step(2)
        ck.eq([g[0] for g in got], list(kk), 'keys iterated from %s' % spec[:4])
        ck.check(feat.same_data([g[1] for g in got], dd, exact), 'data iterated from %s differ' % spec[:4])
        r.reset()
        k, s = r.read_shapes(assert_same_dim=False)
        ck.step()
        ck.eq(feat.keys_of(k), list(kk), 'keys of shapes')
        ck.eq([tuple(int(q) for q in v) for v in s], [tuple(v.shape) for v in dd], 'shapes from %s' % spec[:4])
        r.close()
        ck.state((fmt, spec[:3], kk, [np.asarray(v, dtype='float64') for v in dd]))
    rspecs = []
    if feat.is_h5(fmt):
        rspecs.append(arch)
    if script:
        rspecs.append(scp)
    for spec in rspecs:
        kw = dict(scp_sep=sep) if spec.startswith('scp') else {}
        r = feat.ran(spec, **kw)
        for o in (range(len(keys)), range(len(keys) - 1, -1, -1)):
            o = list(o)
            x = r.read([keys[i] for i in o])
            ck.step()
            ck.check(feat.same_data(x, [data[i] for i in o], exact), 'random access data differ')
            spoil(x)
            s = r.read_shapes([keys[i] for i in o], assert_same_dim=False)
            ck.step()
            ck.eq([tuple(int(q) for q in v) for v in s], [tuple(data[i].shape) for i in o], 'random access shapes')
        r.close()
    ck.trace()


def run_case(ck, c):
    d = ck.dir()
    kind, fmt = c['kind'], c['fmt']
    if kind == 'data':
        shapes = [SHAPES[i] for i in c['shapes']]
        n = len(shapes)
        keys = KEYSETS[c['ks']][:n]
        data = [feat.mat(s, i).astype('float32' if (i + n) % 2 else 'float64') for i, s in enumerate(shapes)]
        spec, _, _ = feat.wspec(d, fmt)
        feat.write(spec, keys, data)
        ck.step()
        verify_all(ck, d, fmt, keys, data)
        ck.sample(dict(c, keys=keys))
    elif kind == 'calls':
        n = c['n']
        keys = KEYSETS[0][:n]
        data = [feat.mat((2 + i % 2, 3), i) for i in range(n)]
        spec, _, _ = feat.wspec(d, fmt, script=c['script'])
        feat.write(spec, keys, data, c['groups'])
        ck.step(len(c['groups']))
        verify_all(ck, d, fmt, keys, data, script=c['script'])
    elif kind == 'paths':
        paths(ck, d, c)
    elif kind == 'random':
        random_access(ck, d, c)
    elif kind == 'multi':
        multi(ck, d, c)
    elif kind == 'dtype':
        dtype(ck, d, c)
    elif kind == 'badkey':
        bad_key(ck, d, c)
    elif kind == 'dim':
        data = [feat.mat((c['rows'], c['cols']), 0), feat.mat((2, c['cols']), 1)]
        feat.write(feat.wspec(d, fmt)[0], ['x', 'y'], data)
        ck.step()
        verify_all(ck, d, fmt, ['x', 'y'], data)
        for spec in specs(d, fmt):
            r = feat.seq(spec)
            k, nr = r.read_num_rows()
            ck.eq(list(nr), [c['rows'], 2], 'number of rows')
            r.reset()
            k, nd = r.read_dims()
            ck.eq(list(nd), [c['cols']] * 2, 'number of columns')
            ck.step(2)
            r.close()
        r = feat.ran(specs(d, fmt)[1])
        ck.eq(list(r.read_num_rows(['y', 'x'])), [2, c['rows']], 'number of rows')
        ck.eq(list(r.read_dims(['y', 'x'])), [c['cols']] * 2, 'number of columns')
        ck.step(2)
        r.close()
    elif kind == 'vec':
        data = [feat.mat((c['n'],), i) for i in range(3)]
        feat.write(feat.wspec(d, fmt)[0], ['x', 'w', 'y'], np.stack(data))
        ck.step()
        verify_all(ck, d, fmt, ['x', 'w', 'y'], data)
        for spec in specs(d, fmt):
            r = feat.seq(spec)
            k, x = r.read(squeeze=True)
            ck.step()
            o = order(fmt, ['x', 'w', 'y'], data)[1] if not spec.startswith('scp') else data
            ck.check(x.shape == (3, c['n']) and np.array_equal(x, np.stack(o)), 'squeezed vectors differ')
            r.close()
        r = feat.ran(specs(d, fmt)[1])
        x = r.read(['y', 'x'], squeeze=True)
        ck.step()
        ck.check(x.shape == (2, c['n']) and np.array_equal(x, np.stack([data[2], data[0]])), 'squeezed vectors differ')
        r.close()
    elif kind == 'values':
        v = [0.0, -0.0, 1.0, -1.0, 1e-6, -1e-6, 123456.0, -65504.0, 0.5, 3.0, 1 / 64.]
        if fmt != 'ark_t':
            v += [1e30, -1e30, 1e-30, np.finfo('float32').max, np.finfo('float32').min, np.finfo('float32').tiny, 1 / 3., np.pi]
        data = [np.array(v), np.array(v)[:, None], np.array(v)[None, :], np.array(v[::-1])[:, None] * np.ones((1, 2))]
        keys = KEYSETS[0]
        feat.write(feat.wspec(d, fmt)[0], keys, data)
        ck.step()
        verify_all(ck, d, fmt, keys, data, exact=(fmt != 'ark_t'))
    elif kind == 'align':
        align(ck, d, c)
    elif kind == 'many':
        n = c['n']
        keys = ['utt%d' % ((i * 7) % n) if n % 7 else 'utt%d' % i for i in range(n)]
        data = [feat.mat((1 + (i * 5) % 17, 3), i) for i in range(n)]
        feat.write(feat.wspec(d, fmt)[0], keys, data)
        ck.step()
        verify_all(ck, d, fmt, keys, data)


def paths(ck, d, c):
    """Absolute and relative names, names in the working directory, directories that do not exist yet,
    blanks and dots in the names; every script separator; the string specifiers of both factories."""
    fmt, sep, style = c['fmt'], c['sep'], c['style']
    opts, h5 = feat.FORMATS[fmt]
    ext = '.h5' if h5 else '.ark'
    w = os.path.join(d, 'w')
    os.makedirs(os.path.join(w, 'sub'))
    cwd = os.getcwd()
    os.chdir(w)
    try:
        a, s = {'abs': (w + '/x' + ext, w + '/x.scp'), 'bare': ('x' + ext, 'x.scp'), 'rel': ('sub/x' + ext, './sub/x.scp'),
                'new': ('n1/n2/x' + ext, 'n3/x.scp'), 'blank': ('sub/a b' + ext, 'a b.scp'),
                'dots': ('./x.1.2' + ext, 'x.v1.scp'), 'up': ('../y' + ext, 'sub/../y.scp')}[style]
        keys = KEYSETS[0][:3]
        data = [feat.mat((2 + i, 2), i) for i in range(3)]
        feat.write('%s:%s,%s' % (opts, a, s), keys, data, scp_sep=sep)
        ck.step()
        with open(s) as f:
            lines = f.read().split('\n')
        ck.eq(lines[-1], '', 'end of the script')
        for k, ln in zip(keys, lines):
            ck.check(ln.startswith(k + sep + a), 'line %r of the script does not name the archive %r' % (ln, a))
        for arch, kk, dd in [(('h5:' if h5 else 'ark:') + a,) + order(fmt, keys, data), ('scp:' + s, keys, data), ('scp,p:' + s, keys, data)]:
            if not arch.startswith('scp,p'):
                r = feat.seq(arch, scp_sep=sep)
                for n in (0, 1, 2):
                    r.reset()
                    k, x = [], []
                    while not r.eof():
                        b, y = r.read(n)
                        k += feat.keys_of(b)
                        x += y
                        ck.step()
                    ck.eq(k, kk, 'keys')
                    ck.check(feat.same_data(x, dd), 'data differ')
                r.close()
                ck.trace()
            if h5 or arch.startswith('scp'):
                r = feat.ran(arch, scp_sep=sep)
                for req in itertools.permutations(range(3)):
                    x = r.read([keys[i] for i in req])
                    ck.step()
                    ck.check(feat.same_data(x, [data[i] for i in req]), 'random access data differ')
                if arch.startswith('scp,p'):
                    x = r.read(['nokey', keys[1]])
                    ck.step()
                    ck.check(len(x[0]) == 0 and feat.same_data(x[1:], data[1:2]), 'permissive access differs')
                r.close()
                ck.trace()
        ck.state((fmt, sep, style))
    finally:
        os.chdir(cwd)


def random_access(ck, d, c):
    """Every request of <= 3 keys, in every order, with repetitions and with absent keys, on one open reader."""
    fmt = c['fmt']
    keys = KEYSETS[c['ks']][:3]
    data = [feat.mat((2 + i, 2), i) for i in range(3)]
    sep = c['sep']
    spec, arch, scp = feat.wspec(d, fmt)
    feat.write(spec, keys, data, scp_sep=sep)
    ck.step()
    pre = None
    if c['prefix']:
        with open(scp) as f:
            txt = f.read()
        pre = os.path.dirname(arch) + '/'
        with open(scp, 'w') as f:
            f.write(txt.replace(pre, ''))
    # the type of a script is told from its first line, split at blanks
    if sep == ' ':
        rs = [feat.ran('scp:' + scp, path_prefix=pre), feat.ran('scp,p:' + scp, path_prefix=pre)]
    else:
        from hyperion.io.ark_data_reader import RandomAccessArkDataReader as RA
        from hyperion.io.h5_data_reader import RandomAccessH5ScriptDataReader as RH
        R = RH if feat.is_h5(fmt) else RA
        rs = [R(scp, path_prefix=pre, scp_sep=sep), R(scp, path_prefix=pre, permissive=True, scp_sep=sep)]
    if feat.is_h5(fmt):
        rs += [feat.ran('h5:' + arch), feat.ran('h5,p:' + arch)]
    full = keys + ['absent']
    for n in (1, 2, 3):
        for req in itertools.product(range(4), repeat=n):
            rk = [full[i] for i in req]
            missing = 3 in req
            for j, r in enumerate(rs):
                perm = j % 2 == 1
                ck.step()
                if missing and not perm:
                    ck.raises(lambda: r.read(rk), 'reading an absent key')
                    ck.raises(lambda: r.read_shapes(rk, assert_same_dim=False), 'shape of an absent key')
                    continue
                x = r.read(rk[0] if n == 1 else rk)
                s = r.read_shapes(rk[0] if n == 1 else rk, assert_same_dim=False)
                ck.step()
                want = [data[i] if i < 3 else None for i in req]
                ck.check(len(x) == n, 'wrong number of records')
                for g, w, sh in zip(x, want, s):
                    if w is None:
                        ck.check(len(g) == 0, 'an absent key gave data')
                        ck.eq(tuple(sh), (0,), 'shape of an absent key')
                    else:
                        ck.check(feat.same_data([g], [w]), 'data of a requested key differ')
                        ck.eq(tuple(int(q) for q in sh), w.shape, 'shape')
                if not missing:
                    ck.eq([int(q) for q in r.read_num_rows(rk)], [w.shape[0] for w in want], 'rows')
                    ck.eq([int(q) for q in r.read_dims(rk)], [w.shape[1] for w in want], 'dims')
                ck.trace()
                ck.state((fmt, j, rk, sep))
    for r in rs:
        for f in (r.read, r.read_shapes, r.read_num_rows, r.read_dims):
            ck.eq(len(f([])), 0, 'number of records for no keys')
            ck.step()
        r.close()
    # squeezing in permissive mode fills an absent vector with zeros
    v = [feat.mat((4,), i) for i in range(3)]
    spec, arch, scp = feat.wspec(d, fmt, 'v')
    feat.write(spec, keys, v)
    rs = [feat.ran('scp,p:' + scp)]
    if feat.is_h5(fmt):
        rs.append(feat.ran('h5,p:' + arch))
    for n in (1, 2, 3):
        for req in itertools.product(range(4), repeat=n):
            if req[0] == 3:
                continue                     # the first record fixes the dimension
            for r in rs:
                x = r.read([full[i] for i in req], squeeze=True)
                ck.step()
                w = np.stack([v[i] if i < 3 else np.zeros(4) for i in req])
                ck.check(x.shape == w.shape and np.array_equal(x, w), 'squeezed permissive read differs')
    for r in rs:
        r.close()


def multi(ck, d, c):
    """One script over two archives, its lines in every order."""
    fmt = c['fmt']
    keys = ['a', 'b', 'c', 'd']
    data = [feat.mat((2 + i, 2), i) for i in range(4)]
    lines = []
    for j in range(2):
        spec, arch, scp = feat.wspec(d, fmt, 'p%d' % j)
        feat.write(spec, keys[2 * j:2 * j + 2], data[2 * j:2 * j + 2])
        with open(scp) as f:
            lines += f.read().splitlines()
    perm = c['perm']
    scp = os.path.join(d, 'all.scp')
    with open(scp, 'w') as f:
        f.write(''.join(lines[i] + '\n' for i in perm))
    kk = [keys[i] for i in perm]
    dd = [data[i] for i in perm]
    r = feat.seq('scp:' + scp)
    for n in (1, 2, 3, 4):
        r.reset()
        k, x = [], []
        while not r.eof():
            a, b = r.read(n)
            k += feat.keys_of(a)
            x += b
            ck.step()
        ck.eq(k, kk, 'keys from a script over two archives')
        ck.check(feat.same_data(x, dd), 'data from a script over two archives differ')
        ck.trace()
    r.reset()
    k, s = r.read_shapes()
    ck.eq([tuple(int(q) for q in v) for v in s], [v.shape for v in dd], 'shapes')
    r.close()
    r = feat.ran('scp:' + scp)
    for req in itertools.permutations(range(4), 3):
        x = r.read([keys[i] for i in req])
        ck.step()
        ck.check(feat.same_data(x, [data[i] for i in req]), 'random access over two archives differs')
        ck.trace()
    r.close()
    ck.state((fmt, perm))


def dtype(ck, d, c):
    fmt, dt = c['fmt'], c['dt']
    base = [feat.mat((3, 4), i) for i in range(2)]
    keys = ['x', 'y']
    if dt == '3d':
        data = np.stack(base)
    elif dt == 'fortran':
        data = [np.asfortranarray(b) for b in base]
    elif dt == 'strided':
        data = []
        for b in base:
            big = np.zeros((6, 8), dtype='float32')
            big[::2, ::2] = b
            data.append(big[::2, ::2])
    elif dt == 'int32':
        base = [np.round(b) for b in base]
        data = [b.astype('int32') for b in base]
    elif dt == 'matrix_obj':
        if feat.is_h5(fmt):
            return
        from hyperion.utils.kaldi_matrix import KaldiMatrix
        data = [KaldiMatrix(b.astype('float32')) for b in base]
    elif dt == 'matrix_mixed':
        # single and double precision records, matrices and vectors, of different sizes
        if feat.is_h5(fmt):
            return
        from hyperion.utils.kaldi_matrix import KaldiMatrix
        for order_ in itertools.permutations(range(4)):
            base = [feat.mat([(3, 4), (5, 2), (3,), (1,)][i], i) for i in order_]
            for bits in range(16):
                data = [KaldiMatrix(b.astype('float32' if bits >> i & 1 else 'float64')) for i, b in enumerate(base)]
                name = 'm%s%d' % (''.join(map(str, order_)), bits)
                for m, b in zip(data, base):
                    ck.eq((m.num_rows, m.num_cols), b.shape if b.ndim == 2 else (1, len(b)), 'size of a matrix object')
                keys = list('wxyz')
                feat.write(feat.wspec(d, fmt, name)[0], keys, data)
                ck.step()
                verify_all(ck, d, fmt, keys, base, name=name)
                slices_of(ck, d, fmt, name, keys, base)
        return
    else:
        data = [b.astype(dt) for b in base]
    before = [np.array(b) if isinstance(b, np.ndarray) else None for b in data]
    feat.write(feat.wspec(d, fmt)[0], keys, data)
    ck.step()
    for b, q in zip(before, data):
        if b is not None:
            ck.check(np.array_equal(b, q), 'writing changed the data of the caller')
    verify_all(ck, d, fmt, keys, base)


def slices_of(ck, d, fmt, name, keys, base):
    if fmt == 'ark_t':
        return
    mats = [i for i, b in enumerate(base) if b.ndim == 2]
    arch, scp = specs(d, fmt, name)
    r = feat.ran(scp)
    for i in mats:
        n = len(base[i])
        for o in range(n):
            for m in range(0, n - o + 1):
                x = r.read([keys[i]], row_offset=o, num_rows=m)[0]
                ck.check(feat.same_data([x], [base[i][o:o + m] if m else base[i][o:]], True), lambda: 'rows %d+%d of %s' % (o, m, keys[i]))
                ck.step()
    r.close()


def bad_key(ck, d, c):
    """A key that is no token is refused, and the records around it stay readable."""
    from hyperion.io import DataWriterFactory as F
    fmt = c['fmt']
    bad = ['', 'a b', 'a\tb'][c['ks']]
    m = [feat.mat((2, 2), i) for i in range(3)]
    spec, arch, scp = feat.wspec(d, fmt)
    w = F.create(spec)
    w.write(['p'], [m[0]])
    ck.raises(lambda: w.write([bad], [m[1]]), 'writing the key %r' % bad)
    w.write(['q'], [m[2]])
    w.close()
    ck.step(3)
    verify_all(ck, d, fmt, ['p', 'q'], [m[0], m[2]])


def align(ck, d, c):
    """The second record starts at every byte position around a buffer boundary."""
    fmt = c['fmt']
    first = feat.mat((c['base'] // 64, 8), 0)
    data = [feat.mat((2, 2), 1), feat.mat((3, 2), 2), feat.mat((3,), 3), feat.mat((1, 2), 3)]
    spec, arch, scp = feat.wspec(d, fmt, 'probe')
    feat.write(spec, ['k'], [feat.mat((2, 2), 0)])
    for pos in range(c['base'] + c['lo'], c['base'] + c['lo'] + 8):
        # pad with a first record whose key length brings record two to the wanted position
        rows = 1
        over = {}
        for rows in range(c['base'] // 16 + 64, 0, -1):
            if fmt == 'ark':
                size = 1 + 2 + 3 + 5 + 5 + rows * 2 * 4
            else:
                size = None
            if size is None or size + 1 <= pos:
                break
        if fmt == 'ark':
            keylen = pos - size
        else:
            m0 = np.zeros((rows, 2))
            while True:
                import io as _io
                from hyperion.utils.kaldi_matrix import KaldiMatrix
                b = _io.StringIO()
                KaldiMatrix(m0).write(b, False)
                size = 1 + len(b.getvalue())
                if size + 1 <= pos:
                    break
                m0 = m0[:max(1, len(m0) - max(1, (size - pos) // 24))]
            rows = len(m0)
            keylen = pos - size
        keys = ['p' * keylen, 'a', 'bb', 'ccc']
        dd = [np.zeros((rows, 2)), data[0], data[1], data[3]]
        name = 'x%d' % pos
        feat.write(feat.wspec(d, fmt, name)[0], keys, dd)
        verify_all(ck, d, fmt, keys, dd, name=name)
        ck.step()
