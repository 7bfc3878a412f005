"""A07: copying, converting, merging and splitting feature sets."""
import itertools
import os
import numpy as np
from mc import feat

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of copy jobs (inputs, chunk sizes, parts, formats, compression) on the real copier, outputs compared with a list model'
BOUND = {
    'quick': 'all pairs of input kinds {ark,h5,scp over either} x output formats x chunk sizes 1..4 and 0; all lists of 1..3 inputs of 0..3 records; all part counts up to n+1 for n<=5 with repeated keys; all compression methods; chains of two copies',
    'thorough': 'lists of up to 4 inputs, n<=7'}
ASSUMPTIONS = ['keys are unique over the merged inputs unless repeated keys are said to be split together']
CHUNK = 4
IN = ['ark', 'h5', 'ark_t', 'scp_ark', 'scp_h5', 'scp_ark_t']
OUT = ['ark,scp', 'ark,t,scp', 'h5,scp', 'ark', 'h5', 'ark,f,scp']
METH = ['auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1']


def cases(tier):
    big = tier != 'quick'
    for i, o in itertools.product(range(6), range(6)):
        for chunk in (0, 1, 2, 3, 4):
            yield dict(kind='one', i=i, o=o, chunk=chunk)
    for n in range(1, 4 if not big else 5):
        for sizes in itertools.product((1, 2, 3) if n < 3 else (1, 2), repeat=n):
            for i in range(6):
                yield dict(kind='merge', i=i, o=(i + sum(sizes)) % 3, sizes=sizes, chunk=1 + sum(sizes) % 3)
    for mix in itertools.product(range(6), repeat=2):
        yield dict(kind='mix', mix=mix, chunk=2)
    for n in range(1, 6 if not big else 8):
        for np_ in range(1, n + 1):
            for i in (1, 3, 4, 5):
                for chunk in (1, 2):
                    yield dict(kind='parts', n=n, np=np_, i=i, chunk=chunk)
    for pat in itertools.product(range(3), repeat=4):
        yield dict(kind='rep', pat=pat)
    for m in METH:
        for o in (0, 2, 3, 4):
            for rows in (1, 2, 8, 9, 12):
                yield dict(kind='comp', m=m, o=o, rows=rows)
    for chain in itertools.product(range(6), repeat=2):
        yield dict(kind='chain', chain=chain)
    for n in (1, 2, 3):
        for sizes in itertools.product((1, 2, 3), repeat=n):
            for chunk in (None, 1, 2, 3):
                yield dict(kind='h5merge', sizes=sizes, chunk=chunk)
    for i in range(6):
        yield dict(kind='transform', i=i)
        yield dict(kind='prefix', i=i)


def mk(d, i, name, keys, data, **kw):
    kind = IN[i]
    fmt = kind.replace('scp_', '')
    spec, arch, scp = feat.wspec(d, fmt, name)
    feat.write(spec, keys, data, **kw)
    if kind.startswith('scp'):
        return 'scp:' + scp
    return ('h5:' if feat.is_h5(fmt) else 'ark:') + arch


def order(spec, keys, data):
    if spec.startswith('h5:'):
        o = sorted(range(len(keys)), key=lambda j: keys[j])
        return [keys[j] for j in o], [data[j] for j in o]
    return list(keys), list(data)


def out(d, o, name='out'):
    opts = OUT[o]
    ext = '.h5' if opts.startswith('h5') else '.ark'
    f = [os.path.join(d, name + ext)]
    if 'scp' in opts:
        f.append(os.path.join(d, name + '.scp'))
    return opts + ':' + ','.join(f), ('h5:' if ext == '.h5' else 'ark:') + f[0], ('scp:' + f[1]) if len(f) > 1 else None


def verify(ck, arch, scp, keys, data, exact=True):
    for s in (scp, arch):
        if s is None:
            continue
        kk, dd = order(s, keys, data)
        r = feat.seq(s)
        k, x = r.read()
        r.close()
        ck.eq([str(q) for q in k], kk, 'keys of the copy (%s)' % s[:4])
        if exact:
            ck.check(feat.same_data(x, dd), 'data of the copy differ')
        else:
            ck.check(all(np.shape(a) == np.shape(b) and np.allclose(a, b, atol=exact_tol(b), rtol=0) for a, b in zip(x, dd)), 'compressed copy differs')
        ck.step()
        ck.state((s[:4], kk, [np.asarray(q) for q in x]))
    ck.trace()


def exact_tol(b):
    return 0.02 * (np.max(b) - np.min(b) + 1)


def run_case(ck, c):
    from hyperion.io.copy_feats import CopyFeats as CF
    d = ck.dir()
    kind = c['kind']
    K = ['m', 'b', 'z', 'a', 'q', 'f', 'r']
    if kind == 'one':
        keys = K[:4]
        data = [feat.mat(s, i) for i, s in enumerate([(2, 3), (1, 3), (9, 3), (3, 3)])]
        spec = mk(d, c['i'], 'in', keys, data)
        w, arch, scp = out(d, c['o'])
        CF(spec, w, chunk_size=c['chunk'])
        kk, dd = order(spec, keys, data)
        verify(ck, arch, scp, kk, dd)
    elif kind in ('merge', 'mix'):
        ins = [c['i']] * len(c['sizes']) if kind == 'merge' else c['mix']
        sizes = c['sizes'] if kind == 'merge' else (3, 2)
        specs, kk, dd = [], [], []
        for j, (i, n) in enumerate(zip(ins, sizes)):
            keys = ['%s%d' % (K[(q * 3 + j) % 7], j) for q in range(n)]
            data = [feat.mat((2 + q, 2), 5 * j + q) for q in range(n)]
            specs.append(mk(d, i, 'in%d' % j, keys, data))
            a, b = order(specs[-1], keys, data)
            kk += a
            dd += b
        w, arch, scp = out(d, c.get('o', 0))
        CF(specs, w, chunk_size=c['chunk'])
        verify(ck, arch, scp, kk, dd)
        ck.raises(lambda: CF(specs, w, part_idx=1, num_parts=2), 'merging and splitting at once') if len(specs) > 1 else None
    elif kind == 'parts':
        n = c['n']
        keys = K[:n]
        data = [feat.mat((1 + q, 2), q) for q in range(n)]
        spec = mk(d, c['i'], 'in', keys, data)
        allk, alld, sizes = [], [], []
        for p in range(1, c['np'] + 1):
            w, arch, scp = out(d, 0, 'o%d' % p)
            CF(spec, w, part_idx=p, num_parts=c['np'], chunk_size=c['chunk'])
            r = feat.seq(arch)
            k, x = r.read()
            r.close()
            allk += [str(q) for q in k]
            alld += x
            sizes.append(len(k))
            ck.step()
        kk, dd = order(spec, keys, data)
        srt = sorted(range(n), key=lambda j: kk[j])
        got = sorted(range(len(allk)), key=lambda j: allk[j])
        ck.eq([allk[j] for j in got], [kk[j] for j in srt], 'union of the parts')
        ck.check(feat.same_data([alld[j] for j in got], [dd[j] for j in srt]), 'data of the parts differ')
        ck.check(max(sizes) - min(sizes) <= 1, 'parts of sizes %s' % sizes)
        ck.state((allk, sizes, alld))
        # the parts merged again are the whole
        w, arch, scp = out(d, 0)
        CF(['scp:%s/o%d.scp' % (d, p) for p in range(1, c['np'] + 1)], w)
        verify(ck, arch, scp, allk, alld)
    elif kind == 'rep':
        # a script may list a key several times
        keys = ['k%d' % i for i in range(4)]
        data = [feat.mat((2, 2), q) for q in range(4)]
        spec, arch, scp = feat.wspec(d, 'ark')
        feat.write(spec, keys, data)
        with open(scp) as f:
            lines = f.read().splitlines()
        with open(scp, 'w') as f:
            for p, l in zip(c['pat'], lines):
                f.write('g%d %s\n' % (p, l.split(' ', 1)[1]))
        want = sorted(('g%d' % p, x.tolist()) for p, x in zip(c['pat'], data))
        for np_ in range(1, 5):
            got = []
            for p in range(1, np_ + 1):
                w, arch, _ = out(d, 3, 'o%d' % p)
                CF('scp:' + scp, w, part_idx=p, num_parts=np_)
                r = feat.seq(arch)
                k, x = r.read()
                r.close()
                got += [(str(q), np.asarray(z, dtype='float64').tolist()) for q, z in zip(k, x)]
                ck.step()
            ck.eq(sorted(got), want, 'union of the parts')
            ck.trace()
            ck.state((np_, got))
    elif kind == 'comp':
        keys = K[:3]
        lo, hi = {'1byte-0-1': (0., 1.), '1byte-unsigned-integer': (0., 255.), '2byte-signed-integer': (-300., 300.)}.get(c['m'], (-3., 5.))
        data = []
        for q in range(3):
            m = feat.mat((c['rows'], 2), q)
            m = (m - m.min()) / (m.max() - m.min() + 1e-9) * (hi - lo) + lo
            data.append(np.round(m) if hi > 10 else m)
        spec = mk(d, 0, 'in', keys, data)
        w, arch, scp = out(d, c['o'])
        CF(spec, w, compress=True, compression_method=c['m'], chunk_size=2)
        verify(ck, arch, scp, keys, data, exact=False)
        # it is as large as the same set written compressed
        w3, arch3, scp3 = out(d, c['o'], 'ref')
        feat.write(w3, keys, data, compress=True, compression_method=c['m'])
        if arch.startswith('ark:'):
            ck.eq(os.path.getsize(arch[4:]), os.path.getsize(arch3[4:]), 'size of the copy compressed by %s' % c['m'])
        else:
            import h5py
            with h5py.File(arch[3:], 'r') as f, h5py.File(arch3[3:], 'r') as g:
                for k in keys:
                    ck.check(f[k].dtype == g[k].dtype and f[k].shape == g[k].shape and sorted(f[k].attrs) == sorted(g[k].attrs), 'the copy is not stored as %s' % c['m'])
        # a copy of the compressed set without compression holds the decoded values
        r = feat.seq(arch)
        k, x = r.read()
        r.close()
        w2, arch2, scp2 = out(d, 0, 'plain')
        CF(arch, w2)
        kk, dd = [str(q) for q in k], x
        verify(ck, arch2, scp2, kk, [np.asarray(q, dtype='float32') for q in dd])
    elif kind == 'chain':
        keys = K[:3]
        data = [feat.mat((2 + q, 2), q) for q in range(3)]
        spec = mk(d, 3, 'in', keys, data)
        w, arch, scp = out(d, c['chain'][0], 'x')
        CF(spec, w)
        kk, dd = order(arch, keys, data)
        w, arch2, scp2 = out(d, c['chain'][1], 'y')
        CF(arch, w, chunk_size=2)
        verify(ck, arch2, scp2, kk, dd)
        if scp:
            w, arch3, scp3 = out(d, c['chain'][1], 'v')
            CF(scp, w, chunk_size=3)
            verify(ck, arch3, scp3, keys, data)
    elif kind == 'h5merge':
        from hyperion.io.h5_merger import H5Merger
        files, want = [], {}
        for j, n in enumerate(c['sizes']):
            keys = ['%s%d' % (K[(q * 3 + j) % 7], j) for q in range(n)]
            data = [feat.mat((2 + q, 2), 5 * j + q) for q in range(n)]
            files.append(mk(d, 1, 'in%d' % j, keys, data)[3:])
            want.update(zip(keys, data))
        o = os.path.join(d, 'all.h5')
        H5Merger(files, o, c['chunk']).merge()
        kk = sorted(want)
        verify(ck, 'h5:' + o, None, kk, [want[k] for k in kk])
    elif kind == 'transform':
        class T(object):
            def predict(self, x):
                return x * 2 - 1
        keys = K[:3]
        data = [feat.mat((2 + q, 2), q) for q in range(3)]
        spec = mk(d, c['i'], 'in', keys, data)
        kk, dd = order(spec, keys, data)
        r = feat.seq(spec, transform=T())
        k, x = r.read(2)
        k2, x2 = r.read(2)
        r.close()
        ck.eq([str(q) for q in list(k) + list(k2)], kk, 'keys')
        ck.check(feat.same_data(list(x) + list(x2), [2 * q - 1 for q in dd]), 'transformed data differ')
        ck.step(2)
        if spec.startswith(('scp', 'h5')):
            r = feat.ran(spec, transform=T())
            x = r.read([keys[2], keys[0], keys[0]])
            r.close()
            ck.check(feat.same_data(x, [2 * data[q] - 1 for q in (2, 0, 0)]), 'transformed data differ')
            ck.step()
        # a transform given by the name of its file
        from hyperion.transforms import TransformList, CentWhiten
        tf = os.path.join(d, 'tf.h5')
        TransformList([CentWhiten(mu=np.array([0.5, -2.0]), T=np.array([[2.0, 1.0], [0.0, -0.5]]), name='a'),
                       CentWhiten(mu=np.array([1.0, 0.0]), name='b')]).save(tf)
        f = lambda q: (q - [0.5, -2.0]).dot([[2.0, 1.0], [0.0, -0.5]]) - [1.0, 0.0]
        r = feat.seq(spec, transform=tf)
        k, x = r.read()
        r.close()
        ck.step()
        for a, b in zip(x, dd):
            ck.close(a, f(b), 'data after the transform of a file', rtol=1e-5, atol=1e-5)
        if spec.startswith(('scp', 'h5')):
            r = feat.ran(spec, transform=tf)
            for a, q in zip(r.read([keys[1], keys[0]]), (1, 0)):
                ck.close(a, f(data[q]), 'data after the transform of a file', rtol=1e-5, atol=1e-5)
            r.close()
            ck.step()
        ck.trace()
        ck.state((c['i'], x))
    elif kind == 'prefix':
        keys = K[:3]
        data = [feat.mat((2 + q, 2), q) for q in range(3)]
        spec = mk(d, c['i'], 'in', keys, data, scp_sep='=')
        w, arch, scp = out(d, 0)
        pre = None
        if spec.startswith('scp'):
            # scripts with relative paths
            p = spec[4:]
            with open(p) as f:
                t = f.read()
            with open(p, 'w') as f:
                f.write(t.replace(d + '/', '').replace('=', ' '))
            pre = d + '/'
        CF(spec, w, path_prefix=pre)
        kk, dd = order(spec, keys, data)
        verify(ck, arch, scp, kk, dd)
        # scripts with another separator on both sides
        for sep in '=@':
            spec = mk(d, c['i'], 'in' + str(ord(sep)), keys, data, scp_sep=sep)
            w, arch, scp = out(d, 0, 'out' + str(ord(sep)))
            CF(spec, w, scp_sep=sep)
            verify(ck, arch, None, kk, dd)
            with open(scp[4:]) as f:
                t = f.read()
            ck.check(all(l.startswith(k + sep) for k, l in zip(kk, t.split('\n')[:-1])), 'separator %r: script of the copy %r' % (sep, t))
            with open(scp[4:], 'w') as f:
                f.write(t.replace(sep, ' '))
            verify(ck, arch, scp, kk, dd)
