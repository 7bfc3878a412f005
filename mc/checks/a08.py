"""A08: audio sets."""
import itertools
import os
import numpy as np
from mc import feat

LEVEL = 'model_checking'
TECHNIQUE = 'bounded-exhaustive enumeration of recordings, segment lists and reader call sequences on the real audio readers and writers against a list model'
BOUND = {
    'quick': 'all lists of <=3 recordings over 4 lengths, 6 file formats x 16-bit/32-bit/float; all sequences of <=4 reader operations; all segment bounds on a 1/8 s grid and off-grid; all part counts; every ordered request of <=3 keys',
    'thorough': 'same with sequences of <=5 operations and 4 recordings'}
ASSUMPTIONS = ['lossless sample formats', 'a segment bound that falls between two samples may be rounded either way by one sample']
CHUNK = 4
FORMATS = [('wav', None), ('flac', None), ('au', None), ('caf', None), ('rf64', None), ('wav', 'PCM_32'), ('au', 'PCM_32'), ('wav', 'FLOAT'), ('caf', 'DOUBLE'), ('au', 'FLOAT')]
SCALE = {None: 2 ** 15, 'PCM_32': 2 ** 31, 'FLOAT': 1, 'DOUBLE': 1}
LEN = [16, 1, 50, 1000]
OPS = ['r0', 'r1', 'r2', 'r3', 'it', 'rs', 'eof']


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for ls in itertools.product(range(4), repeat=k):
            yield dict(kind='data', lens=ls, fmt=sum(ls) % 10)
    for f in range(10):
        for ls in itertools.product(range(4), repeat=2):
            yield dict(kind='data', lens=ls, fmt=f)
    depth = 4 if tier == 'quick' else 5
    for seg in (0, 1, 2):
        for n in (1, 2, 3):
            for pi, np_ in ((1, 1), (1, 2), (2, 2), (2, 3)):
                if n < np_ and not seg:
                    continue
                for head in itertools.product(range(len(OPS)), repeat=depth - 3):
                    yield dict(kind='ops', seg=seg, n=n, part=(pi, np_), head=head, depth=depth)
    for n in range(1, 7):
        for np_ in range(1, n + 1):
            yield dict(kind='parts', n=n, np=np_)
    for a in range(0, 9):
        yield dict(kind='seg', a=a)
    for i in range(12):
        yield dict(kind='offgrid', i=i)
    yield dict(kind='random')
    for seg in (0, 1):
        for a in range(2):
            yield dict(kind='owned', seg=seg, a=a)
    yield dict(kind='pipe')
    yield dict(kind='keys')
    yield dict(kind='errors')
    yield dict(kind='cli')


def signal(n, i, subtype):
    x = (np.arange(n) * 1237 + 77 * i) % 65536 - 32768
    if n > 2:
        x[:3] = [32767, -32768, 0] if i % 2 == 0 else [-32768, 1, 32767]
    if subtype in ('FLOAT', 'DOUBLE'):
        return (x / 65536.).astype('float32')
    if subtype == 'PCM_32':
        return x.astype('int64') * 65536
    return x.astype('float32')


def make(d, lens, fmt=0, fs=8, groups=None):
    from hyperion.io import AudioWriter as AW
    f, sub = FORMATS[fmt]
    keys = ['r%d' % i for i in range(len(lens))]
    data = [signal(n, i, sub) for i, n in enumerate(lens)]
    scp = os.path.join(d, 'wav.scp')
    with AW(os.path.join(d, 'audio'), scp, f, sub) as w:
        if groups is None:
            w.write(keys, data, fs)
        else:
            i = 0
            for g in groups:
                if g == 's':
                    w.write(keys[i], data[i], fs[i] if isinstance(fs, list) else fs)
                    i += 1
                else:
                    w.write(keys[i:i + g], data[i:i + g], fs[i:i + g] if isinstance(fs, list) else fs)
                    i += g
    return keys, data, scp


def run_case(ck, c):
    from hyperion.io import SequentialAudioReader as S, RandomAccessAudioReader as R
    d = ck.dir()
    kind = c['kind']
    if kind == 'data':
        lens = [LEN[i] for i in c['lens']]
        n = len(lens)
        fsl = [8000 + 100 * i for i in range(n)]
        gs = feat.compositions(n)
        keys, data, scp = make(d, lens, c['fmt'], fsl, gs[sum(c['lens']) % len(gs)])
        scale = SCALE[FORMATS[c['fmt']][1]]
        before = [x.copy() for x in data]
        with S(scp, wav_scale=scale) as r:
            k, x, fs = r.read()
            ck.step()
            ck.eq([str(q) for q in k], keys, 'keys')
            ck.eq([int(q) for q in fs], fsl, 'sampling frequencies')
            same(ck, x, data, 'samples')
            ck.check(r.eof(), 'end of file is not reported')
            r.reset()
            it = [(str(a), b, e) for a, b, e in r]
            ck.eq([a for a, _, _ in it], keys, 'iterated keys')
            same(ck, [b for _, b, _ in it], data, 'iterated samples')
            ck.eq([int(e) for _, _, e in it], fsl, 'iterated frequencies')
            ck.step()
        with R(scp, wav_scale=scale) as r:
            x, fs = r.read(keys[::-1])
            same(ck, x, data[::-1], 'random access samples')
            ck.eq([int(q) for q in fs], fsl[::-1], 'random access frequencies')
            ck.step()
        with S(scp, wav_scale=scale / 2.) as r:
            same(ck, r.read()[1], [b / 2. for b in data], 'samples at half the scale')
        ck.check(all(np.array_equal(a, b) for a, b in zip(before, data)), 'writing changed the data')
        ck.state((c['fmt'], lens, data))
        ck.trace()
        ck.sample(c)
    elif kind == 'ops':
        ops(ck, c, d)
    elif kind == 'parts':
        n = c['n']
        keys, data, scp = make(d, [70 + i for i in range(n)])
        segs = seglist(d, keys, [(i, 0, 2) for i in range(n)] if n < 3 else [(i % 2, 1 + i, 2 + i) for i in range(n)])
        for seg in (None, segs):
            got = []
            sizes = []
            for p in range(1, c['np'] + 1):
                r = S(scp, seg, part_idx=p, num_parts=c['np'])
                k, x, fs = r.read()
                ck.check(r.eof(), 'end of file is not reported')
                got += [(str(a), np.asarray(b).tolist()) for a, b in zip(k, x)]
                sizes.append(len(k))
                ck.step()
            r = S(scp, seg)
            k, x, fs = r.read()
            ck.eq(sorted(got), sorted((str(a), np.asarray(b).tolist()) for a, b in zip(k, x)), 'union of the parts')
            ck.check(len(k) == n, lambda: '%d items read, %d expected' % (len(k), n))
            ck.check(max(sizes) - min(sizes) <= 1, 'sizes of the parts: %s' % sizes)
            ck.trace()
            ck.state((sizes, got))
    elif kind == 'seg':
        # all segments between grid points of a recording of 8 samples per second
        keys, data, scp = make(d, [64, 16], fs=8)
        a = c['a']
        rows = [(0, a, b) for b in range(a, 9)] + [(1, min(a, 1), b) for b in range(min(a, 1), 4)] + [(0, a / 8., b / 8.) for b in range(a, 12)] + [(0, a / 4., -1)]
        rows = [q for q in rows if q[1] * 8 < len(data[q[0]])]
        rows2 = [q for q in rows if q[2] >= 0]
        segcheck(ck, d, keys, data, scp, rows2, 8, 0)
    elif kind == 'offgrid':
        keys, data, scp = make(d, [997, 1600], fs=100)
        i = c['i']
        rows = [(j % 2, 0.01 * (i * 29 + j * 7) % 9, 0.01 * (i * 29 + j * 7) % 9 + 0.01 * (1 + j * 13)) for j in range(12)]
        rows += [(1, 0.57, 0.58), (1, 0.29, 1.1), (0, 9.9, 20.), (1, 0.07 * i, 0.07 * i + 0.07), (1, 0.07 * i + 0.07, 0.07 * i + 0.14)]
        segcheck(ck, d, keys, data, scp, rows, 100, 1)
    elif kind == 'random':
        keys, data, scp = make(d, [5, 9, 3])
        segs = seglist(d, keys, [(0, 0, .5), (1, .25, 1), (1, 0.5, 0.75), (2, 0, 0.25)])
        want = [data[0][0:4], data[1][2:8], data[1][4:6], data[2][0:2]]
        r, rs = R(scp), R(scp, segs)
        for n in (1, 2, 3):
            for req in itertools.product(range(4), repeat=n):
                for reader, names, ref in ((r, keys + ['zz'], data), (rs, ['s%d' % i for i in range(4)], want)):
                    k = [names[i] for i in req]
                    ck.step()
                    if 'zz' in k:
                        ck.raises(lambda: reader.read(k), 'reading an absent key')
                        continue
                    x, fs = reader.read(k if n > 1 else k[0])
                    same(ck, x, [ref[i] for i in req], 'requested samples')
                    ck.eq([int(q) for q in fs], [8] * n, 'frequency')
                    ck.trace()
                    ck.state(k)
        ck.raises(lambda: rs.read(['r0']), 'a recording is not a segment')
    elif kind == 'owned':
        # what a reader returned belongs to its user: changing it leaves later reads as they are
        keys, data, scp = make(d, [8, 12])
        rows = [(0, 0, .5), (0, 0, .5), (0, .25, 1), (1, 0, 1.5), (1, .25, .75)]
        segs = seglist(d, keys, rows) if c['seg'] else None
        names = ['s%d' % i for i in range(len(rows))] if c['seg'] else keys
        want = [data[r][int(b * 8):int(e * 8)] for r, b, e in rows] if c['seg'] else data
        for req in itertools.product(range(len(names)), repeat=3):
            if c['a'] == 0:
                r = R(scp, segs)
                for i in req:
                    x, fs = r.read([names[i]])
                    same(ck, x, [want[i]], 'samples after the user changed an earlier waveform')
                    spoil(x)
                    ck.step()
            else:
                # sequential: read these counts, then from the start again
                r = S(scp, segs)
                got = []
                for i in req:
                    k, x, fs = r.read(i + 1)
                    same(ck, x, want[len(got):len(got) + i + 1], 'samples after the user changed an earlier waveform')
                    got += list(k)
                    spoil(x)
                    ck.step()
                r.reset()
                k, x, fs = r.read()
                same(ck, x, want, 'samples after the user changed an earlier waveform and started again')
            ck.trace()
            ck.state((c['seg'], c['a'], req))
    elif kind == 'pipe':
        keys, data, scp = make(d, [5, 9, 3])
        with open(scp) as f:
            lines = f.read().splitlines()
        for mask in itertools.product((0, 1), repeat=3):
            p = os.path.join(d, 'p.scp')
            with open(p, 'w') as f:
                for m, l in zip(mask, lines):
                    k, path = l.split(' ', 1)
                    f.write('%s %s\n' % (k, 'cat %s |' % path if m else path))
            for r in (S(p),):
                k, x, fs = r.read()
                ck.eq([str(q) for q in k], keys, 'keys')
                same(ck, x, data, 'samples through a pipe')
            x, fs = R(p).read(keys[::-1])
            same(ck, x, data[::-1], 'samples through a pipe')
            ck.step(2)
            ck.trace()
            ck.state(mask)
        with open(p, 'w') as f:
            f.write('a false |\n')
        ck.raises(lambda: S(p).read(), 'failing pipe')
    elif kind == 'keys':
        from hyperion.io import AudioWriter as AW
        for k in ('a/b', 'x-1_y.z', 'A' * 60, 'spk1/utt/2'):
            dd = ck.dir()
            scp = dd + '/w.scp'
            x = signal(9, 0, None)
            with AW(dd + '/o', scp) as w:
                w.write([k], [x], 16000)
            with S(scp) as r:
                kk, xx, _ = r.read()
            ck.eq([str(q) for q in kk], [k], 'key')
            same(ck, xx, [x], 'samples')
            ck.step()
            ck.state(k)
        for k in ('', 'a b', 'a\tb'):
            w = AW(d + '/o', d + '/w.scp')
            ck.raises(lambda: w.write([k], [x], 16000), 'invalid key')
            w.write(['ok'], [x], 16000)
            with open(d + '/w.scp') as f:
                ck.eq([l.split(' ')[0] for l in f], ['ok'], 'keys of the script')
            w.close()
        ck.trace()
    elif kind == 'errors':
        keys, data, scp = make(d, [16, 8])
        for rows, bad in (([(0, 2, 3)], True), ([(0, 1.875, 3)], False), ([(1, 1, 2)], True), ([(1, 5, 6)], True)):
            segs = seglist(d, keys, rows)
            for r in (S(scp, segs), R(scp, segs)):
                f = (lambda: r.read(1)) if isinstance(r, S) else (lambda: r.read('s0'))
                if bad:
                    ck.raises(f, 'segment behind the end of the recording')
                else:
                    x = f()
                    same(ck, x[1] if isinstance(r, S) else x[0], [data[0][15:16]], 'clipped segment')
                ck.step()
        with open(d + '/bad.scp', 'w') as f:
            f.write('a %s/audio/r0.xyz\n' % d)
        ck.raises(lambda: S(d + '/bad.scp').read(), 'unknown file type')
        with open(d + '/bad.scp', 'w') as f:
            f.write('a %s/audio/none.wav\n' % d)
        ck.raises(lambda: S(d + '/bad.scp').read(), 'missing file')
        ck.trace()
    elif kind == 'cli':
        import argparse
        keys, data, scp = make(d, [5, 9, 3, 7])
        for prefix in (None, 'xx'):
            pre = '--' + (prefix + '-' if prefix else '')
            ap = argparse.ArgumentParser()
            S.add_argparse_args(ap, prefix)
            a = vars(ap.parse_args([pre + 'wav-scale', '16384', pre + 'part-idx', '2', pre + 'num-parts', '2']))
            r = S(scp, **S.filter_args(prefix, **a))
            k, x, fs = r.read()
            ck.eq([str(q) for q in k], keys[2:], 'keys of part 2')
            same(ck, x, [q / 2. for q in data[2:]], 'scaled samples')
            ck.step()
        ck.trace()


def same(ck, got, want, what):
    ck.check(len(got) == len(want), lambda: '%s: %d items, %d expected' % (what, len(got), len(want)))
    for g, w in zip(got, want):
        g = np.asarray(g)
        w = np.asarray(w, dtype='float64')
        ck.check(g.shape == w.shape and np.array_equal(g.astype('float64'), w), lambda: '%s: %s, expected %s' % (what, g[:20], w[:20]))


def spoil(x):
    for v in x:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v *= 0
            v -= 7


def near(t):
    return [i for i in range(max(0, int(t) - 2), int(t) + 3) if abs(i - t) <= 1 + 1e-9]


def seglist(d, keys, rows, name='segments'):
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        for i, (r, a, b) in enumerate(rows):
            f.write('s%d %s %s %s\n' % (i, keys[r], repr(float(a)), repr(float(b))))
    return p


def segcheck(ck, d, keys, data, scp, rows, fs, slack):
    from hyperion.io import SequentialAudioReader as S, RandomAccessAudioReader as R
    from hyperion.utils import SegmentList
    segs = seglist(d, keys, rows)
    r = S(scp, segs)
    k, x, f = r.read()
    ck.eq([str(q) for q in k], ['s%d' % i for i in range(len(rows))], 'segment names')
    x2, f2 = R(scp, segs).read(['s%d' % i for i in range(len(rows))][::-1])
    r3 = S(scp, SegmentList.load(segs, index_by_file=False))
    k3, x3, f3 = r3.read(len(rows))
    ck.check([str(q) for q in k3] == [str(q) for q in k] and r3.eof(), 'reader on a loaded segment list differs')
    for (rec, a, b), g, g2, g3, fsi in zip(rows, x, x2[::-1], x3, f):
        ck.step()
        ck.check(int(fsi) == fs and np.array_equal(g, g2) and np.array_equal(g, g3), 'readers disagree')
        ok = False
        n = len(data[rec])
        for i in ([int(round(a * fs))] if not slack else near(a * fs)):
            for j in ([int(round(b * fs))] if not slack else near(b * fs)):
                j = min(j, n)
                if np.array_equal(np.asarray(g, dtype='float64'), data[rec][i:j].astype('float64')):
                    ok = True
        ck.check(ok, lambda: 'segment %s-%s of %d samples at %d Hz: %d samples %s' % (a, b, n, fs, len(g), g[:8]))
        ck.state((rec, a, b, g))
    ck.trace()


def ops(ck, c, d):
    from hyperion.io import SequentialAudioReader as S
    n = c['n']
    keys, data, scp = make(d, [5 + 3 * i for i in range(n)])
    seg = None
    if c['seg'] == 1:
        rows = [(0, 0, 0.25), (0, 0.25, 0.5), (n - 1, 0, 0.5), (0, 0.5, 0.625)]
        seg = seglist(d, keys, rows)
        ref = [('s%d' % i, data[q][int(a * 8):int(b * 8)]) for i, (q, a, b) in enumerate(rows)]
    elif c['seg'] == 2:
        rows = [(0, 0, 0.25)][:n]
        seg = seglist(d, keys, rows)
        ref = [('s%d' % i, data[q][int(a * 8):int(b * 8)]) for i, (q, a, b) in enumerate(rows)]
    else:
        ref = list(zip(keys, data))
    pi, np_ = c['part']
    m = len(ref)
    ref = ref[(pi - 1) * m // np_: pi * m // np_]
    for tail in itertools.product(range(len(OPS)), repeat=3):
        r = S(scp, seg, part_idx=pi, num_parts=np_)
        cur = 0
        for o in list(c['head']) + list(tail):
            op = OPS[o]
            ck.step()
            if op == 'rs':
                r.reset()
                cur = 0
            elif op == 'eof':
                pass
            elif op == 'it':
                try:
                    k, x, fs = next(r)
                    k, x = [k], [x]
                except StopIteration:
                    k, x = [], []
                want = ref[cur:cur + 1]
            else:
                q = int(op[1])
                k, x, fs = r.read(q)
                want = ref[cur:] if q == 0 else ref[cur:cur + q]
            if op not in ('rs', 'eof'):
                ck.check([str(q) for q in k] == [w[0] for w in want] and all(np.array_equal(a, b[1]) for a, b in zip(x, want)) and len(x) == len(want),
                         lambda: 'after %s: got %s, expected %s' % ([OPS[i] for i in list(c['head']) + list(tail)], list(k), [w[0] for w in want]))
                cur += len(want)
            ck.check(bool(r.eof()) == (cur == len(ref)), 'end of file is wrong')
            ck.state((c['seg'], n, c['part'], cur))
        ck.trace()
