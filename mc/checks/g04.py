"""G04: sequence readers, with classes and with posteriors."""
import argparse
import itertools
import os
import numpy as np
from mc import gens

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small lists of sequence lengths and settings, every batch of three epochs, judged by the definition'
BOUND = {
    'quick': 'all lists of 1-3 lengths out of {1,2,3,5,8} and 10 longer lists x 4 kinds of reader x full, sequential, random (4 modes) x 2 sub-sequence lengths x minimum 0-3 x overlap 0-1 x all batch sizes up to the number of sub-sequences, at most 6 x shuffling; three epochs of each; parts; archive reads of every slice',
    'thorough': 'all lists of 1-4 lengths, maximum 2-5, batch sizes up to 9'}
ASSUMPTIONS = ['a batch is not larger than the number of sub-sequences of the list', 'the overlap is smaller than the minimum and maximum sub-sequence length']
CHUNK = 3

LEN = (1, 2, 3, 5, 8)
LONG = [[8, 1, 1, 1, 1], [1, 1, 2, 9], [3, 3, 3, 3, 3, 3], [2, 7, 2, 7, 2], [10, 4, 6, 1, 2, 5], [12], [1, 1, 1, 1], [9, 9], [5, 4, 3, 2, 1], [1, 12, 1]]
MODES = ('full', 'sequential', 'random_slice', 'random_samples', 'random_slice_1seq', 'random_samples_1seq')
NC = 4


def cases(tier):
    m = 3 if tier == 'quick' else 4
    ls = [list(p) for n in range(1, m + 1) for p in itertools.product(LEN, repeat=n)] + LONG
    for k in range(0, len(ls), 3):
        for mode in MODES:
            yield dict(kind='run', lists=ls[k:k + 3], mode=mode)
    for k in range(len(LONG)):
        yield dict(kind='parts', k=k)
        yield dict(kind='slices', k=k)
    yield dict(kind='args')


CLASSES = ['k2', 'k10', 'k1']


def post(i, n):
    """sparse posteriors: two components per frame, which depend on the frame"""
    f = np.arange(n)
    idx = np.stack([(f + i) % NC, (f + i + 1 + (f + i) % 2) % NC], axis=1)
    r = np.stack([0.5 + 0.01 * i + 0.001 * f, 0.25 + 0.001 * f], axis=1)
    return r, idx


def dense(i, n):
    r, idx = post(i, n)
    out = np.zeros((n, NC))
    for k in range(n):
        for j in range(2):
            out[k, idx[k, j]] = r[k, j]
    return out


def files(d, lens):
    from hyperion.io import HypDataWriter
    n = len(lens)
    keys = ['f%d%s' % ((3 * i + 1) % 7, 'abcdef'[i]) for i in range(n)]
    h = os.path.join(d, 'x.h5')
    w = HypDataWriter(h)
    for i in range(n):
        w.write(keys[i], '', gens.utt(i, lens[i]))
    w.f.close()
    p = os.path.join(d, 'p.h5')
    w = HypDataWriter(p)
    for i in range(n):
        r, idx = post(i, lens[i])
        w.write(keys[i], '.r', r)
        w.write(keys[i], '.index', idx)
    w.f.close()
    kf = os.path.join(d, 'scp')
    order = list(range(n)) if n % 2 else list(range(n - 1, -1, -1))
    with open(kf, 'w') as f:
        for i in order:
            f.write('%s=%s\n' % (CLASSES[i % 3], keys[i]))
    cf = os.path.join(d, 'classes')
    with open(cf, 'w') as f:
        for c in CLASSES:
            f.write(c + ' more\n')
    return h, p, kf, cf, keys, order


def make(kind, h, p, kf, cf, **kw):
    from hyperion.helpers.sequence_reader import SequenceReader as S
    from hyperion.helpers.sequence_class_reader import SequenceClassReader as SC
    from hyperion.helpers.sequence_post_reader import SequencePostReader as SP
    from hyperion.helpers.sequence_post_class_reader import SequencePostClassReader as SPC
    if kind == 0:
        return S(h, kf, **kw)
    if kind == 1:
        return SC(h, kf, cf, **kw)
    if kind == 2:
        return SP(h, kf, p, num_comp=NC, **kw)
    return SPC(h, kf, p, cf, num_comp=NC, **kw)


def starts(n, mn, mx, ov, mode):
    """(first frame, length) of the sub-sequences of a sequence of n frames"""
    if mode == 'full' or mode.endswith('1seq'):
        return [(0, n if mode == 'full' else min(n, mx))] if n >= mn else []
    out = []
    f = 0
    while n - f >= mx:
        out.append((f, mx))
        f += mx - ov
    if n - f >= mn:
        out.append((f, n - f))
    return out


def run_case(ck, c):
    kind = c['kind']
    if kind == 'run':
        for lens in c['lists']:
            d = ck.dir()
            fs = files(d, lens)
            mode = c['mode']
            if mode == 'full':
                sets = [(mn, None, 0) for mn in (0, 1, 2, 3)]
            else:
                mxs = (2, 3) if ck.tier == 'quick' else (2, 3, 4, 5)
                sets = [(mn, mx, ov) for mx in mxs for mn in (1, 2, 3) for ov in (0, 1) if mn <= mx and ov < mn]
            for mn, mx, ov in sets:
                tot = sum(len(starts(n, mn, mx, ov, mode)) for n in lens)
                for b in range(1, min(tot, 6 if ck.tier == 'quick' else 9) + 1):
                    for shuffle in (False, True):
                        # the kinds of reader take turns where there is nothing to choose
                        k0 = (b + mn + ov) % 2
                        for rk in ((k0, 2 + k0) if 'samples' not in mode else (k0,)):
                            one(ck, fs, lens, mode, mn, mx, ov, b, shuffle, rk)
        ck.trace()
    elif kind == 'parts':
        parts(ck, LONG[c['k']])
        ck.trace()
    elif kind == 'slices':
        slices(ck, LONG[c['k']])
        ck.trace()
    elif kind == 'args':
        args(ck)
        ck.trace()


def one(ck, fs, lens, mode, mn, mx, ov, b, shuffle, rk):
    h, p, kf, cf, keys, order = fs
    kw = dict(min_seq_length=mn, batch_size=b, shuffle_seqs=shuffle)
    if mode != 'full':
        kw.update(max_seq_length=mx, seq_split_mode=mode, seq_split_overlap=ov)
    if shuffle and b % 2 == 0:
        kw['reset_rng'] = True
    what = 'lengths %s, %s, min %s, max %s, overlap %s, batch %d%s, reader %d' % ([lens[i] for i in order], mode, mn, mx, ov, b, ', shuffled' if shuffle else '', rk)
    st = {keys[i]: starts(lens[i], mn, mx, ov, mode) for i in order}
    tot = sum(len(q) for q in st.values())
    r = make(rk, h, p, kf, cf, **kw)
    ck.eq(r.num_seqs, len(lens), what + ': sequences')
    ck.eq([int(q) for q in r.seq_length], [lens[i] for i in order], what + ': lengths')
    ck.eq(int(r.total_length), sum(lens), what + ': total length')
    ck.eq([int(q) for q in r.num_subseqs], [len(st[keys[i]]) for i in order], what + ': sub-sequences')
    ck.eq(int(r.num_total_subseqs), tot, what + ': number of sub-sequences')
    ck.eq(int(r.max_batch_seq_length), mx or max(lens), what + ': longest sub-sequence')
    nb = tot // b
    ck.eq(r.num_batches, nb, what + ': batches')
    for ep in range(3):
        use = {k: [] for k in keys}
        seqn = []
        for s in range(nb):
            three = (s + ep) % 2 == 1
            out = list(r.read(return_3d=three, max_seq_length=0))
            ck.step()
            if rk % 2:
                y = out.pop()
            ks = [str(k) for k in out.pop()]
            ck.eq(len(ks), b, what + ': size of a batch')
            if three:
                w = out.pop()
                ck.eq(len(w), b, what + ': weights')
                xs, ps = [], [] if rk >= 2 else None
                for i in range(b):
                    m = int(w[i].sum())
                    ck.check(np.all(w[i, :m] == 1) and np.all(w[i, m:] == 0), what + ': weights of the frames')
                    ck.check(np.all(out[0][i, m:] == 0), what + ': padding')
                    xs.append(out[0][i, :m])
                    if rk >= 2:
                        ck.check(np.all(out[1][i, m:] == 0), what + ': padding')
                        ps.append(out[1][i, :m])
            else:
                xs = out[0]
                ps = out[1] if rk >= 2 else None
            ck.eq(len(xs), b, what + ': sequences of a batch')
            for i in range(b):
                x = np.asarray(xs[i])
                u = keys.index(ks[i])
                if 'samples' in mode:
                    v = x[:, 0]
                    ck.check(np.array_equal(x[:, 1], -v) and set((v // 1000).astype(int)) == {u + 1} and np.all(v % 1000 < lens[u]), lambda: '%s: frames %s are not of %s' % (what, v.tolist(), ks[i]))
                    ck.check(np.all(np.diff(v) >= 0), what + ': order of the frames')
                    f, m = None, len(v)
                else:
                    uu, f, m = gens.locate(ck, x, keys, lens, what)
                    ck.eq(uu, u, what + ': sequence of a key')
                if ps is not None:
                    ck.close(np.asarray(ps[i]), dense(u, lens[u])[f:f + m], what + ': posteriors of the frames', rtol=1e-6, atol=1e-7)
                if rk % 2:
                    want = CLASSES[u % 3]
                    ck.eq([float(q) for q in y[i]], [1.0 if q == want else 0.0 for q in CLASSES], what + ': class of ' + ks[i])
                j = len(use[ks[i]])
                ck.check(j < len(st[ks[i]]), lambda: '%s: more than %d sub-sequences of %s' % (what, len(st[ks[i]]), ks[i]))
                if mode in ('full', 'sequential'):
                    ck.eq((f, m), st[ks[i]][j], '%s: sub-sequence %d of %s' % (what, j, ks[i]))
                elif mode.endswith('1seq') or len(st[ks[i]]) == 1:
                    ck.eq(m, min(lens[u], mx), what + ': length')
                else:
                    ck.eq(m, mx, what + ': length')
                use[ks[i]].append((f, m))
                seqn.append(ks[i])
        used = sum(len(q) for q in use.values())
        ck.eq(used, nb * b, what + ': sub-sequences of an epoch')
        if nb * b == tot:
            ck.check(all(len(use[k]) == len(st[k]) for k in keys), lambda: '%s: the list is not covered: %s' % (what, use))
        if not shuffle:
            one_round = [keys[i] for i in order if st[keys[i]]]
            ck.eq(seqn[:len(one_round)], one_round[:len(seqn)], what + ': order without shuffling')
    ck.state((what, tuple(sorted((k, tuple(q)) for k, q in use.items()))))


def parts(ck, lens):
    d = ck.dir()
    h, p, kf, cf, keys, order = files(d, lens)
    listed = [keys[i] for i in order]
    for np_ in range(1, min(3, len(lens)) + 1):
        seen = []
        for i in range(1, np_ + 1):
            for rk in range(4):
                r = make(rk, h, p, kf, cf, part_idx=i, num_parts=np_, shuffle_seqs=False)
                mine = []
                for _ in range(r.num_seqs):
                    out = r.read_next_seq()
                    ck.step()
                    k = str(out[-1])
                    u, f, m = gens.locate(ck, out[0], keys, lens, 'next sequence')
                    ck.eq((keys[u], f, m), (k, 0, lens[u]), 'next sequence of part %d of %d' % (i, np_))
                    if rk >= 2:
                        ck.close(out[1], dense(u, m), 'posteriors of the next sequence', rtol=1e-6, atol=1e-7)
                    mine.append(k)
            seen += mine
            ck.state(('parts', tuple(lens), np_, i))
        ck.eq(sorted(seen), sorted(listed), 'sequences of %d parts' % np_)


def slices(ck, lens):
    from hyperion.io import HypDataReader
    d = ck.dir()
    h, p, kf, cf, keys, order = files(d, lens)
    r = HypDataReader(h)
    ck.eq(sorted(r.get_datasets()), sorted(keys), 'data sets')
    for sub in itertools.permutations(range(len(lens)), min(3, len(lens))):
        for ks in ([keys[i] for i in sub], np.array([keys[i] for i in sub])):
            x = r.read(ks)
            ck.step()
            for i, xi in zip(sub, x):
                ck.eq(np.asarray(xi).tolist(), gens.utt(i, lens[i]).tolist(), 'sequence')
            ck.eq([int(q) for q in r.get_num_rows(ks)], [lens[i] for i in sub], 'numbers of rows')
            if len(set(lens[i] for i in sub)) == 1:
                t = r.read(ks, return_tensor=True)
                ck.eq(t.tolist(), [gens.utt(i, lens[i]).tolist() for i in sub], 'tensor')
    pr = HypDataReader(p)
    for i, n in enumerate(lens):
        for a in range(n):
            for m in range(1, n - a + 1):
                ck.eq(np.asarray(r.read_slice(keys[i], a, m)).tolist(), gens.utt(i, n)[a:a + m].tolist(), 'slice %d+%d of %d' % (a, m, n))
                ck.close(pr.read_slice(keys[i], a, m, field='.r'), post(i, n)[0][a:a + m], 'slice of a field', rtol=1e-6, atol=1e-7)
                ck.step()
        for m in range(1, n + 1):
            got = set()
            for seed in range(30):
                x, a = r.read_random_slice(keys[i], m, np.random.RandomState(seed))
                ck.check(0 <= a <= n - m, 'start of a random slice')
                ck.eq(np.asarray(x).tolist(), gens.utt(i, n)[a:a + m].tolist(), 'random slice')
                got.add(int(a))
                rep = seed % 2 == 0
                x, idx = r.read_random_samples(keys[i], m, np.random.RandomState(seed), replace=rep)
                f = [int(q) - 1000 * (i + 1) for q in x[:, 0]]
                ck.check(len(f) == m and all(0 <= q < n for q in f) and f == sorted(f), lambda: 'random samples %s of %d frames' % (f, n))
                if not rep:
                    ck.eq(len(set(f)), m, 'random samples without repetition')
                ck.eq([int(q) + f[0] for q in idx], f, 'index of random samples')
                ck.step()
            if n - m + 1 <= 3:
                ck.eq(got, set(range(n - m + 1)), 'starts of random slices of %d out of %d frames' % (m, n))
            ck.state(('slices', n, m, tuple(sorted(got))))
    ck.raises(lambda: r.read(['none']), 'a sequence that is not there')


def args(ck):
    from hyperion.helpers.sequence_reader import SequenceReader as S
    from hyperion.helpers.sequence_post_reader import SequencePostReader as SP
    d = ck.dir()
    lens = [8, 1, 5, 3]
    h, p, kf, cf, keys, order = files(d, lens)
    opts = [[], ['max-seq-length', '3'], ['max-seq-length', '3', 'min-seq-length', '2', 'seq-split-mode', 'sequential'],
            ['max-seq-length', '4', 'min-seq-length', '2', 'seq-split-mode', 'sequential', 'seq-split-overlap', '1'], ['part-idx', '2', 'num-parts', '3'], ['no-shuffle-seqs'],
            ['min-seq-length', '4']]
    for cls, rk in ((S, 0), (S, 1), (SP, 2), (SP, 3)):
        for o in opts:
            for pre in (None, 'tr'):
                ap = argparse.ArgumentParser()
                cls.add_argparse_args(ap, prefix=pre)
                av = ['--' + (pre + '-' if pre else '') + q if k % 2 == 0 else q for k, q in enumerate(o)]
                if rk >= 2:
                    av += ['--' + (pre + '-' if pre else '') + 'num-comp', str(NC)]
                kw = cls.filter_args(prefix=pre, **vars(ap.parse_args(av)))
                kw.pop('num_comp', None)
                r = make(rk, h, p, kf, cf, **kw)
                g = dict(zip(o[::2], o[1::2])) if o != ['no-shuffle-seqs'] else {}
                mode = g.get('seq-split-mode', 'random_slice') if 'max-seq-length' in g else 'full'
                mn, mx, ov = int(g.get('min-seq-length', 1)), int(g['max-seq-length']) if 'max-seq-length' in g else None, int(g.get('seq-split-overlap', 0))
                mine = order if 'num-parts' not in g else [keys.index(k) for k in r.scp.file_path]
                if 'num-parts' in g:
                    ck.check(0 < len(mine) < len(order), 'part with options %s' % o)
                ck.eq([int(q) for q in r.num_subseqs], [len(starts(lens[i], mn, mx, ov, mode)) for i in mine], 'sub-sequences with options %s' % o)
                ck.eq(r.shuffle_seqs, o != ['no-shuffle-seqs'], 'shuffling with options %s' % o)
                for _ in range(2 * r.num_batches):
                    x = r.read()[0][0]
                    gens.locate(ck, x, keys, lens, 'options %s' % o)
                    ck.step()
                ck.state(('args', rk, pre, tuple(o)))
        for pre in (None, 'ev'):
            ap = argparse.ArgumentParser()
            cls.add_argparse_eval_args(ap, prefix=pre)
            q = '--' + (pre + '-' if pre else '')
            kw = cls.filter_eval_args(prefix=pre, **vars(ap.parse_args([q + 'part-idx', '2', q + 'num-parts', '2'] + ([q + 'num-comp', str(NC)] if rk >= 2 else []))))
            if rk >= 2:
                ck.eq(kw.pop('num_comp'), NC, 'number of components for evaluation')
            r = make(rk, h, p, kf, cf, **kw)
            ck.check(0 < len(r.scp.file_path) < len(order), 'part for evaluation')

