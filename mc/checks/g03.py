"""G03: training-vector readers and trial data readers."""
import itertools
import os
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small labelled lists, trial lists and settings, judged by the definition'
BOUND = {
    'quick': 'all 278 labelled lists of up to 6 recordings (up to renaming) x minimum 1-3 x maximum none,1,2,4 x 3 pruning modes; the same lists and 6 larger ones (up to 24 recordings) x split maxima 1-3 x overlaps x 3 modes x split minima, split once or at each of 3 readings; all trial masks of 2 models x 3 segments x all divisions x 4 evaluation sets, tracking and multi-test lists',
    'thorough': 'all lists of up to 7 recordings (1155), 3 seeds'}
ASSUMPTIONS = ['at least one recording is left', 'a class map is used without class splitting', 'every recording of a cohort list is a model of its own', 'the overlap of split classes is smaller than their size']


def growth(n):
    """all label lists of length n up to renaming"""
    out = [[0]]
    for _ in range(n - 1):
        out = [a + [k] for a in out for k in range(max(a) + 2)]
    return out


LARGE = [[0] * 24, [0] * 11 + [1] * 5, [0, 1] * 7, [0, 1, 2] * 5 + [0] * 4, list(range(12)), [k % 12 for k in range(24)] + [3, 3, 3]]


def cases(tier):
    ls = [a for n in range(1, (6 if tier == 'quick' else 7) + 1) for a in growth(n)]
    k = 6
    for i in range(0, len(ls), k):
        yield dict(kind='spc', lists=ls[i:i + k])
        yield dict(kind='split', lists=ls[i:i + k])
    for a in LARGE:
        yield dict(kind='spc', lists=[a])
        yield dict(kind='split', lists=[a])
    yield dict(kind='vr')
    for m in range(64):
        yield dict(kind='trials', mask=m)
    for m in range(0, 64, 5):
        yield dict(kind='multi', mask=m)
        yield dict(kind='track', mask=m)


NAMES = ['cb', 'ca', 'cd', 'c10', 'c9', 'k', 'a', 'z', 'y', 'm', 'n', '0']


def vec(i):
    return [float(i), 100.0 - i]


def archive(d, keys, nm='v'):
    from hyperion.io import DataWriterFactory as F
    p = os.path.join(d, nm)
    w = F.create('h5,scp:%s.h5,%s.scp' % (p, p))
    w.write(keys, np.asarray([vec(i) for i in range(len(keys))]))
    w.close()
    return 'scp:%s.scp' % p


def who(ck, x, what):
    x = np.asarray(x)
    ck.check(x.ndim == 2 and x.shape[1] == 2, lambda: '%s: shape %s' % (what, x.shape))
    ck.check(np.array_equal(x[:, 0] + x[:, 1], np.full(len(x), 100.0)), what + ': vectors')
    return [int(v) for v in x[:, 0]]


def setup(ck, lab, d):
    n = len(lab)
    keys = ['r%d' % ((7 * i + 3) % 26) + 'pqr'[i % 3] + str(i) for i in range(n)]
    v = archive(d, keys)
    kf = os.path.join(d, 'u2c')
    order = list(range(n - 1, -1, -1)) if n % 2 else list(range(n))
    with open(kf, 'w') as f:
        for i in order:
            f.write('%s %s\n' % (keys[i], NAMES[lab[i]]))
    return v, kf, keys, order


def run_case(ck, c):
    from hyperion.helpers.vector_class_reader import VectorClassReader as V
    kind = c['kind']
    if kind in ('spc', 'split'):
        for lab in c['lists']:
            d = ck.dir()
            v, kf, keys, order = setup(ck, lab, d)
            (spc if kind == 'spc' else split)(ck, V, lab, v, kf, order, d)
        ck.trace()
    elif kind == 'vr':
        vr(ck)
        ck.trace()
    elif kind == 'trials':
        trials(ck, c['mask'])
        ck.trace()
    elif kind == 'multi':
        multi(ck, c['mask'])
        ck.trace()
    elif kind == 'track':
        track(ck, c['mask'])
        ck.trace()


def classes_of(lab, order):
    """class -> recordings in list order"""
    out = {}
    for i in order:
        out.setdefault(lab[i], []).append(i)
    return out


class Pre(object):
    def predict(self, x):
        return np.hstack((x[:, 1:], x[:, :1]))


def spc(ck, V, lab, v, kf, order, d):
    cl = classes_of(lab, order)
    present = sorted(set(lab), key=lambda k: NAMES[k])
    mapfile = os.path.join(d, 'map')
    ints = {k: j for j, k in enumerate(reversed(present))}
    with open(mapfile, 'w') as f:
        for k in present:
            f.write('%s %d\n' % (NAMES[k], ints[k]))
    seeds = (1024,) if ck.tier == 'quick' else (1024, 1, 2)
    for mn, mx, mode in itertools.product((1, 2, 3), (None, 1, 2, 4), ('random', 'first', 'last')):
        if mx is None and mode != 'random':
            continue
        left = {k: m for k, m in cl.items() if len(m) >= mn}
        if not left:
            continue
        names = sorted(left, key=lambda k: NAMES[k])
        what = 'classes %s, order %s, min %s, max %s, %s' % (lab, order, mn, mx, mode)
        for seed in seeds:
            for use in (0, 1):
                r = V(v, kf, min_spc=mn, max_spc=mx, spc_pruning_mode=mode, vcr_seed=seed, class2int_file=mapfile if use else None,
                      preproc=Pre() if mx == 4 else None)
                x, ids = r.read()
                ck.step()
                got = who(ck, x if mx != 4 else x[:, ::-1], what)
                ck.eq([NAMES[k] for k in (sorted(ints, key=ints.get) if use else names)], [str(q) for q in r.class_names], what + ': class names')
                ck.eq(got, [i for i in order if i in got], what + ': order')
                ck.eq(len(set(got)), len(got), what + ': a recording came twice')
                ck.eq([int(q) for q in ids], [(ints[lab[i]] if use else names.index(lab[i])) for i in got], what + ': classes')
                for k, m in cl.items():
                    mine = [i for i in got if lab[i] == k]
                    if k not in left:
                        ck.eq(mine, [], what + ': recordings of a class below the minimum')
                    elif mx is None or len(m) <= mx:
                        ck.eq(mine, m, what + ': recordings of a class within the limits')
                    elif mode == 'last':
                        ck.eq(mine, m[:mx], what + ': the last recordings are left out')
                    elif mode == 'first':
                        ck.eq(mine, m[-mx:], what + ': the first recordings are left out')
                    else:
                        ck.eq(len(mine), mx, what + ': number of recordings of class %s' % NAMES[k])
                spcs = [min(len(left[k]), mx or 99) for k in names]
                ck.eq([int(q) for q in r.samples_per_class], spcs, what + ': recordings per class')
                ck.eq(int(r.max_samples_per_class), max(spcs), what + ': largest class')
                ck.state((tuple(lab), mn, mx, mode, use, seed, tuple(got)))
                if not use:
                    for ml in (0, max(spcs) + 2):
                        x3, w = r.read(return_3d=True, max_length=ml)
                        ck.eq(x3.shape, (len(names), ml or max(spcs), 2), what + ': shape by class')
                        if mx == 4:
                            x3 = x3[:, :, ::-1]
                        for j, k in enumerate(names):
                            q = spcs[j]
                            ck.eq([float(z) for z in w[j]], [1.0] * q + [0.0] * (w.shape[1] - q), what + ': weights by class')
                            ck.eq(who(ck, x3[j, :q], what), [i for i in got if lab[i] == k], what + ': recordings by class')
                            ck.check(np.all(x3[j, q:] == 0), what + ': padding by class')


def split(ck, V, lab, v, kf, order, d):
    cl = classes_of(lab, order)
    names = sorted(cl, key=lambda k: NAMES[k])
    seeds = (1024,) if ck.tier == 'quick' else (1024, 1, 2)
    for mx, mode in itertools.product((None, 1, 2, 3), ('sequential', 'random', 'random_1subclass')):
        for ov in range(0, mx or 1):
            if mode == 'random_1subclass' and ov:
                continue
            for mn in (None, 1, 2, 3):
                if mn and mx and mn > mx:
                    continue
                for once in (True, False):
                    for seed in seeds:
                        one_split(ck, V, lab, v, kf, order, cl, names, mx, mode, ov, mn, once, seed)


def one_split(ck, V, lab, v, kf, order, cl, names, mx, mode, ov, mn, once, seed):
    what = 'classes %s, order %s, split max %s, min %s, %s, overlap %s, once %s' % (lab, order, mx, mn, mode, ov, once)
    want = []        # (class, number, exact or None)
    lo = mn or 1
    for k in names:
        m = cl[k]
        if mx is None:
            want.append((k, m))
        elif len(m) <= mx:
            if len(m) >= lo:
                want.append((k, m))
        elif mode == 'random_1subclass':
            want.append((k, None))
        else:
            sh = mx - ov
            parts = [m[a:a + mx] for a in range(0, len(m), sh) if a == 0 or a + ov < len(m)]
            for q in parts:
                if mode == 'random':
                    want.append((k, None))
                elif len(q) >= lo:
                    want.append((k, q))
    if not want:
        return
    # half of them through the command line, whose defaults matter
    kw = dict(csplit_mode=mode, csplit_overlap=ov, vcr_seed=seed)
    if mx is not None:
        kw['csplit_max_spc'] = mx
    if mn is not None:
        kw['csplit_min_spc'] = mn
    if mn is None or mn == 2:
        import argparse
        ap = argparse.ArgumentParser()
        pre = 'vc' if once else None
        V.add_argparse_args(ap, prefix=pre)
        opts = sum([['--' + (pre + '-' if pre else '') + k.replace('_', '-'), str(q)] for k, q in kw.items() if not (k == 'csplit_overlap' and not q)], [])
        if not once:
            opts.append('--no-csplit-once')
        kw = V.filter_args(prefix=pre, **vars(ap.parse_args(opts)))
    else:
        kw['csplit_once'] = once
    r = V(v, kf, **kw)
    prev = None
    diff = False
    for rd in range(3):
        x, ids = r.read()
        ck.step()
        got = who(ck, x, what)
        ids = [int(q) for q in ids]
        ck.eq(len(ids), len(got), what + ': number of classes')
        ck.eq(sorted(set(ids)), list(range(len(want))), what + ': class numbers')
        groups = {}
        for i, y in zip(got, ids):
            groups.setdefault(y, []).append(i)
        left = [list(g) for g in groups.values()]
        for g in left:
            ck.check(len(set(g)) == len(g), lambda: '%s: a recording came twice in a class: %s' % (what, g))
            ck.check(len(set(lab[i] for i in g)) == 1, lambda: '%s: a class has recordings of two: %s' % (what, g))
        for k, m in want:
            if m is not None:
                ck.check(m in left, lambda: '%s: class of recordings %s is not among %s' % (what, m, left))
                left.remove(m)
        for k, m in want:
            if m is None:
                q = [g for g in left if lab[g[0]] == k and len(g) == mx]
                ck.check(q, lambda: '%s: no split class of %s with %s recordings: %s' % (what, NAMES[k], mx, left))
                left.remove(q[0])
        ck.eq(left, [], what + ': classes that should not be there')
        if prev is not None:
            if once:
                ck.eq((got, ids), prev, what + ': second reading')
            elif (got, ids) != prev:
                diff = True
        prev = (got, ids)
    # with a choice of at least 100 ways, three readings that draw anew are not all alike
    if not once and mode == 'random' and mx == 3 and ov == 0 and max(len(m) for m in cl.values()) >= 10:
        ck.check(diff, what + ': split classes are not drawn at each reading')
    n = [len(m) if m is not None else mx for k, m in want]
    if once:
        ck.eq(sorted(int(q) for q in r.samples_per_class), sorted(n), what + ': recordings per class')
        ck.eq(len(r.class_names), len(want), what + ': class names')
    ck.eq(int(r.max_samples_per_class), max(n), what + ': largest class')
    ck.state((tuple(lab), mx, mode, ov, mn, once, tuple(prev[0]), tuple(prev[1])))


def vr(ck):
    from hyperion.helpers.vector_reader import VectorReader as R
    import argparse
    d = ck.dir()
    keys = ['b1', 'a2', 'c3', 'a-4']
    v = archive(d, keys)
    kf = os.path.join(d, 'list')
    for n in range(1, 5):
        for p in itertools.permutations(range(4), n):
            for sep in (' ', ','):
                with open(kf, 'w') as f:
                    for i in p:
                        f.write('%s%sx%d\n' % (keys[i], sep, i))
                for prefix in (None, 'v'):
                    ap = argparse.ArgumentParser()
                    R.add_argparse_args(ap, prefix=prefix)
                    args = ap.parse_args([] if sep == ' ' else ['--' + (prefix + '-' if prefix else '') + 'vlist-sep', sep])
                    kw = R.filter_args(prefix=prefix, **vars(args))
                    r = R(v, kf, preproc=Pre() if n == 3 else None, **kw)
                    x = r.read()
                    ck.step()
                    ck.eq(who(ck, x if n != 3 else x[:, ::-1], 'list'), list(p), 'vectors of a list')
                ck.state(('vr', p, sep))


MODELS = ['mb', 'ma']
SEGS = ['sb', 'sa', 'sc']


def trial_files(ck, mask):
    """archive, trial list, enrolment and test lists; (names)"""
    from hyperion.utils.trial_ndx import TrialNdx
    d = ck.dir()
    enr = [('e3', 'mb'), ('e1', 'ma'), ('e2', 'mb'), ('e9', 'mx'), ('e5', 'ma')]
    keys = [k for k, _ in enr] + SEGS + ['co2', 'co1', 'co3'] + ['ta', 'tb', 'tc', 'td']
    v = archive(d, keys)
    m = np.array([bool(mask >> j & 1) for j in range(6)]).reshape(2, 3)
    use = np.any(m, axis=1), np.any(m, axis=0)
    ndx = TrialNdx([MODELS[i] for i in range(2) if use[0][i]], [SEGS[i] for i in range(3) if use[1][i]], m[np.ix_(*use)])
    nf = os.path.join(d, 'ndx.h5' if mask % 3 else 'ndx.txt')
    ndx.save(nf)
    ef = os.path.join(d, 'enr')
    with open(ef, 'w') as f:
        for k, i in enr:
            f.write('%s %s\n' % (k, i))
    tf = os.path.join(d, 'test')
    with open(tf, 'w') as f:
        for k in ('co2', 'co1', 'co3'):
            f.write('%s %s\n' % (k, k))
    ek = os.path.join(d, 'coh')
    with open(ek, 'w') as f:
        for k in ('co3', 'co1'):
            f.write('%s %s\n' % (k, k))
    tr = {(MODELS[i], SEGS[j]) for i in range(2) for j in range(3) if m[i, j]}
    return d, keys, v, nf, ef, tf, ek, enr, tr


def ndx_trials(ndx):
    return {(str(ndx.model_set[i]), str(ndx.seg_set[j])) for i in range(len(ndx.model_set)) for j in range(len(ndx.seg_set)) if ndx.trial_mask[i, j]}


def trials(ck, mask):
    from hyperion.helpers.trial_data_reader import TrialDataReader as T
    if not mask:
        return
    d, keys, v, nf, ef, tf, ek, enr, tr = trial_files(ck, mask)
    ms, ss = {m for m, s in tr}, {s for m, s in tr}
    co = ['co2', 'co1', 'co3']
    for es in ('enroll-test', 'enroll-coh', 'coh-test', 'coh-coh'):
        want = {'enroll-test': tr, 'enroll-coh': {(m, s) for m in ms for s in co},
                'coh-test': {(m, s) for m in ('co3', 'co1') for s in ss}, 'coh-coh': {(m, s) for m in ('co3', 'co1') for s in co}}[es]
        em = {'e': enr, 'c': [('co3', 'co3'), ('co1', 'co1')]}[es[0]]
        for pre in (None, Pre()):
            nm, ns = len({m for m, s in want}), len({s for m, s in want})
            for a, b in itertools.product(range(1, nm + 1), range(1, ns + 1)):
                seen = set()
                for i, j in itertools.product(range(1, a + 1), range(1, b + 1)):
                    what = '%s of trials %s, part %d/%d, %d/%d' % (es, sorted(tr), i, a, j, b)
                    r = T(v, nf if es != 'coh-coh' or mask % 2 else None, ek if es[0] == 'c' else ef, tf if es.endswith('coh') else None, pre,
                          model_idx=i, num_model_parts=a, seg_idx=j, num_seg_parts=b, eval_set=es)
                    xe, xt, info, ndx = r.read()
                    ck.step()
                    if pre:
                        xe, xt = xe[:, ::-1], xt[:, ::-1]
                    t = ndx_trials(ndx)
                    ck.check(not (t & seen), what + ': a trial is in two parts')
                    seen |= t
                    ck.eq([keys[q] for q in who(ck, xt, what)], [str(s) for s in ndx.seg_set], what + ': test vectors')
                    got = [(keys[q], str(m)) for q, m in zip(who(ck, xe, what), info)]
                    ck.eq(len(info), len(xe), what + ': models of the enrolment vectors')
                    ck.eq(sorted(got), sorted(e for e in em if e[1] in set(ndx.model_set)), what + ': enrolment vectors')
                    ck.state((mask, es, a, b, i, j))
                ck.eq(sorted(seen), sorted(want), '%s of trials %s in %d x %d parts' % (es, sorted(tr), a, b))


def multi(ck, mask):
    from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader as T
    if not mask:
        return
    d, keys, v, nf, ef, tf, ek, enr, tr = trial_files(ck, mask)
    ss = sorted({s for m, s in tr})
    sub = [('tb', ss[0]), ('ta', ss[-1]), ('td', ss[0]), ('tc', ss[len(ss) // 2])]
    for s in ss:
        if s not in [q for _, q in sub]:
            sub.append((s, s))
    sf = os.path.join(d, 'sub')
    with open(sf, 'w') as f:
        for k, s in sub:
            f.write('%s %s\n' % (k, s))
    multi_parts(ck, T, mask, (v, nf, ef, None, sf), {}, keys, enr, tr, sub)
    # sub-segments of a cohort
    co = ['co2', 'co1', 'co3']
    sub = [('tb', 'co1'), ('ta', 'co3'), ('td', 'co1'), ('tc', 'co2')]
    with open(sf, 'w') as f:
        for k, s in sub:
            f.write('%s %s\n' % (k, s))
    multi_parts(ck, T, mask, (v, nf, ef, tf, sf), dict(eval_set='enroll-coh'), keys, enr, {(m, s) for m, _ in tr for s in co}, sub)


def multi_parts(ck, T, mask, files, kw, keys, enr, tr, sub):
    nm, ns = len({m for m, s in tr}), len({s for m, s in tr})
    for pre, a, b in itertools.product((None, Pre()), range(1, nm + 1), range(1, ns + 1)):
        seen = set()
        for i, j in itertools.product(range(1, a + 1), range(1, b + 1)):
            what = 'sub-segments %s of trials %s, part %d/%d, %d/%d %s' % (sub, sorted(tr), i, a, j, b, kw)
            r = T(*(files + (pre,)), model_idx=i, num_model_parts=a, seg_idx=j, num_seg_parts=b, **kw)
            xe, xt, info, ndx, orig = r.read()
            ck.step()
            if pre:
                xe, xt = xe[:, ::-1], xt[:, ::-1]
            t = ndx_trials(ndx)
            ck.check(not (t & seen), what + ': a trial is in two parts')
            seen |= t
            got = [(keys[q], str(m)) for q, m in zip(who(ck, xe, what), info)]
            ck.eq(sorted(got), sorted(e for e in enr if e[1] in set(ndx.model_set)), what + ': enrolment vectors')
            got = [(keys[q], str(m)) for q, m in zip(who(ck, xt, what), orig)]
            ck.eq(len(orig), len(xt), what + ': segments of the vectors')
            ck.eq(sorted(got), sorted(q for q in sub if q[1] in set(ndx.seg_set)), what + ': test vectors')
            ck.state((mask, a, b, i, j, len(kw)))
        ck.eq(sorted(seen), sorted(tr), 'trials %s in %d x %d parts' % (sorted(tr), a, b))


def track(ck, mask):
    from hyperion.helpers.tracking_data_reader import TrackingDataReader as T
    from hyperion.utils.ext_segment_list import ExtSegmentList as E
    if not mask:
        return
    d, keys, v, nf, ef, tf, ek, enr, tr = trial_files(ck, mask)
    ss = sorted({s for m, s in tr})
    segs = []
    for q, s in enumerate(ss):
        for z in range(1 + q % 2):
            segs.append(('%s-%d' % (s, z), s, z * 1.0, z + 0.9))
    v2 = archive(d, [k for k, _ in enr] + [s[0] for s in segs], 'seg')
    skeys = [k for k, _ in enr] + [s[0] for s in segs]
    sf = os.path.join(d, 'segs')
    c = list(zip(*segs))
    E.create(list(c[0]), list(c[1]), list(c[2]), list(c[3])).save(sf)
    want = {(m, s[0]) for m, t in tr for s in segs if s[1] == t}
    r = T(v2, nf, ef, sf, None)
    def judge(out, want, what):
        xe, xt, info, ndx, sg = out
        ck.step()
        ck.eq(sorted(ndx_trials(ndx)), sorted(want), what + ': trials')
        ck.eq([skeys[q] for q in who(ck, xt, what)], [str(s) for s in ndx.seg_set], what + ': segment vectors')
        got = [(skeys[q], str(m)) for q, m in zip(who(ck, xe, what), info)]
        ck.eq(sorted(got), sorted(e for e in enr if e[1] in set(ndx.model_set)), what + ': enrolment vectors')
    judge(r.read(), want, 'segments of all files')
    for s in ss:
        judge(r.read(s), {(m, q) for m, q in want if q.split('-')[0] == s}, 'segments of %s' % s)
    # parts of the trials, with vectors that are processed
    nm = len({m for m, _ in tr})
    for a, b in itertools.product(range(1, nm + 1), range(1, len(ss) + 1)):
        seen = set()
        for i, j in itertools.product(range(1, a + 1), range(1, b + 1)):
            what = 'segments, part %d/%d, %d/%d' % (i, a, j, b)
            r = T(v2, nf, ef, sf, Pre(), model_idx=i, num_model_parts=a, seg_idx=j, num_seg_parts=b)
            mine = {(str(m), q[0]) for m, t in ndx_trials(r.ndx) for q in segs if q[1] == t}
            ck.check(not (seen & mine), what + ': a trial is in two parts')
            seen |= mine
            out = list(r.read())
            out[0], out[1] = out[0][:, ::-1], out[1][:, ::-1]
            judge(out, mine, what)
            ck.state(('track', mask, a, b, i, j))
        ck.eq(sorted(seen), sorted(want), 'segments in %d x %d parts' % (a, b))
    ck.state(('track', mask))

