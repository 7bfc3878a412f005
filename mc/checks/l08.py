"""L08: score tables."""
import itertools
import os
from mc import trials as T

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state: every state of a small universe of score tables, every operation in every state, against maps from pairs to scores'
BOUND = {
    'quick': 'all states over 2 models x 3 segments (every ordered selection, every presence mask, distinct scores, arbitrary numbers stored for absent scores), every operation in each; alignment, extraction and filling against every list and key over every ordered 1-2 x 1-2 selection of 3 models x 3 segments',
    'thorough': 'alignment against every list of every ordered 2x3 selection'}
ASSUMPTIONS = ['names are ASCII without spaces', 'files named .txt or .h5; the text format keeps 6 decimals',
               'a dropping filter and a merge may return the models and segments in any order']
CHUNK = 4

GARBAGE = 777.0


def score(m, s):
    """distinct, of both signs, exactly representable with 6 decimals"""
    names_m, names_s = ('m2', 'm10', 'm1'), ('s3', 's1', 's20', 's2')
    i, j = names_m.index(m), names_s.index(s)
    return (-1) ** (i + j) * (0.25 + 10. ** (j - 1) * (i + 1))


class K(T.Kind):
    name = 'scores'
    empty = None
    exts = ('.txt', '.h5')
    txt_tol = 1e-6
    overlap_ok = False
    garbage = 0.

    @staticmethod
    def cls():
        from hyperion.utils.trial_scores import TrialScores
        return TrialScores

    @staticmethod
    def mk(ms, ss, d):
        import numpy as np
        a = np.array([[K.garbage if d[m, s] is None else d[m, s] for s in ss] for m in ms], dtype=float)
        k = np.array([[d[m, s] is not None for s in ss] for m in ms])
        return K.cls()(list(ms), list(ss), a, k)

    @staticmethod
    def rd(o):
        ms = [str(x) for x in o.model_set]
        ss = [str(x) for x in o.seg_set]
        assert o.scores.shape == o.score_mask.shape == (len(ms), len(ss))
        return ms, ss, {(m, s): float(o.scores[i, j]) if o.score_mask[i, j] else None
                        for i, m in enumerate(ms) for j, s in enumerate(ss)}

    @staticmethod
    def or_(a, b):
        return b if a is None else a

    @staticmethod
    def conflict(d):
        return False

    @staticmethod
    def change(v):
        return 5. if v is None else v + 1.

    @staticmethod
    def extra(ck, o, ms, ss, what, drop):
        pass

    @staticmethod
    def others():
        for ms, ss in ((['m10', 'm1'], ['s2', 's3']), (['m1'], ['s1', 's3', 's20']), (['m2', 'm10'], ['s1', 's3'])):
            yield ms, ss, {(m, s): score(m, s) + 0.5 if (m, s) in (('m10', 's3'), ('m1', 's2'), ('m1', 's20')) else None
                           for m in ms for s in ss}


def cases(tier):
    for ms, ss in T.shapes():
        n = len(ms) * len(ss)
        for g in (0., GARBAGE):
            for lo in range(0, 2 ** n, 8):
                yield dict(kind='all', ms=ms, ss=ss, lo=lo, hi=min(lo + 8, 2 ** n), g=g)
    # tables that the alignments are made from: every mask of 2x3, in two orders
    for ms, ss in ((T.MODELS, T.SEGS), (T.MODELS[::-1], ('s1', 's20', 's3'))):
        for v in range(64):
            yield dict(kind='align', ms=ms, ss=ss, v=v, deep=tier != 'quick')
            yield dict(kind='tarnon', ms=ms, ss=ss, v=v)


def run_case(ck, c):
    pairs = [(m, s) for m in c['ms'] for s in c['ss']]
    K.garbage = c.get('g', GARBAGE)
    if c['kind'] == 'all':
        for v in range(c['lo'], c['hi']):
            d = {p: score(*p) if v >> i & 1 else None for i, p in enumerate(pairs)}
            T.explore(ck, K, c['ms'], c['ss'], d)
            o = K.mk(c['ms'], c['ss'], d)
            o.transform(lambda x: 3 * x + 1)
            T.compare(ck, K, o, c['ms'], c['ss'], {k: None if x is None else 3 * x + 1 for k, x in d.items()}, 'transform', tol=1e-9)
            o = K.mk(c['ms'], c['ss'], d)
            o.transform(lambda x: x - x.sum())
            tot = sum(x for x in d.values() if x is not None)
            T.compare(ck, K, o, c['ms'], c['ss'], {k: None if x is None else x - tot for k, x in d.items()}, 'transform of all scores', tol=1e-9)
            missing_filter(ck, c, d)
        if c['lo'] == 0:
            import numpy as np
            o = K.cls()(list(c['ms']), list(c['ss']))
            T.compare(ck, K, o, c['ms'], c['ss'], {p: 0. for p in pairs}, 'table without scores')
            o = K.cls()(list(c['ms']), list(c['ss']), np.array([[score(m, s) for s in c['ss']] for m in c['ms']]))
            T.compare(ck, K, o, c['ms'], c['ss'], {p: score(*p) for p in pairs}, 'table without presence flags')
        return
    d = {p: score(*p) if c['v'] >> i & 1 else None for i, p in enumerate(pairs)}
    from hyperion.utils.trial_ndx import TrialNdx
    from hyperion.utils.trial_key import TrialKey
    import numpy as np
    o = K.mk(c['ms'], c['ss'], d)
    if c['kind'] == 'align':
        shapes = [(a, b) for a in T.ordered(('m2', 'm10', 'm1')) if len(a) <= 2
                  for b in T.ordered(('s3', 's1', 's2')) if len(b) <= 2]
        if c['deep']:
            shapes += [(a, b) for a in itertools.permutations(T.MODELS) for b in itertools.permutations(T.SEGS)]
        for a, b in shapes:
            ap = [(m, s) for m in a for s in b]
            for v in range(2 ** len(ap)):
                t = {p: bool(v >> i & 1) for i, p in enumerate(ap)}
                nd = TrialNdx(list(a), list(b), np.array([[t[m, s] for s in b] for m in a]))
                align(ck, o, c, d, nd, a, b, t)
            ck.state((c['v'], a, b))
        T.compare(ck, K, o, c['ms'], c['ss'], d, 'the source table')
    else:
        shapes = [(a, b) for a in T.ordered(('m2', 'm10', 'm1')) if len(a) <= 2
                  for b in T.ordered(('s3', 's20', 's2')) if len(b) <= 2]
        for a, b in shapes:
            ap = [(m, s) for m in a for s in b]
            for v in range(3 ** len(ap)):
                t = {p: v // 3 ** i % 3 for i, p in enumerate(ap)}
                arr = np.array([[t[m, s] for s in b] for m in a])
                key = TrialKey(list(a), list(b), arr == 1, arr == 2)
                ok = all(m in c['ms'] for m in a) and all(s in c['ss'] for s in b) and \
                    all(d[p] is not None for p in ap if t[p])
                if not ok:
                    ck.raises(lambda: o.get_tar_non(key), 'extraction of missing scores')
                else:
                    tar, non = o.get_tar_non(key)
                    ck.eq(sorted(float(x) for x in tar), sorted(d[p] for p in ap if t[p] == 1), 'target scores')
                    ck.eq(sorted(float(x) for x in non), sorted(d[p] for p in ap if t[p] == 2), 'non-target scores')
                if v % 5 == 0 or len(ap) < 4:
                    align(ck, o, c, d, key, a, b, {p: t[p] != 0 for p in ap})
                ck.step()
                ck.trace()
            ck.state((c['v'], a, b, 'key'))
        T.compare(ck, K, o, c['ms'], c['ss'], d, 'the source table')


def align(ck, o, c, d, nd, a, b, t):
    want = {p: d.get(p) if t[p] else None for p in t}
    miss = any(t[p] and want[p] is None for p in t) or not (set(a) <= set(c['ms']) and set(b) <= set(c['ss']))
    if miss:
        ck.raises(lambda: o.align_with_ndx(nd), 'alignment with a list with missing scores')
    else:
        T.compare(ck, K, o.align_with_ndx(nd), a, b, want, 'alignment')
    T.compare(ck, K, o.align_with_ndx(nd, raise_missing=False), a, b, want, 'alignment without missing scores')
    r = o.set_missing_to_value(nd, -9.5)
    T.compare(ck, K, r, a, b, {p: (-9.5 if want[p] is None else want[p]) if t[p] else None for p in t}, 'missing scores filled')
    ck.step(3)
    ck.trace()


def missing_filter(ck, c, d):
    o = K.mk(c['ms'], c['ss'], d)
    for a in (('m1',), ('m1', 'm2'), ('m10', 'm1', 'm2')):
        for b in (('s2',), ('s20', 's2'), ('s3', 's2', 's1'), ('s1',)):
            r = o.filter(list(a), list(b), raise_missing=False)
            T.compare(ck, K, r, a, b, {(m, s): d.get((m, s)) for m in a for s in b}, 'filter with unknown names')
            ck.step()
