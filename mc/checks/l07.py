"""L07: trial keys."""
import itertools
from mc import trials as T

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state: every state of a small universe of trial keys, every operation in every state, against maps from pairs to classes'
BOUND = {
    'quick': 'all states over 2 models x 3 segments (every ordered selection of models and segments, every assignment of target/non-target/none; in the permuted 2x3 orderings the last pair is not a trial), without and with condition masks, every operation in each (sort, copy, files, filters, split grids, merges, conversion to a list)',
    'thorough': 'all assignments also for every 2x3 ordering, each operation followed by sort and filter'}
ASSUMPTIONS = ['names are ASCII without spaces', 'files named .txt or .h5; the text format does not hold conditions',
               'a dropping filter and a merge may return the models and segments in any order',
               'the merged keys do not contradict each other']
CHUNK = 4

CONDS = 0


def mbit(c, m):
    return bool((sum(map(ord, m)) * 7 + c * 3) // (c + 1) % 2)


def sbit(c, s):
    return bool((sum(map(ord, s)) * 5 + c) // (c + 2) % 2)


def tbit(c, m, s):
    return bool((sum(map(ord, m)) * 3 + sum(map(ord, s)) * (c + 1) + c) // 3 % 2)


class K(T.Kind):
    name = 'key'
    empty = 0
    exts = ('.txt', '.h5')
    txt_tol = 0
    overlap_ok = True
    conds = 0

    @staticmethod
    def cls():
        from hyperion.utils.trial_key import TrialKey
        return TrialKey

    @staticmethod
    def mk(ms, ss, d):
        import numpy as np
        a = np.array([[d[m, s] for s in ss] for m in ms])
        kw = {}
        if K.conds & 1:
            kw['model_cond'] = np.array([[mbit(c, m) for m in ms] for c in range(2)])
            kw['model_cond_name'] = ['male', 'phone']
        if K.conds & 2:
            kw['seg_cond'] = np.array([[sbit(c, s) for s in ss] for c in range(3)])
            kw['seg_cond_name'] = ['a', 'bb', 'ccc']
        if K.conds & 4:
            kw['trial_cond'] = np.array([[[tbit(c, m, s) for s in ss] for m in ms] for c in range(2)])
            kw['trial_cond_name'] = ['same', 'cross']
        return K.cls()(list(ms), list(ss), a == 1, a == 2, **kw)

    @staticmethod
    def rd(o):
        import numpy as np
        ms = [str(x) for x in o.model_set]
        ss = [str(x) for x in o.seg_set]
        assert o.tar.shape == o.non.shape == (len(ms), len(ss))
        tar, non = np.asarray(o.tar, bool), np.asarray(o.non, bool)
        return ms, ss, {(m, s): (1 if tar[i, j] else 0) + (2 if non[i, j] else 0)
                        for i, m in enumerate(ms) for j, s in enumerate(ss)}

    @staticmethod
    def or_(a, b):
        return a | b

    @staticmethod
    def conflict(d):
        return 3 in d.values()

    @staticmethod
    def change(v):
        return (v + 1) % 3

    merged_with = None

    @staticmethod
    def extra(ck, o, ms, ss, what, drop):
        if drop:
            return
        import numpy as np
        for bit, nm in ((1, 'model_cond'), (2, 'seg_cond'), (4, 'trial_cond')):
            v, n = getattr(o, nm), getattr(o, nm + '_name')
            if not K.conds & bit:
                ck.check(v is None and n is None, '%s: %s appeared' % (what, nm))
                continue
            v = np.asarray(v, bool)
            if bit == 1:
                w = np.array([[mbit(c, m) for m in ms] for c in range(2)])
                wn = ['male', 'phone']
            elif bit == 2:
                w = np.array([[sbit(c, s) for s in ss] for c in range(3)])
                wn = ['a', 'bb', 'ccc']
            else:
                w = np.array([[[tbit(c, m, s) for s in ss] for m in ms] for c in range(2)])
                wn = ['same', 'cross']
            if bit == 4 and 'merge' in what and v.shape == w.shape:
                # pairs in none of the merged keys have no condition
                ck.check(not np.any(v & ~w), '%s: %s' % (what, nm))
                if 'split' in what:
                    ck.check(np.array_equal(v, w), '%s: %s' % (what, nm))
                continue
            ck.check(v.shape == w.shape and np.array_equal(v, w),
                     lambda: '%s: %s is %s, not %s' % (what, nm, v.tolist(), w.tolist()))
            ck.eq([str(x) for x in n], wn, '%s: names of %s' % (what, nm))

    @staticmethod
    def others():
        for ms, ss in ((['m10', 'm1'], ['s2', 's3']), (['m1'], ['s1', 's3', 's20'])):
            yield ms, ss, {(m, s): {('m10', 's3'): 1, ('m1', 's2'): 2, ('m1', 's20'): 1}.get((m, s), 0)
                           for m in ms for s in ss}


def cases(tier):
    for ms, ss in T.shapes():
        n = len(ms) * len(ss)
        tot = 3 ** n
        first = ms == T.MODELS and ss == T.SEGS
        full = n < 6 or first or tier != 'quick'
        for conds in (0, 7):
            for lo in range(0, tot if full else tot // 3, 27):
                yield dict(kind='all', ms=ms, ss=ss, lo=lo, hi=min(lo + 27, tot), conds=conds)
    for conds in (1, 2, 4):
        for ms, ss in ((('m10', 'm2'), ('s20', 's1')), (('m2',), ('s3', 's1', 's20')), (('m2', 'm10'), ('s3',))):
            n = len(ms) * len(ss)
            for lo in range(0, 3 ** n, 27):
                yield dict(kind='all', ms=ms, ss=ss, lo=lo, hi=min(lo + 27, 3 ** n), conds=conds)


def run_case(ck, c):
    from hyperion.utils.trial_ndx import TrialNdx
    K.conds = c['conds']
    pairs = [(m, s) for m in c['ms'] for s in c['ss']]
    small = len(pairs) <= 4
    for v in range(c['lo'], c['hi']):
        d = {p: v // 3 ** i % 3 for i, p in enumerate(pairs)}
        T.explore(ck, K, c['ms'], c['ss'], d, probes=small or ck.tier != 'quick')
        o = K.mk(c['ms'], c['ss'], d)
        nd = o.to_ndx()
        ck.check(isinstance(nd, TrialNdx), 'to_ndx returns a trial list')
        ck.eq([str(x) for x in nd.model_set], list(c['ms']), 'to_ndx: models')
        ck.eq([str(x) for x in nd.seg_set], list(c['ss']), 'to_ndx: segments')
        ck.eq({(m, s): bool(nd.trial_mask[i, j]) for i, m in enumerate(c['ms']) for j, s in enumerate(c['ss'])},
              {k: x != 0 for k, x in d.items()}, 'to_ndx: trials')
        ck.step()
        if c['conds'] and v == c['lo']:
            # objects that differ only in a condition are not equal
            for nm in ('model_cond', 'seg_cond', 'trial_cond'):
                if getattr(o, nm) is not None:
                    p = o.copy()
                    x = getattr(p, nm)
                    x[..., -1] = ~x[..., -1]
                    ck.check(not (o == p), 'keys with different %s are equal' % nm)
                    ck.check(o == o.copy(), 'copy')
    if c['lo'] == 0 and not c['conds']:
        o = K.cls()(list(c['ms']), list(c['ss']))
        T.compare(ck, K, o, c['ms'], c['ss'], {p: 0 for p in pairs}, 'key without masks')
