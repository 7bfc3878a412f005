"""L06: trial lists."""
import itertools
from mc import trials as T

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state: every state of a small universe of trial lists, every operation in every state, against sets of pairs'
BOUND = {
    'quick': 'all states over 2 models x 3 segments (every ordered selection of models and segments, every mask), every operation (sort, copy, 3 file formats, every keep and drop filter, every split grid, merges) in each, followed by sort and filter; evaluation-set parsing for every mask of 2x2 and every enrolment map',
    'thorough': 'all states over 3 models x 3 segments in sorted and rotated order'}
ASSUMPTIONS = ['names are ASCII without spaces', 'files named .txt, .h5 or .hdf5', 'a dropping filter and a merge may return the models and segments in any order']
CHUNK = 4


class K(T.Kind):
    name = 'ndx'
    empty = False
    exts = ('.txt', '.h5', '.hdf5')
    txt_tol = 0
    overlap_ok = True

    @staticmethod
    def cls():
        from hyperion.utils.trial_ndx import TrialNdx
        return TrialNdx

    @staticmethod
    def mk(ms, ss, d):
        import numpy as np
        return K.cls()(list(ms), list(ss), np.array([[d[m, s] for s in ss] for m in ms], dtype=bool))

    @staticmethod
    def rd(o):
        ms = [str(x) for x in o.model_set]
        ss = [str(x) for x in o.seg_set]
        assert o.trial_mask.shape == (len(ms), len(ss))
        return ms, ss, {(m, s): bool(o.trial_mask[i, j]) for i, m in enumerate(ms) for j, s in enumerate(ss)}

    @staticmethod
    def or_(a, b):
        return a or b

    @staticmethod
    def conflict(d):
        return False

    @staticmethod
    def change(v):
        return not v

    @staticmethod
    def extra(ck, o, ms, ss, what, drop):
        pass

    @staticmethod
    def others():
        for ms, ss in ((['m10', 'm1'], ['s2', 's3']), (['m1'], ['s1', 's3', 's20']), (['m1'], ['s2'])):
            yield ms, ss, {(m, s): (m, s) in (('m10', 's3'), ('m1', 's2'), ('m1', 's20'))
                           for m in ms for s in ss}


def cases(tier):
    for ms, ss in T.shapes():
        n = len(ms) * len(ss)
        for hi in range(max(1, 2 ** n // 8)):
            yield dict(kind='all', ms=ms, ss=ss, lo=hi * 8, hi=min(hi * 8 + 8, 2 ** n))
    for m in range(16):
        yield dict(kind='eval', mask=m)
    if tier != 'quick':
        for ms in (('m1', 'm10', 'm2'), ('m2', 'm1', 'm10')):
            for ss in (('s1', 's20', 's3'), ('s20', 's3', 's1')):
                for hi in range(64):
                    yield dict(kind='all', ms=ms, ss=ss, lo=hi * 8, hi=hi * 8 + 8)


def run_case(ck, c):
    import numpy as np
    if c['kind'] == 'all':
        pairs = [(m, s) for m in c['ms'] for s in c['ss']]
        for mask in range(c['lo'], c['hi']):
            d = {p: bool(mask >> i & 1) for i, p in enumerate(pairs)}
            if 'm1' in c['ms']:
                # the foreign names of the universe are known names here
                explore3(ck, c['ms'], c['ss'], d)
            else:
                T.explore(ck, K, c['ms'], c['ss'], d)
        if c['lo'] == 0:
            o = K.cls()(list(c['ms']), list(c['ss']))
            T.compare(ck, K, o, c['ms'], c['ss'], {p: True for p in pairs}, 'list without mask')
    else:
        eval_sets(ck, c['mask'])


def explore3(ck, ms, ss, d):
    o = K.mk(ms, ss, d)
    ck.state((ms, ss, sorted(d.items())))
    for fm in T.ordered(ms):
        for fs in T.ordered(ss):
            T.compare(ck, K, o.filter(list(fm), list(fs)), fm, fs, d, 'filter keeping %s %s' % (fm, fs))
            ck.step()
    for nm in range(1, 4):
        for ns in range(1, 4):
            pieces = []
            for i in range(1, nm + 1):
                for j in range(1, ns + 1):
                    r = o.split(i, nm, j, ns)
                    T.compare(ck, K, r, T.parts(ms, i, nm), T.parts(ss, j, ns), d, 'part')
                    pieces.append(r)
                    ck.step()
            for k in range(len(pieces)):
                T.compare(ck, K, K.cls().merge(pieces[k:] + pieces[:k]), ms, ss, d, 'merge', ordered_=False)
                ck.step()
    ck.trace()


def eval_sets(ck, mask):
    from hyperion.utils.utt2info import Utt2Info
    ms, ss = ['m2', 'm10'], ['s3', 's1']
    pairs = [(m, s) for m in ms for s in ss]
    d = {p: bool(mask >> i & 1) for i, p in enumerate(pairs)}
    o = K.mk(ms, ss, d)
    files = ['f3', 'f1', 'f2']
    for en in itertools.product(('m2', 'm10', 'm1'), repeat=3):
        if not set(ms) <= set(en):
            continue
        enroll = Utt2Info.create(files, list(en))
        test = Utt2Info.create(['t2', 't1', 's1'], ['x', 'y', 'x'])
        T_ = K.cls()
        want_rows = sorted((f, m) for f, m in zip(files, en) if m in ms)

        def rows(e):
            return sorted(zip([str(x) for x in e.key], [str(x) for x in e.info]))
        nd, e = T_.parse_eval_set(o, enroll, None, 'enroll-test')
        T.compare(ck, K, nd, ms, ss, d, 'enroll-test')
        ck.eq(rows(e), want_rows, 'enroll-test: enrolment')
        nd, e = T_.parse_eval_set(o, enroll)
        T.compare(ck, K, nd, ms, ss, d, 'enroll-test')
        ck.eq(rows(e), want_rows, 'enroll-test: enrolment')
        nd, e = T_.parse_eval_set(o, enroll, test, 'enroll-coh')
        ts = ['t2', 't1', 's1']
        T.compare(ck, K, nd, ms, ts, {(m, s): True for m in ms for s in ts}, 'enroll-coh')
        ck.eq(rows(e), want_rows, 'enroll-coh: enrolment')
        nd, e = T_.parse_eval_set(o, enroll, test, 'coh-test')
        T.compare(ck, K, nd, files, ss, {(m, s): True for m in files for s in ss}, 'coh-test')
        ck.eq(rows(e), sorted(zip(files, en)), 'coh-test: enrolment')
        nd, e = T_.parse_eval_set(None, enroll, test, 'coh-coh')
        T.compare(ck, K, nd, files, ts, {(m, s): True for m in files for s in ts}, 'coh-coh')
        ck.eq(rows(e), sorted(zip(files, en)), 'coh-coh: enrolment')
        ck.step(5)
        ck.trace()
        ck.state((mask, en))
