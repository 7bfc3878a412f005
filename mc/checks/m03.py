"""M03: isotonic regression and the cost of log-likelihood ratios against their definitions."""
import itertools
import numpy as np
from mc import metr

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of label sequences and score multisets; each fit compared with the exact min-max formula, each cost with its definition'
BOUND = {'quick': 'all 0/1 sequences of up to 11 values (float, integer and boolean), all sequences of up to 5 values over 4 levels; all multisets of 1-3 + 1-3 scores over 7 levels',
         'thorough': '0/1 sequences of up to 14 values, sequences of up to 7 values over 4 levels, multisets of 1-4 + 1-4 scores'}
ASSUMPTIONS = ['the 1e-6 ramp that keeps optimised ratios increasing is allowed for']
CHUNK = 1
LEVELS = [-120.0, -2.0, -0.5, 0.0, 1.0, 4.0, 800.0]


def cases(tier):
    top, top4, tm = (11, 5, 3) if tier == 'quick' else (14, 7, 4)
    for n in range(1, top + 1):
        m = 1 if n < 9 else 4 if n < 12 else 32
        for i in range(m):
            yield dict(kind='bin', n=n, i=i, m=m)
    for n in range(1, top4 + 1):
        for v in range(4):
            yield dict(kind='lev', n=n, v=v)
    for t in metr.multisets(LEVELS, 1, tm):
        yield dict(kind='llr', t=list(t), top=tm)


def run_case(ck, c):
    if c['kind'] == 'bin':
        for k, y in enumerate(itertools.product((0, 1), repeat=c['n'])):
            if k % c['m'] == c['i']:
                w = metr.pav(y)
                fit(ck, y, w, float)
                if c['n'] <= 8:
                    fit(ck, y, w, int)
                    fit(ck, y, w, bool)
                    fit(ck, y, w, 'float32')
    elif c['kind'] == 'lev':
        L = (-1.5, 0.0, 0.25, 2.0)
        for r in itertools.product(L, repeat=c['n'] - 1):
            y = (L[c['v']],) + r
            fit(ck, y, metr.pav(y), float)
    else:
        for s in metr.multisets(LEVELS, 1, c['top']):
            try:
                llr(ck, c['t'], list(s))
            except Exception as e:
                ck.fail('targets %s, non-targets %s: %s: %s' % (c['t'], s, type(e).__name__, e))


def fit(ck, y, want, dtype):
    from hyperion.metrics.utils import pavx
    a = np.array(y, dtype=dtype)
    b = a.copy()
    g, w, h = pavx(a)
    want = [float(v) for v in want]
    tol = 1e-5 if dtype == 'float32' else 1e-9
    msg = 'fit of %s (%s)' % (list(y), dtype)
    ck.close(g, want, msg, rtol=tol, atol=tol)
    ck.eq(int(np.sum(w)), len(y), 'widths of the blocks, ' + msg)
    ck.close(np.repeat(h, w), want, 'blocks, ' + msg, rtol=tol, atol=tol)
    ck.check(np.all(np.diff(h) > 0), lambda: 'the heights do not increase: %s, %s' % (h, msg))
    ck.eq(a, b, 'the input was changed, ' + msg)
    ck.step()
    ck.trace()
    ck.state([round(v, 9) for v in want])


def xlog(v):
    """log(1 + exp(-v)) without overflow"""
    return float(np.logaddexp(0.0, -v))


def cllr_ref(t, s):
    return (np.mean([xlog(v) for v in t]) + np.mean([xlog(-v) for v in s])) / np.log(2) / 2


def pav_llr(t, s, laplace):
    """optimal ratio of each distinct score"""
    lev = sorted(set(t) | set(s))
    b = metr.blocks_of(t, s)
    y = [1, 0] if laplace else []
    pos = {}
    for v, (x, z) in zip(lev, b):
        pos[v] = len(y)
        y += [1] * x + [0] * z
    if laplace:
        y += [1, 0]
    p = metr.pav(y)
    out = {}
    for v in lev:
        q = float(p[pos[v]])
        with np.errstate(divide='ignore'):
            out[v] = np.log(q) - np.log(1 - q) - np.log(len(t) / len(s))
    return out


MAPS = [lambda v: v, lambda v: 0.0 * v, lambda v: 0.1 * v, lambda v: v - 1.0, lambda v: 0.5 * v + 1.0, lambda v: np.sign(v),
        lambda v: 3.0 * (v > 0) - 1.0]


def llr(ck, t, s):
    from hyperion.metrics.cllr import compute_cllr, compute_min_cllr
    from hyperion.metrics.utils import opt_loglr
    t, s = t[1:] + t[:1], s[::-1]
    tar, non = np.array(t), np.array(s)
    c = float(compute_cllr(tar, non))
    ck.close(c, cllr_ref(t, s), 'cost of the ratios', rtol=1e-8, atol=1e-12)
    res = [c]
    for method in ('laplace', 'raw'):
        want = pav_llr(t, s, method == 'laplace')
        gt, gs = opt_loglr(tar, non, method)
        ck.eq(np.shape(gt), np.shape(tar), 'shape')
        ck.eq(np.shape(gs), np.shape(non), 'shape')
        for v, g in list(zip(t, gt)) + list(zip(s, gs)):
            w = want[v]
            ck.check(g == w or abs(g - w) <= 1.1e-6, lambda: '%s optimal ratio of score %s: got %s, want %s' % (method, v, g, w))
        pairs = sorted(zip(t + s, list(gt) + list(gs)))
        for (v0, g0), (v1, g1) in zip(pairs, pairs[1:]):
            ck.check(g0 <= g1 if v0 != v1 else g0 == g1 or abs(g0 - g1) < 1.1e-6, lambda: 'the optimal ratios are not a monotone function of the scores: %s' % pairs)
        ck.step()
    m = float(compute_min_cllr(tar, non))
    want = pav_llr(t, s, False)
    ck.close(m, cllr_ref([want[v] for v in t], [want[v] for v in s]), 'minimum cost', rtol=0, atol=2e-6)
    for f in MAPS:
        r = compute_cllr(f(tar), f(non))
        ck.close(float(r), cllr_ref(f(tar), f(non)), 'cost of rescaled ratios', rtol=1e-8, atol=1e-12)
        ck.check(m <= r + 2e-6, lambda: 'the minimum %s is above the cost %s of a rescaling' % (m, r))
        ck.step()
    ck.check(-1e-9 <= m <= 1 + 2e-6, 'minimum cost out of [0, 1]')
    ck.eq(tar, np.array(t), 'the scores were changed')
    ck.eq(non, np.array(s), 'the scores were changed')
    ck.state([round(c, 9), round(m, 5)])
    ck.trace()
