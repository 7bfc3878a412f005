"""M01: error rates, ROC curves, convex hulls and equal error rates against exact counting."""
import numpy as np
from mc import metr

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all weak orders of target and non-target scores up to a size, each curve compared point by point with exact counting'
BOUND = {'quick': 'all weak orders (ties in every place) of up to 7 scores with every target/non-target assignment, 3 score scales, 3 listing orders',
         'thorough': 'all weak orders of up to 9 scores'}
ASSUMPTIONS = ['scores are finite', 'tied scores may add intermediate points to compute_roc, which must never be better than the line between the two ends of the tie']
CHUNK = 1
SCALES = [lambda r: float(r), lambda r: -4.0 + 0.25 * r * r, lambda r: 1e6 + 1e-3 * r]


def cases(tier):
    top = 7 if tier == 'quick' else 9
    for n in range(2, top + 1):
        m = 1 if n < 6 else 8 if n < 8 else 64
        for i in range(m):
            yield dict(n=n, i=i, m=m)


def run_case(ck, c):
    for k, b in enumerate(metr.mixed(c['n'])):
        if k % c['m'] == c['i']:
            try:
                one(ck, b)
            except Exception as e:
                ck.fail('blocks (targets, non-targets) of equal score, ascending: %s: %s: %s' % (b, type(e).__name__, e))


def one(ck, b):
    from hyperion.metrics.roc import compute_roc, compute_rocch, rocch2eer, filter_roc, compute_area_under_rocch
    from hyperion.metrics.eer import compute_eer, compute_prbep
    pts = metr.points(b)
    H = metr.hull(pts)
    nt, nn = sum(x for x, _ in b), sum(y for _, y in b)
    want_eer = float(metr.eer(H))
    want_prb = float(metr.eer([(m * nt, f * nn) for m, f in H]))
    auc = float(sum((m1 - m0) * (f0 + f1) / 2 for (m0, f0), (m1, f1) in zip(H, H[1:])))
    first = None
    for si, sc in enumerate(SCALES):
        tar = [sc(r) for r, (x, _) in enumerate(b) for _ in range(x)]
        non = [sc(r) for r, (_, y) in enumerate(b) for _ in range(y)]
        for li in range(3 if si == 0 else 1):
            t = np.array([tar, tar[::-1], tar[1:] + tar[:1]][li])
            s = np.array([non, non[::-1], non[-1:] + non[:-1]][li])
            t0, s0 = t.copy(), s.copy()
            pm, pf = compute_roc(t, s)
            roc(ck, b, pts, np.asarray(pm), np.asarray(pf))
            hm, hf = compute_rocch(t, s)
            hullcheck(ck, H, np.asarray(hm), np.asarray(hf))
            e = float(rocch2eer(hm, hf))
            ck.close(e, want_eer, 'equal error rate of the hull', rtol=1e-9, atol=1e-12)
            ck.close(float(compute_eer(t, s)), want_eer, 'equal error rate', rtol=1e-9, atol=1e-12)
            ck.close(float(compute_prbep(t, s)), want_prb, 'break-even point', rtol=1e-9, atol=1e-9)
            ck.close(float(compute_area_under_rocch(hm, hf)), auc, 'area under the hull', rtol=1e-9, atol=1e-12)
            for a, bb in ((pm, pf), (hm, hf)):
                fm, ff = filter_roc(a.copy(), bb.copy())
                path(ck, a, bb, np.asarray(fm), np.asarray(ff))
            ck.eq(t, t0, 'the target scores were changed')
            ck.eq(s, s0, 'the non-target scores were changed')
            r = (np.round(hm, 12), np.round(hf, 12), round(e, 12))
            if first is None:
                first = r
            else:
                ck.eq(r, first, 'result after another listing or a monotone map of the scores')
            ck.step(7)
    ck.state(first)
    ck.trace()


def roc(ck, b, pts, pm, pf):
    n = sum(x + y for x, y in b)
    ck.eq(pm.shape, (n + 1,), 'number of points')
    ck.eq(pf.shape, (n + 1,), 'number of points')
    ck.check(np.all(np.diff(pm) >= 0) and np.all(np.diff(pf) <= 0), lambda: 'the curve is not monotone: %s %s' % (pm, pf))
    i = 0
    for j, (m, f) in enumerate(pts):
        if j:
            m0, f0 = pts[j - 1]
            k = b[j - 1][0] + b[j - 1][1]
            for q in range(i + 1, i + k):
                # not better than the chord of the tie
                v = (float(m - m0)) * (pf[q] - float(f0)) - (float(f - f0)) * (pm[q] - float(m0))
                ck.check(v >= -1e-12, lambda: 'point %d is better than any decision between tied scores can be: %s %s' % (q, pm, pf))
            i += k
        ck.check(abs(pm[i] - float(m)) < 1e-12 and abs(pf[i] - float(f)) < 1e-12,
                 lambda: 'rates with %d scores below the threshold: got (%s, %s), want (%s, %s)' % (i, pm[i], pf[i], m, f))


def hullcheck(ck, H, hm, hf):
    ck.check(hm.shape == hf.shape and hm.ndim == 1, 'shape of the hull')
    ck.check(np.all(np.diff(hm) >= 0) and np.all(np.diff(hf) <= 0), lambda: 'the hull is not monotone: %s %s' % (hm, hf))
    Hf = [(float(m), float(f)) for m, f in H]
    for m, f in Hf:
        ck.check(np.any((abs(hm - m) < 1e-9) & (abs(hf - f) < 1e-9)), lambda: 'vertex (%s, %s) of the hull is missing: %s %s' % (m, f, hm, hf))
    for m, f in zip(hm, hf):
        ok = False
        for (m0, f0), (m1, f1) in zip(Hf, Hf[1:]):
            if m0 - 1e-9 <= m <= m1 + 1e-9 and f1 - 1e-9 <= f <= f0 + 1e-9:
                if abs((m1 - m0) * (f - f0) - (f1 - f0) * (m - m0)) < 1e-9:
                    ok = True
        ck.check(ok, lambda: 'point (%s, %s) is not on the convex hull %s' % (m, f, Hf))


def path(ck, m, f, fm, ff):
    """The filtered curve is the same polyline and made of points of the original one."""
    ck.check(fm.shape == ff.shape and len(fm) >= 1 and len(fm) <= len(m), lambda: 'shape of the filtered curve %s' % (fm,))
    P = list(zip(m, f))
    Q = list(zip(fm, ff))
    ck.check(Q[0] == P[0] and Q[-1] == P[-1], lambda: 'ends of the filtered curve: %s of %s' % (Q, P))
    ck.check(all(q in P for q in Q), lambda: 'the filtered curve has new points: %s of %s' % (Q, P))
    for p in P:
        ok = any(min(a[0], c[0]) - 1e-12 <= p[0] <= max(a[0], c[0]) + 1e-12 and min(a[1], c[1]) - 1e-12 <= p[1] <= max(a[1], c[1]) + 1e-12
                 and abs((c[0] - a[0]) * (p[1] - a[1]) - (c[1] - a[1]) * (p[0] - a[0])) < 1e-12 for a, c in zip(Q, Q[1:])) or p in Q
        ck.check(ok, lambda: 'point %s is not on the filtered curve %s' % (p, Q))
