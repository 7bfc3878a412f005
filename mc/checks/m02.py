"""M02: detection costs against counting, minimum over every threshold."""
import numpy as np
from mc import metr

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of score multisets over levels placed between, on and beyond the Bayes thresholds, costs compared with exact counting over every threshold'
BOUND = {'quick': 'all multisets of 1-3 target and 1-3 non-target scores over 6 levels, 7 priors and 6 prior lists, normalised or not',
         'thorough': 'all multisets of 1-4 target and 1-4 non-target scores over 7 levels'}
ASSUMPTIONS = ['priors are strictly between 0 and 1; the actual cost takes prior lists in ascending order, as its documentation asks']
CHUNK = 1
LEVELS = [-5.0, -1.0, 0.0, 1.0, 3.0, 6.0]
PRIORS = [0.001, 0.01, 0.1, 0.3, 0.5, 0.9, 0.99]
LISTS = [[0.01, 0.1], [0.01, 0.01], [0.1, 0.5, 0.5, 0.9], [0.5], [0.001, 0.01, 0.1, 0.3, 0.5, 0.9, 0.99], [0.5, 0.5]]
UNORDERED = [[0.5, 0.01], [0.9, 0.1, 0.5]]


def cases(tier):
    top, lev = (3, LEVELS) if tier == 'quick' else (4, LEVELS + [30.0])
    for t in metr.multisets(lev, 1, top):
        yield dict(t=list(t), lev=lev, top=top)
    yield dict(eff=1)


def run_case(ck, c):
    if 'eff' in c:
        from hyperion.metrics import effective_prior
        for p in PRIORS:
            for cm in (0.1, 1.0, 10.0):
                for cf in (0.5, 1.0, 100.0):
                    ck.close(effective_prior(p, cm, cf), p * cm / (p * cm + (1 - p) * cf), 'effective prior', rtol=1e-12)
                    ck.step()
        ck.trace()
        return
    for non in metr.multisets(c['lev'], 1, c['top']):
        try:
            one(ck, c['t'], list(non))
        except Exception as e:
            ck.fail('targets %s, non-targets %s: %s: %s' % (c['t'], non, type(e).__name__, e))


def one(ck, t, s):
    from hyperion.metrics import compute_dcf, compute_min_dcf, compute_act_dcf, fast_eval_dcf_eer, compute_eer, compute_prbep
    # list the scores in an order that is not sorted
    t, s = t[1:] + t[:1], s[::-1]
    tar, non = np.array(t), np.array(s)
    pts = [(float(m), float(f)) for m, f in metr.points(metr.blocks_of(t, s))]
    H = [(float(m), float(f)) for m, f in metr.hull(metr.points(metr.blocks_of(t, s)))]
    nt, nn = len(t), len(s)

    def ref(p, norm):
        z = min(p, 1 - p) if norm else 1.0
        mn = min(p * m + (1 - p) * f for m, f in pts) / z
        thr = -np.log(p) + np.log(1 - p)
        if p == 0.5:
            thr = 0.0
        m = sum(1 for v in t if v < thr) / nt
        f = sum(1 for v in s if v >= thr) / nn
        return mn, (p * m + (1 - p) * f) / z, m, f

    pm = np.array([q[0] for q in H])
    pf = np.array([q[1] for q in H])
    eer, prb = compute_eer(tar, non), compute_prbep(tar, non)
    for norm in (True, False):
        R = {p: ref(p, norm) for p in PRIORS}
        for p in PRIORS:
            mn, ac, m, f = R[p]
            z = min(p, 1 - p) if norm else 1.0
            d = compute_dcf(pm, pf, p, norm)
            ck.close(d, (p * pm + (1 - p) * pf) / z, 'cost at given rates', rtol=1e-9)
            got, gm, gf = compute_min_dcf(tar, non, p, norm)
            ck.close(float(got), mn, 'minimum cost, prior %s' % p, rtol=1e-9)
            ck.close((p * float(gm) + (1 - p) * float(gf)) / z, mn, 'rates of the minimum cost', rtol=1e-9)
            ck.check(any(abs(gm - a) < 1e-9 and abs(gf - b) < 1e-9 for a, b in pts), lambda: 'the rates (%s, %s) of the minimum are not an operating point' % (gm, gf))
            got, gm, gf = compute_act_dcf(tar, non, p, norm)
            ck.close(np.asarray(got).ravel(), [ac], 'actual cost, prior %s' % p, rtol=1e-9)
            ck.close(np.asarray(gm).ravel(), [m], 'miss rate at the Bayes threshold', rtol=1e-9)
            ck.close(np.asarray(gf).ravel(), [f], 'false alarm rate at the Bayes threshold', rtol=1e-9)
            ck.check(float(np.ravel(got)[0]) >= mn - 1e-9, 'actual cost below the minimum')
            a, b, e, q = fast_eval_dcf_eer(tar, non, p, norm)
            ck.close(np.ravel(a), [mn], 'fast minimum cost', rtol=1e-9)
            ck.close(np.ravel(b), [ac], 'fast actual cost', rtol=1e-9)
            ck.close([e, q], [eer, prb], 'fast error rates', rtol=1e-9)
            ck.step(4)
        for P in LISTS + UNORDERED:
            arg = np.array(P)
            d = compute_dcf(pm, pf, arg, norm)
            z = np.minimum(arg, 1 - arg) if norm else np.ones(len(P))
            ck.close(d, [(p * pm + (1 - p) * pf) / zz for p, zz in zip(P, z)], 'cost matrix', rtol=1e-9)
            got, gm, gf = compute_min_dcf(tar, non, arg, norm)
            ck.close(got, [R[p][0] for p in P], 'minimum costs of priors %s' % P, rtol=1e-9)
            ck.close((arg * gm + (1 - arg) * gf) / z, [R[p][0] for p in P], 'rates of the minimum costs', rtol=1e-9)
            ck.step(2)
            if P in UNORDERED:
                continue
            got, gm, gf = compute_act_dcf(tar, non, arg, norm)
            ck.close(np.ravel(got), [R[p][1] for p in P], 'actual costs of priors %s' % P, rtol=1e-9)
            ck.close(np.ravel(gm), [R[p][2] for p in P], 'miss rates of priors %s' % P, rtol=1e-9)
            ck.close(np.ravel(gf), [R[p][3] for p in P], 'false alarm rates of priors %s' % P, rtol=1e-9)
            a, b, e, q = fast_eval_dcf_eer(tar, non, arg, norm)
            ck.close(np.ravel(a), [R[p][0] for p in P], 'fast minimum costs', rtol=1e-9)
            ck.close(np.ravel(b), [R[p][1] for p in P], 'fast actual costs', rtol=1e-9)
            ck.close([e, q], [eer, prb], 'fast error rates', rtol=1e-9)
            ck.eq(arg, np.array(P), 'the priors were changed')
            ck.step(3)
        ck.state([round(x, 12) for p in PRIORS for x in R[p]])
    ck.eq(tar, np.array(t), 'the scores were changed')
    ck.eq(non, np.array(s), 'the scores were changed')
    ck.trace()
