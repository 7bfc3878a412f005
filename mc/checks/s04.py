"""S04: exponential-family densities and mixtures."""
import itertools
import math
import os
import numpy as np
from mc.pldam import loggauss

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of models, data sets, batchings, segmentations and training histories on the real densities and mixtures against sums over frames of explicit Gaussian densities'
BOUND = {
    'quick': '5 kinds of model, 1 to 3 components, 1 to 3 values over a parameter grid; statistics with every batch size, weights, all segments, all segment lengths and shifts of up to 6 frames, all divisions in pieces; '
             'training: all multisets of 6 values of a 4-value grid and a family of 2-value sets x all sets of updated parameters x floors x minimum counts, 4 iterations each compared with explicit expectation-maximisation',
    'thorough': '8 frames; training sets of 7 values, 8 iterations'}
ASSUMPTIONS = ['weights are floored to 1e-15', 'every kept component has a non-singular covariance or a variance floor', 'the bound of a mixture is the expected complete-data log-likelihood (without the entropy of the responsibilities)']
CHUNK = 1
KINDS = ('Normal', 'DiagNormal', 'GMM', 'DiagGMM', 'DiagGMMTiedCov')
FULL = ('Normal', 'GMM')
MU = {1: [[0.5], [-1.0], [2.5]], 2: [[0.5, -1.0], [-1.0, 2.0], [2.5, 0.25]], 3: [[0.5, -1.0, 2.0], [-1.0, 2.0, 0.25], [2.5, 0.0, -0.5]]}
LF = {1: [[[2.0]], [[0.5]], [[1.0]]], 2: [[[2.0, 0.5], [0.5, 1.0]], [[0.5, -0.25], [-0.25, 4.0]], [[1.0, 0.0], [0.0, 1.0]]],
      3: [[[2.0, 0.5, -0.25], [0.5, 1.0, 0.25], [-0.25, 0.25, 0.5]], [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 0.5]], [[3.0, -1.0, 0.5], [-1.0, 2.0, 0.0], [0.5, 0.0, 1.0]]]}
PI = {1: [[1.0]], 2: [[0.25, 0.75], [0.5, 0.5], [1.0, 0.0]], 3: [[0.25, 0.5, 0.25], [0.125, 0.0, 0.875]]}
G = {1: np.array([[v] for v in (-2.0, -0.5, 0.0, 1.0, 3.0)]), 2: np.array(list(itertools.product((-1.5, 0.25, 2.0), repeat=2))),
     3: np.array(list(itertools.product((-1.0, 1.5), repeat=3)))}


def cls(k):
    from hyperion.pdfs import core as C, mixtures as M
    return getattr(C, k, None) or getattr(M, k)


def std(kind, d, perm, pi):
    """pi, mu, precision in the layout of the model"""
    K = len(pi)
    mu = np.array([MU[d][p] for p in perm[:K]])
    L = np.array([LF[d][p] for p in perm[:K]])
    if kind not in FULL:
        L = np.array([np.diag(a) for a in L])
    if kind == 'DiagGMMTiedCov':
        L = L[0]
    if kind in ('Normal', 'DiagNormal'):
        mu, L = mu[0], L[0]
    return np.array(pi), mu, L


def make(kind, d, pi, mu, L, **kw):
    if kind in ('Normal', 'DiagNormal'):
        return cls(kind)(x_dim=d, mu=mu.copy(), Lambda=L.copy(), **kw)
    return cls(kind)(x_dim=d, pi=pi.copy(), mu=mu.copy(), Lambda=L.copy(), **kw)


def comps(kind, pi, mu, L):
    """list of (weight, mean, covariance)"""
    if kind in ('Normal', 'DiagNormal'):
        pi, mu, L = [1.0], mu[None], L[None]
    if kind == 'DiagGMMTiedCov':
        L = np.array([L] * len(pi))
    if kind not in FULL:
        L = np.array([np.diag(a) for a in L])
    return [(w, m, np.linalg.inv(a)) for w, m, a in zip(pi, mu, L)]


def lkcomp(cs, x):
    """frames x components: log weight + log density"""
    return np.array([[math.log(w + 1e-15) + loggauss(f - m, S) for w, m, S in cs] for f in x])


def lse(a):
    m = a.max(axis=1, keepdims=True)
    return (m + np.log(np.exp(a - m).sum(axis=1, keepdims=True)))[:, 0]


def suff(kind, x):
    d = x.shape[1]
    if kind in FULL:
        return np.array([np.hstack((f, [f[i] * f[j] for i in range(d) for j in range(i, d)])) for f in x])
    return np.array([np.hstack((f, f * f)) for f in x])


def models(tier, dims=(1, 2, 3)):
    for kind in KINDS:
        for d in dims:
            for perm in itertools.permutations(range(3)):
                for K in ((1,) if kind in ('Normal', 'DiagNormal') else (1, 2, 3)):
                    if K < 3 and perm[K:] != tuple(sorted(perm[K:])):
                        continue
                    for i, pi in enumerate(PI[K]):
                        yield kind, d, list(perm), pi


def cases(tier):
    q = tier == 'quick'
    for i, (kind, d, perm, pi) in enumerate(models(tier)):
        yield dict(kind='params', m=kind, d=d, perm=perm, pi=pi)
        if perm in ([0, 1, 2], [1, 0, 2], [2, 0, 1]):
            yield dict(kind='stats', m=kind, d=d, perm=perm, pi=pi, n=(5 if d > 1 else 6) if q else 8)
    for k in KINDS[2:]:
        for flags in itertools.product((True, False), repeat=3):
            for K in (1, 2, 3):
                for init in (0, 1):
                    yield dict(kind='em1', m=k, K=K, flags=list(flags), init=init, n=6 if q else 7, it=4 if q else 8)
            for opts in range(4):
                yield dict(kind='em2', m=k, flags=list(flags), opts=opts, it=4 if q else 8)
    for k in KINDS[:2]:
        for flags in itertools.product((True, False), repeat=2):
            yield dict(kind='ml', m=k, flags=list(flags), n=5 if q else 6)
    for k in KINDS[2:]:
        yield dict(kind='init', m=k, n=6 if q else 7)
        yield dict(kind='gen', m=k)
        yield dict(kind='split', m=k)
        yield dict(kind='kaldi', m=k)
    yield dict(kind='sample')


def run_case(ck, c):
    with np.errstate(all='ignore'):
        globals()[c['kind']](ck, c)
    ck.trace()


def mixture(kind):
    return kind not in ('Normal', 'DiagNormal')


def params(ck, c):
    kind, d = c['m'], c['d']
    pi, mu, L = std(kind, d, c['perm'], c['pi'])
    m = make(kind, d, pi, mu, L)
    cs = comps(kind, pi, mu, L)
    x = G[d]
    what = '%s with weights %s, means %s, precisions %s' % (kind, pi.tolist(), mu.tolist(), L.tolist())
    lk = lkcomp(cs, x)
    want = lse(lk)
    ck.close(m.log_prob(x), want, what + ': log-likelihood', rtol=1e-9, atol=1e-7)
    ck.close(m.log_prob_std(x), want, what + ': log-likelihood from standard parameters', rtol=1e-9, atol=1e-7)
    ck.close(m.eval_llk(x), want, what + ': eval_llk', rtol=1e-9, atol=1e-7)
    ck.close(m.log_prob(x, m.compute_suff_stats(x)), want, what + ': log-likelihood with given statistics', rtol=1e-9, atol=1e-7)
    ck.close(m.compute_suff_stats(x), suff(kind, x), what + ': statistics of frames', rtol=0, atol=0)
    for i in range(len(x)):
        ck.close(m.log_prob(x[i:i + 1]), want[i:i + 1], what + ': log-likelihood of a single frame', rtol=1e-9, atol=1e-7)
    ck.step()
    # conversions
    C = cls(kind)
    eta = C.compute_eta(mu, L)
    ck.close(m.eta, eta, what + ': natural parameters', rtol=1e-12, atol=1e-12)
    mu2, L2 = C.compute_std(eta)
    ck.close(mu2, mu, what + ': means from natural parameters', rtol=1e-9, atol=1e-9)
    ck.close(L2, L, what + ': precisions from natural parameters', rtol=1e-9, atol=1e-9)
    A = np.array([0.5 * d * math.log(2 * math.pi) + 0.5 * np.linalg.slogdet(S)[1] + 0.5 * u.dot(np.linalg.solve(S, u)) for w, u, S in cs])
    if not mixture(kind):
        A = A[0]
    ck.close(m.A, A, what + ': normaliser', rtol=1e-9, atol=1e-9)
    ck.close(C.compute_A_nat(eta), A, what + ': normaliser from natural parameters', rtol=1e-9, atol=1e-9)
    ck.close(C.compute_A_std(mu, L), A, what + ': normaliser from standard parameters', rtol=1e-9, atol=1e-9)
    ck.close(C.compute_suff_stats(x).dot(eta if not mixture(kind) else eta.T) - A, np.array([[loggauss(f - u, S) for w, u, S in cs] for f in x])[:, 0] if not mixture(kind) else
             np.array([[loggauss(f - u, S) for w, u, S in cs] for f in x]), what + ': inner product of parameters and statistics', rtol=1e-9, atol=1e-9)
    m2 = C(x_dim=d, eta=eta.copy()) if not mixture(kind) else C(x_dim=d, pi=pi.copy(), eta=eta.copy())
    if not mixture(kind):
        m2.initialize()
    ck.close(m2.log_prob(x), want, what + ': from natural parameters', rtol=1e-9, atol=1e-7)
    ck.close(m2.log_prob_std(x), want, what + ': from natural parameters, standard form', rtol=1e-9, atol=1e-7)
    ck.close(m2.mu, mu, what + ': means', rtol=1e-9, atol=1e-9)
    S = np.linalg.inv(L) if kind in FULL else 1 / L
    for a in (m, m2):
        ck.close(a.Sigma, S, what + ': covariances', rtol=1e-9, atol=1e-9)
        ld = np.linalg.slogdet(L)[1] if kind in FULL else np.log(L).sum(axis=-1)
        ck.close(a.logLambda, ld, what + ': log-determinants', rtol=1e-9, atol=1e-9)
        ch = a.cholLambda
        if kind in FULL:
            ck.close(np.matmul(ch, np.swapaxes(ch, -1, -2)), L, what + ': square root of the precision', rtol=1e-9, atol=1e-9)
        else:
            ck.close(ch ** 2, L, what + ': square root of the precision', rtol=1e-9, atol=1e-9)
    ck.step()
    if mixture(kind):
        r = np.exp(lk - want[:, None])
        for z in (m.compute_pz(x), m.compute_pz_nat(x), m.compute_pz_std(x), m.compute_pz(x, mode='std'), m.compute_pz(x, m.compute_suff_stats(x))):
            ck.check(bool(np.all(z >= 0)), what + ': negative responsibilities')
            ck.close(z.sum(axis=1), np.ones(len(x)), what + ': responsibilities sum', rtol=1e-12, atol=1e-12)
            ck.close(z, r, what + ': responsibilities', rtol=1e-7, atol=1e-9)
        # n best
        K = len(pi)
        for nb in range(1, K + 1):
            s = np.sort(lk, axis=1)[:, -nb:]
            ck.close(m.log_prob_nbest(x, nbest=nb), lse(s), what + ': best %d components' % nb, rtol=1e-9, atol=1e-7)
            for sel in itertools.combinations(range(K), nb):
                if True:
                    ck.close(m.log_prob_nbest(x, nbest_mode='other', nbest=list(sel)), lse(lk[:, list(sel)]), what + ': components %s' % (sel,), rtol=1e-9, atol=1e-7)
    if kind not in FULL:
        cdf = [[(math.log(w) if w > 0 else -np.inf) + sum(math.log(max(0.5 * math.erfc(-(f[j] - u[j]) / math.sqrt(2 * S[j, j])), 1e-300)) for j in range(d)) for w, u, S in cs] for f in x]
        ck.close(np.exp(m.log_cdf(x)), np.exp(lse(np.array(cdf))), what + ': cumulative distribution', rtol=1e-6, atol=1e-8)
    # whitened statistics
    if mixture(kind):
        N, u = m.accum_suff_stats(x)
    else:
        N, u = m.accum_suff_stats(x)
    for o2 in (False, True):
        N2, un = m.norm_suff_stats(N, u.copy(), return_order2=o2)
        ck.close(N2, N, what + ': counts of whitened statistics')
        for k in range(len(cs)):
            w, mean, S = cs[k]
            nk, uk, unk = (N[k], u[k], un[k]) if mixture(kind) else (N, u, un)
            ch = (m.cholLambda[k] if kind in ('GMM', 'DiagGMM') else m.cholLambda)
            if kind not in FULL:
                ch = np.diag(ch)
            F = uk[:d] - nk * mean
            ck.close(unk[:d], F.dot(ch), what + ': whitened first-order statistics', rtol=1e-7, atol=1e-7)
            if o2:
                if kind in FULL:
                    SS = np.zeros((d, d))
                    iu = [(i, j) for i in range(d) for j in range(i, d)]
                    for (i, j), v in zip(iu, uk[d:]):
                        SS[i, j] = SS[j, i] = v
                    Fm = np.outer(uk[:d], mean)
                    SS = ch.T.dot(SS - Fm - Fm.T + nk * np.outer(mean, mean)).dot(ch)
                    ws = np.array([SS[i, j] for i, j in iu])
                else:
                    ws = (uk[d:] - 2 * mean * uk[:d] + nk * mean ** 2) / np.diag(S)
                ck.close(unk[d:], ws, what + ': whitened second-order statistics', rtol=1e-7, atol=1e-7)
            else:
                ck.check(unk.shape == (d,), what + ': shape of first-order statistics')
    ck.close(m.log_prob(x), want, what + ': log-likelihood again', rtol=1e-9, atol=1e-7)
    ck.step()
    ck.state((kind, d, c['perm'], c['pi']))


def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        r, last = [], 0
        for i, b in enumerate(bits):
            if b:
                r.append((last, i + 1))
                last = i + 1
        r.append((last, n))
        yield r


def stats(ck, c):
    kind, d, n = c['m'], c['d'], c['n']
    pi, mu, L = std(kind, d, c['perm'], c['pi'])
    m = make(kind, d, pi, mu, L)
    cs = comps(kind, pi, mu, L)
    g = G[d]
    x = np.array([g[(3 * i + c['perm'][0]) % len(g)] for i in range(n)])
    ux = suff(kind, x)
    lk = lkcomp(cs, x)
    z = np.exp(lk - lse(lk)[:, None])
    what = '%s with %d components of %d values' % (kind, len(cs), d)
    mix = mixture(kind)
    sws = [None, np.array([(0.5, 1.0, 0.0, 2.0, 3.0, 0.25, 1.5, 1.0)[i] for i in range(n)])]

    def ref(sel, sw):
        w = np.ones(n) if sw is None else sw
        N = sum((w[i] * z[i] for i in sel), np.zeros(len(cs)))
        U = sum((w[i] * np.outer(z[i], ux[i]) for i in sel), np.zeros((len(cs), ux.shape[1])))
        return (N, U) if mix else (N[0], U[0])

    def cmp(got, want, w2):
        ck.close(got[0], want[0], w2 + ': counts', rtol=1e-8, atol=1e-8)
        ck.close(got[1], want[1], w2 + ': statistics', rtol=1e-8, atol=1e-8)
        ck.step()
    x0 = x.copy()
    for si, sw in enumerate(sws):
        tot = ref(range(n), sw)
        w1 = what + (', weighted' if si else '')
        for b in [None] + list(range(1, n + 2)):
            cmp(m.accum_suff_stats(x, sample_weight=sw, batch_size=b), tot, '%s, batches of %s' % (w1, b))
            cmp(m.Estep(x, sample_weight=sw, batch_size=b), tot, '%s, E-step in batches of %s' % (w1, b))
        cmp(m.accum_suff_stats(x, u_x=ux, sample_weight=sw), tot, w1 + ', given statistics')
        cmp(m.Estep(x, u_x=ux, sample_weight=sw, batch_size=2), tot, w1 + ', given statistics')
        # pieces
        for cuts in compositions(n):
            parts = [m.accum_suff_stats(x[a:b], sample_weight=None if sw is None else sw[a:b]) for a, b in cuts]
            keep = [(np.array(p[0]), p[1].copy()) for p in parts]
            add = m.sum_suff_stats if mix else m.add_suff_stats
            cmp(add([p[0] for p in parts], [p[1] for p in parts]), tot, '%s, pieces %s' % (w1, cuts))
            for p, k in zip(parts, keep):
                ck.check(np.array_equal(p[0], k[0]) and np.array_equal(p[1], k[1]), '%s, pieces %s: the pieces changed when added' % (w1, cuts))
        # the bound
        lw = np.where(np.isfinite(lk), lk, 0.0)
        wv = np.ones(n) if sw is None else sw
        el = float((wv[:, None] * z * lw).sum())
        for b in (None, 1, 2, n):
            ck.close(m.elbo(x, sample_weight=sw, batch_size=b), el, '%s: bound, batches of %s' % (w1, b), rtol=1e-8, atol=1e-6)
        ck.check(el <= float((wv * lse(lk)).sum()) + 1e-9, what + ': bound')
        if not mix:
            continue
        # segments
        segs = [(a, b) for a in range(n) for b in range(a, n)]
        for b in (None, 1, 2, n + 1):
            N, U = m.accum_suff_stats_segments(x, segs, sample_weight=sw, batch_size=b)
            ck.check(N.shape[0] == len(segs), what + ': number of segments')
            for i, s in enumerate(segs):
                cmp((N[i], U[i]), ref(range(s[0], s[1] + 1), sw), '%s, segment %s, batches of %s' % (w1, s, b))
        N, U = m.accum_suff_stats_segments(x, segs, u_x=ux, sample_weight=sw)
        for i, s in enumerate(segs):
            cmp((N[i], U[i]), ref(range(s[0], s[1] + 1), sw), '%s, segment %s, given statistics' % (w1, s))
        for rows in ([], [3], [1, 4], list(range(n))):
            for np_ in (1, 2, 3):
                prob = np.zeros((n, np_))
                for i in range(n):
                    prob[i] = [(0.0, 0.25, 1.0, 0.5, 0.75)[(i + 2 * j + len(rows)) % 5] for j in range(np_)]
                for b in (None, 1, 2, 3, n + 1):
                    N, U = m.accum_suff_stats_segments_prob(x, prob, sample_weight=sw, batch_size=b)
                    for j in range(np_):
                        cmp((N[j], U[j]), ref(range(n), prob[:, j] * wv), '%s, segment probabilities %s, batches of %s' % (w1, prob[:, j], b))
                N, U = m.accum_suff_stats_segments_prob(x, prob, u_x=ux, sample_weight=sw)
                for j in range(np_):
                    cmp((N[j], U[j]), ref(range(n), prob[:, j] * wv), '%s, segment probabilities, given statistics' % w1)
        for fl in range(1, n + 1):
            for fs in range(1, n + 1):
                num = (n - fl) // fs + 1
                for b in (None,) + tuple(range(1, n + 2)):
                    w2 = '%s, segments of %d frames each %d, batches of %s' % (w1, fl, fs, b)
                    N, U = m.accum_suff_stats_sorttime(x, fl, fs, sample_weight=sw, batch_size=b)
                    ck.check(N.shape[0] == num and U.shape[0] == num, w2 + ': %d segments' % N.shape[0])
                    for j in range(num):
                        cmp((N[j], U[j]), ref(range(j * fs, j * fs + fl), sw), w2 + ', segment %d' % j)
    ck.check(np.array_equal(x, x0), what + ': data changed')
    ck.state((kind, d, c['perm'], c['pi']))


def refmstep(kind, N, F, SS, par, flags, var_floor, min_N):
    """explicit M-step. N counts, F first order, SS second order matrices."""
    pi, mu, L = [a.copy() for a in par]
    um, uL, up = flags
    K = len(N)
    small = [N[k] < min_N or N[k] == 0 for k in range(K)]
    N = np.array([0.0 if s else v for s, v in zip(small, N)])
    mu = mu.copy()
    if um:
        for k in range(K):
            mu[k] = 0 if small[k] else F[k] / N[k]
    if uL:
        C = [None if small[k] else SS[k] / N[k] - np.outer(F[k], mu[k]) / N[k] - np.outer(mu[k], F[k]) / N[k] + np.outer(mu[k], mu[k]) for k in range(K)]
        mean = sum(a for a in C if a is not None) / sum(1 for a in C if a is not None)
        if kind == 'GMM':
            fl = var_floor * mean
            ch = np.linalg.cholesky(fl)
            for k in range(K):
                if small[k]:
                    L[k] = np.eye(len(fl))
                else:
                    ic = np.linalg.inv(ch)
                    w, v = np.linalg.eigh(ic.dot(C[k]).dot(ic.T))
                    T = ch.dot(v)
                    L[k] = np.linalg.inv((T * np.maximum(w, 1)).dot(T.T))
        else:
            v = [None if a is None else np.maximum(np.diag(a), var_floor * np.diag(mean)) for a in C]
            if kind == 'DiagGMM':
                for k in range(K):
                    L[k] = 1.0 if small[k] else 1 / v[k]
            else:
                L = 1 / (sum(N[k] * v[k] for k in range(K) if not small[k]) / N.sum())
    if up:
        pi = N / N.sum()
    return pi, mu, L


def refstep(kind, par, x, w, flags, var_floor, min_N):
    cs = comps(kind, *par)
    lk = lkcomp(cs, x)
    z = np.exp(lk - lse(lk)[:, None]) * w[:, None]
    N = z.sum(axis=0)
    F = z.T.dot(x)
    SS = [np.einsum('i,ij,ik->jk', z[:, k], x, x) for k in range(len(cs))]
    return refmstep(kind, N, F, SS, par, flags, var_floor, min_N), float((w * lse(lk)).sum()), float((z * np.where(np.isfinite(lk), lk, 0)).sum())


def follow(ck, kind, par, x, sw, flags, var_floor, min_N, it, what, batch=None, mono=True):
    """train step by step next to the reference"""
    m = make(kind, x.shape[1], *par, var_floor=var_floor, min_N=min_N, update_mu=flags[0], update_Lambda=flags[1], update_pi=flags[2])
    m1 = m.copy()
    w = np.ones(len(x)) if sw is None else sw
    last = None
    cur = par
    els = []
    for e in range(it):
        try:
            nxt, ll, el = refstep(kind, cur, x, w, flags, var_floor, min_N)
        except np.linalg.LinAlgError:
            break       # singular covariance
        if not all(np.all(np.isfinite(a)) for a in nxt):
            break
        if kind == 'GMM' and any(np.linalg.cond(a) > 1e8 for a in nxt[2]) or np.any(nxt[2] > 1e6) or (kind != 'GMM' and np.any(nxt[2] <= 0)):
            break
        got = m.fit(x, sample_weight=sw, epochs=1, batch_size=batch)
        ck.step()
        els.append(el)
        ck.close(got[0], [el], what + ', iteration %d: bound' % e, rtol=1e-6, atol=1e-6)
        ck.close(m.pi, nxt[0], what + ', iteration %d: weights' % e, rtol=1e-6, atol=1e-9)
        ck.close(m.mu, nxt[1], what + ', iteration %d: means' % e, rtol=1e-6, atol=1e-7)
        ck.close(m.Lambda, nxt[2], what + ', iteration %d: precisions' % e, rtol=1e-5, atol=1e-6)
        if mono and last is not None:
            ck.check(ll >= last - 1e-7 * abs(last) - 1e-9, what + ', iteration %d: the likelihood fell from %g to %g' % (e, last, ll))
        lk = lse(lkcomp(comps(kind, *nxt), x))
        ck.close(m.log_prob(x), lk, what + ', iteration %d: log-likelihoods' % e, rtol=1e-5, atol=1e-5)
        ck.close(m.log_prob_std(x), lk, what + ', iteration %d: log-likelihoods, standard form' % e, rtol=1e-5, atol=1e-5)
        last, cur = ll, nxt
    if els:
        g = m1.fit(x, sample_weight=sw, epochs=len(els), batch_size=2)
        ck.close(g[0], els, what + ': bounds of %d iterations at once' % len(els), rtol=1e-6, atol=1e-6)
        ck.close(g[1], np.array(els) / len(x), what + ': bounds per frame', rtol=1e-6, atol=1e-6)
        ck.close(m1.mu, cur[1], what + ': means after all iterations', rtol=1e-6, atol=1e-7)
        ck.close(m1.pi, cur[0], what + ': weights after all iterations', rtol=1e-6, atol=1e-7)
        ck.close(m1.Lambda, cur[2], what + ': precisions after all iterations', rtol=1e-5, atol=1e-6)


GV = (-2.0, -0.5, 1.0, 4.0)


def em1(ck, c):
    kind, K = c['m'], c['K']
    mus = [[-1.0], [0.5], [3.0]] if c['init'] == 0 else [[1.0], [-2.0], [0.0]]
    mus = mus[:K]
    lam = {'GMM': [[[1.0]], [[2.0]], [[0.5]]], 'DiagGMM': [[1.0], [2.0], [0.5]]}.get(kind)
    L = np.array([1.5]) if lam is None else np.array(lam[:K])
    pi = np.array({1: [1.0], 2: [0.25, 0.75], 3: [0.25, 0.25, 0.5]}[K])
    par = (pi, np.array(mus), L)
    for i, ms in enumerate(itertools.combinations_with_replacement(GV, c['n'])):
        if len(set(ms)) == 1:
            continue
        x = np.array(ms)[:, None]
        vf = (1e-3, 0.25)[i % 2]
        sw = None if i % 3 else np.array([(0.5, 1.0, 2.0, 0.25, 1.5, 1.0, 3.0)[j] for j in range(len(x))])
        mono = kind == 'DiagGMMTiedCov' and False or (vf < 0.01 and K == 1)
        follow(ck, kind, par, x, sw, c['flags'], vf, (0, 0, 0.5, 2)[i % 4] if K > 1 else 0, c['it'], '%s, data %s, update (mu, Lambda, pi) %s, floor %g%s' % (kind, ms, c['flags'], vf, '' if sw is None else ', weighted'), batch=(None, 2, 4)[i % 3], mono=mono)
        # without floor and minimum count the likelihood never falls
        if len(set(ms)) >= 3 and i % 2:
            follow(ck, kind, par, x, sw, c['flags'], 1e-9, 0, c['it'], '%s, data %s, update (mu, Lambda, pi) %s, no floor' % (kind, ms, c['flags']))
        ck.state((kind, K, ms))


def em2(ck, c):
    kind = c['m']
    for K in (2, 3):
        for shift in range(6):
            rs = np.array([G[2][(i * (shift + 2) + i * i) % 9] for i in range(9)]) + np.array([[0.125 * ((i * 5 + shift) % 7), 0.25 * ((i * 3) % 5)] for i in range(9)])
            for perm in ([0, 1, 2], [2, 1, 0]):
                pi, mu, L = std(kind, 2, perm, PI[K][0])
                sw = None if shift % 2 else np.array([0.5, 1.0, 2.0, 1.0, 0.25, 3.0, 1.0, 1.5, 0.75])
                vf, mn = ((1e-9, 0), (0.3, 0), (1e-3, 1.5), (0.8, 1))[c['opts']]
                follow(ck, kind, (pi, mu, L), rs, sw, c['flags'], vf, mn, c['it'], '%s, %d components, set %d, update %s, floor %g, minimum count %g' % (kind, K, shift, c['flags'], vf, mn), mono=c['opts'] == 0)
                ck.state((kind, K, shift, perm))


def ml(ck, c):
    """densities: maximum likelihood in closed form"""
    kind = c['m']
    um, uL = c['flags']
    g = G[2]
    for sel in itertools.combinations(range(9), c['n']):
        x = g[list(sel)]
        for sw in (None, np.array([0.5, 1.0, 2.0, 0.25, 1.5, 1.0])[:len(x)]):
            w = np.ones(len(x)) if sw is None else sw
            N = w.sum()
            mu0, L0 = np.array([0.5, -1.0]), (np.array([[2.0, 0.5], [0.5, 1.0]]) if kind == 'Normal' else np.array([2.0, 0.5]))
            mu = (w[:, None] * x).sum(axis=0) / N if um else mu0
            dl = x - mu
            C = (w[:, None] * dl).T.dot(dl) / N
            if np.linalg.cond(C) > 1e6 or (kind != 'Normal' and np.diag(C).min() < 1e-4):
                continue
            L = L0 if not uL else (np.linalg.inv(C) if kind == 'Normal' else 1 / np.diag(C))
            S = np.linalg.inv(L) if kind == 'Normal' else np.diag(1 / L)
            ll = np.array([loggauss(f - mu, S) for f in x])
            for b in (None, 1, 2, 7):
                m = make(kind, 2, None, mu0, L0, update_mu=um, update_Lambda=uL)
                m.initialize()
                what = '%s of %s%s, update %s, batches of %s' % (kind, x.tolist(), '' if sw is None else ' weighted', c['flags'], b)
                xv = g[:3]
                el = m.fit(x, sample_weight=sw, x_val=xv, batch_size=b)
                ck.close(m.mu, mu, what + ': mean', rtol=1e-8, atol=1e-9)
                ck.close(m.Lambda, L, what + ': precision', rtol=1e-7, atol=1e-8)
                ck.close(m.log_prob(x), ll, what + ': log-likelihood', rtol=1e-7, atol=1e-7)
                ck.close(m.log_prob_std(x), ll, what + ': log-likelihood, standard form', rtol=1e-7, atol=1e-7)
                ck.close(m.Sigma, S if kind == 'Normal' else np.diag(S), what + ': covariance', rtol=1e-7, atol=1e-8)
                lv = math.fsum(loggauss(f - mu, S) for f in xv)
                ck.close(el, [(w * ll).sum(), (w * ll).sum() / N, lv, lv / 3], what + ': bounds', rtol=1e-7, atol=1e-7)
                ck.step()
        ck.state((kind, sel))
    if kind != 'Normal':
        # the floor is absolute
        for vf in (1e-3, 0.5, 3.0):
            m = make(kind, 2, None, np.zeros(2), np.ones(2), var_floor=vf)
            x = np.array([[0.0, -1.0], [0.0, 1.0], [0.0, 3.0]])
            m.fit(x)
            ck.close(m.Sigma, np.maximum([0.0, x[:, 1].var()], vf), 'floor %g: variances' % vf)
            ck.close(m.Lambda, 1 / np.maximum([0.0, x[:, 1].var()], vf), 'floor %g: precisions' % vf)


def init(ck, c):
    """without parameters: moments of the data or of its k-means clusters, then training"""
    kind = c['m']
    g = list(itertools.product((-1.0, 0.0, 0.5), (-2.0, 0.25, 1.0)))
    for sel in itertools.combinations(range(9), c['n']):
        x = np.array([g[i] for i in sel])
        if np.linalg.cond(np.cov(x.T)) > 1e4 or min(x.std(axis=0)) < 0.1:
            continue
        m = cls(kind)(x_dim=2, num_comp=1)
        m.fit(x, epochs=2)
        what = '%s of %s' % (kind, x.tolist())
        ck.close(m.mu, x.mean(axis=0)[None], what + ': mean', rtol=1e-9, atol=1e-9)
        C = np.cov(x.T, bias=True)
        S = C[None] if kind == 'GMM' else (np.diag(C)[None] if kind == 'DiagGMM' else np.diag(C))
        ck.close(m.Sigma, S, what + ': covariance', rtol=1e-7, atol=1e-9)
        ck.close(m.pi, [1.0], what + ': weight')
        ck.step()
        # two clusters far apart
        far = np.vstack((x, 3 * x[::-1] + [100.0, -100.0]))
        m = cls(kind)(x_dim=2, num_comp=2)
        m.initialize(far)
        o = np.argsort(m.mu[:, 0])
        ck.close(m.pi, [0.5, 0.5], what + ', twice: weights')
        ck.close(m.mu[o], [x.mean(axis=0), 3 * x.mean(axis=0) + [100, -100]], what + ', twice: means', rtol=1e-9, atol=1e-9)
        C2 = [C, 9 * C]
        if kind == 'GMM':
            ck.close(m.Sigma[o], C2, what + ', twice: covariances', rtol=1e-6, atol=1e-8)
        elif kind == 'DiagGMM':
            ck.close(m.Sigma[o], [np.diag(a) for a in C2], what + ', twice: covariances', rtol=1e-6, atol=1e-8)
        else:
            ck.close(m.Sigma, np.diag(5 * C), what + ', twice: covariances', rtol=1e-6, atol=1e-8)
        ck.state((kind, sel))
    m = cls(kind)(x_dim=2, num_comp=1)
    m.initialize()
    ck.close(m.log_prob(G[2]), [loggauss(f, np.eye(2)) for f in G[2]], kind + ': standard normal', rtol=1e-9, atol=1e-9)


def gen(ck, c):
    """training from a generator equals training with all its data"""
    kind = c['m']
    x = np.array([G[2][(2 * i + i * i) % 9] for i in range(6)]) + np.array([[0.125 * ((i * 5) % 7), 0.25 * ((i * 3) % 5)] for i in range(6)])
    sw = np.array([0.5, 1.0, 2.0, 1.0, 0.25, 3.0])
    par = std(kind, 2, [0, 1, 2], PI[2][0])

    def sizes(k):
        return [b for b in itertools.product((1, 2, 3, 4), repeat=k) if sum(b) == 6]
    for cuts in sizes(2) + sizes(3) + sizes(4):
        for form in range(4):
            w = sw if form in (2, 3) else None
            a = make(kind, 2, *par)
            b = make(kind, 2, *par)
            full = a.fit(x, sample_weight=w, epochs=2)

            def items():
                while True:
                    i = 0
                    for n in cuts:
                        xi = x[i:i + n]
                        ui, wi = suff(kind, xi), sw[i:i + n]
                        i += n
                        yield (xi, (xi, ui), (xi, wi), (xi, ui, wi))[form]
            what = '%s, batches %s, form %d' % (kind, cuts, form)
            xv = G[2][:4]
            val = (None, xv, (xv, suff(kind, xv)), (xv, np.ones(4)))[form]
            r = b.fit_generator(items(), len(cuts), epochs=2, val_data=val)
            ck.close(r[0], full[0], what + ': bound', rtol=1e-8, atol=1e-8)
            ck.close(r[1], full[0] / (6 if w is None else w.sum()), what + ': bound per frame', rtol=1e-8, atol=1e-8)
            for k in ('pi', 'mu', 'Lambda'):
                ck.close(getattr(b, k), getattr(a, k), what + ': ' + k, rtol=1e-7, atol=1e-8)
            if val is not None:
                ck.close(r[2][-1], b.elbo(xv), what + ': bound of validation data', rtol=1e-7, atol=1e-7)
                ck.close(r[3][-1], b.elbo(xv) / 4, what + ': bound of validation data per frame', rtol=1e-7, atol=1e-7)
                f2 = make(kind, 2, *par).fit(x, sample_weight=w, epochs=2, x_val=xv)
                ck.close(f2[2], r[2], what + ': bounds of validation data', rtol=1e-7, atol=1e-7)
            ck.step()
        ck.state((kind, cuts))


def split(ck, c):
    kind = c['m']
    for d in (1, 2):
        for K0 in (1, 2, 3):
            for perm in itertools.permutations(range(3)):
                pi, mu, L = std(kind, d, list(perm), PI[K0][0])
                for K in (2, 3, 4):
                    kw = dict(var_floor=0.25, min_N=2, update_mu=K != 3, update_Lambda=K != 2, update_pi=K != 4)
                    m = make(kind, d, pi, mu, L, **kw)
                    m2 = m.split_comp(K)
                    what = '%s of %d components in %d' % (kind, K0, K)
                    ck.check(type(m2) is type(m) and m2.num_comp == K * K0, what + ': %d components' % m2.num_comp)
                    ck.close(m2.pi, np.repeat(pi, K) / K, what + ': weights')
                    ck.close(m2.Lambda, L if kind == 'DiagGMMTiedCov' else np.repeat(L, K, axis=0) * K ** 2, what + ': precisions', rtol=1e-9)
                    for k, v in kw.items():
                        ck.check(getattr(m2, k) == v, what + ': %s is %s' % (k, getattr(m2, k)))
                    for k in range(K0):
                        S = comps(kind, pi, mu, L)[k][2]
                        new = m2.mu[k * K:(k + 1) * K] - mu[k]
                        if kind == 'GMM':
                            w, v = np.linalg.eigh(S)
                            dirs = v * np.sqrt(w)
                            coef = np.linalg.solve(dirs, new.T).T
                        else:
                            coef = new / np.sqrt(np.diag(S))
                        # each new mean lies one deviation away in every principal direction
                        ck.close(np.abs(coef), np.ones((K, d)), what + ': means', rtol=1e-7, atol=1e-7)
                        if K == 2:
                            ck.close(new.sum(axis=0), np.zeros(d), what + ': centre of the means', atol=1e-9)
                    ck.close(m.mu, mu, what + ': means of the model that was split')
                    ck.close(m.pi, pi, what + ': weights of the model that was split')
                    x = G[d]
                    ck.close(m2.log_prob(x), lse(lkcomp(comps(kind, m2.pi, m2.mu, m2.Lambda), x)), what + ': log-likelihood', rtol=1e-8, atol=1e-7)
                    ck.step()
                ck.state((kind, d, K0, perm))


def kaldi(ck, c):
    """text models of Kaldi"""
    kind = c['m']
    if kind == 'DiagGMMTiedCov':
        return
    fn = os.path.join(ck.dir(), 'm.txt')
    for d in (1, 2, 3):
        for K in (1, 2, 3):
            for perm in itertools.permutations(range(3)):
                for style in (0, 1):
                    pi, mu, L = std(kind, d, list(perm), PI[K][0])
                    f = lambda v: ' '.join('%.17g' % a for a in v)
                    e = ['<DiagGMM> ' if kind == 'DiagGMM' else '<FullGMM> ', '<GCONSTS>  [ ' + f([0.0] * K) + ' ]', '<WEIGHTS>  [ ' + f(pi) + ' ]']
                    full = kind == 'GMM'
                    e.append('<MEANS_INVCOVARS>  [' if full else '<MEANS_INVVARS>  [')
                    rows = ['  ' + f(b.dot(a) if full else a * b) + ' ' for a, b in zip(mu, L)]
                    e += rows[:-1] + [rows[-1] + ']']
                    if full:
                        for k, b in enumerate(L):
                            if k == 0 or style == 0:
                                e.append('<INV_COVARS> [' if k == 0 else '[')
                            rows = [f(b[j, :j + 1]) + ' ' for j in range(d)]
                            e += rows[:-1] + [rows[-1] + ']']
                        e.append('</FullGMM> ')
                    else:
                        e.append('<INV_VARS>  [')
                        rows = ['  ' + f(b) + ' ' for b in L]
                        e += rows[:-1] + [rows[-1] + ']', '</DiagGMM> ']
                    with open(fn, 'w') as h:
                        h.write('\n'.join(e) + '\n')
                    m = cls(kind).load_from_kaldi(fn)
                    what = '%s of %d components of %d values' % (kind, K, d)
                    ck.close(m.pi, pi, what + ': weights')
                    ck.close(m.mu, mu, what + ': means', rtol=1e-8, atol=1e-9)
                    ck.close(m.Lambda, L, what + ': precisions', rtol=1e-9, atol=1e-9)
                    ck.close(m.log_prob(G[d]), lse(lkcomp(comps(kind, pi, mu, L), G[d])), what + ': log-likelihood', rtol=1e-8, atol=1e-7)
                    ck.step()


class Rng(object):
    """hands out prescribed noise"""
    def __init__(self, seq):
        self.seq = seq

    def normal(self, size):
        return np.array([[(-1.0, 0.5, 2.0)[(i + j) % 3] for j in range(size[1])] for i in range(size[0])])

    def multinomial(self, n, p, size):
        return np.array([[1 if k == s else 0 for k in range(len(p))] for s in self.seq])

    def multivariate_normal(self, mean, cov, size):
        z = self.normal((size[0], len(mean)))
        return mean + z.dot(np.linalg.cholesky(cov).T)


def sample(ck, c):
    for kind, d, perm, pi in models('quick', (1, 2)):
        if perm != [0, 1, 2] and perm != [2, 1, 0] or min(pi) == 0:
            continue
        pi, mu, L = std(kind, d, perm, pi)
        m = make(kind, d, pi, mu, L)
        cs = comps(kind, pi, mu, L)
        for seq in itertools.product(range(len(cs)), repeat=3):
            rng = Rng(seq)
            y = m.sample(3, rng=rng)
            what = '%s, components %s' % (kind, seq)
            ck.check(y.shape == (3, d), what + ': shape')
            for k in range(len(cs)):
                idx = [i for i in range(3) if seq[i] == k]
                if not idx:
                    continue
                z = rng.normal((3, d))[idx] if kind != 'GMM' else rng.normal((len(idx), d))
                ck.close(y[idx], cs[k][1] + z.dot(np.linalg.cholesky(cs[k][2]).T), what + ': samples', rtol=1e-8, atol=1e-8)
            ck.step()
        a, b = m.sample(5, seed=3), m.sample(5, seed=3)
        ck.check(np.array_equal(a, b), kind + ': samples with the same seed differ')
        ck.check(not np.array_equal(a, m.sample(5, seed=4)), kind + ': samples with another seed are the same')
        big = m.sample(20000, seed=1)
        mean = sum(w * u for w, u, S in cs)
        C = sum(w * (S + np.outer(u - mean, u - mean)) for w, u, S in cs)
        ck.close(big.mean(axis=0), mean, kind + ': mean of many samples', rtol=0, atol=0.06)
        ck.close(np.cov(big.T).reshape(d, d), C, kind + ': covariance of many samples', rtol=0.06, atol=0.1)
