"""S07: classifiers and calibrators."""
import itertools
import math
import warnings
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of parameter sets, small data sets, labellings and options on the real classes, compared with the density or optimality condition each states'
BOUND = {
    'quick': 'all models of 1-2 dimensions and 2-3 classes over a grid of means and precisions x a grid of inputs x every output type; every labelling of up to 5 (2-d: 6) vectors in 2-3 classes x balancing, weights, prior, update options; '
             'every labelling of up to 7 scores for calibration',
    'thorough': 'finer grids, labellings of 6 (2-d: 7) vectors, 9 scores'}
ASSUMPTIONS = ['every class has data unless a prior is given', 'within-class covariances are not singular', 'logistic regression over two classes is done with the binary class',
               'uncertainty scoring balances classes when a prior or weights are given', 'in uncertainty scoring the precision of input plus enrolment exceeds that of the prior']
CHUNK = 1
CASE_TIMEOUT = 600


def cases(tier):
    q = tier == 'quick'
    for k, d in itertools.product((2, 3), (1, 2)):
        for s in range(4):
            yield dict(kind='gbe', k=k, d=d, s=s, fine=not q)
            yield dict(kind='qs', k=k, d=d, s=s, fine=not q)
    for n, k, d in ((3, 2, 1), (4, 2, 1), (5, 2, 1), (4, 3, 1), (5, 3, 1), (5, 2, 2), (6, 2, 2), (6, 3, 2)) + (() if q else ((6, 2, 1), (6, 3, 1), (7, 2, 2), (7, 3, 2))):
        for s in range(8):
            yield dict(kind='gbefit', n=n, k=k, d=d, s=s)
    for n, k in ((2, 2), (3, 2), (4, 2), (3, 3), (4, 3)) + (() if q else ((5, 2), (5, 3))):
        yield dict(kind='qsfit', n=n, k=k)
    for k, d in itertools.product((1, 2, 3), (1, 2)):
        yield dict(kind='lin', k=k, d=d, fine=not q)
    for n in range(4, 7 if q else 8):
        for s in range(4):
            yield dict(kind='binfit', n=n, s=s)
            yield dict(kind='lrfit', n=n, s=s)
            yield dict(kind='svmfit', n=n, s=s)
    for n in range(3, 8 if q else 10):
        yield dict(kind='gcal', n=n)
        yield dict(kind='ucal', n=n)


def run_case(ck, c):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[c['kind']](ck, c)
    ck.trace()


# ---------------------------------------------------------------- references

def covs(d, fine=False):
    v = (0.5, 1.0, 4.0) if not fine else (0.1, 0.5, 1.0, 2.0, 4.0)
    if d == 1:
        return [np.array([[a]]) for a in v]
    return [np.array([[a, o], [o, b]]) for a in v for b in v for o in ((-0.25, 0.0, 0.6) if not fine else (-0.25, 0.0, 0.1, 0.2, 0.6)) if a * b > o * o]


def inv(A):
    if len(A) == 1:
        return np.array([[1 / A[0, 0]]])
    (a, b), (c, d) = A
    return np.array([[d, -b], [-c, a]]) / (a * d - b * c)


def det(A):
    return A[0, 0] if len(A) == 1 else A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]


def maha(x, m, W):
    e = np.asarray(x) - m
    return float(e.dot(W).dot(e))


def logn(x, m, C):
    return -0.5 * (len(m) * math.log(2 * math.pi) + math.log(det(C)) + maha(x, m, inv(C)))


def lsm(L):
    """log of the normalised exponentials of each row"""
    out = np.zeros_like(L)
    for i, r in enumerate(L):
        mx = max(r)
        z = mx + math.log(sum(math.exp(v - mx) for v in r))
        out[i] = [v - z for v in r]
    return out


def means(k, d):
    v = (-1.0, 0.5, 2.0)
    out = []
    for m in itertools.product(list(itertools.product(v, repeat=d)), repeat=k):
        out.append(np.array(m))
    return out


def points(d):
    return np.array(list(itertools.product((-2.0, -0.5, 0.0, 1.5), repeat=d)))


def rows(ck, f, x, want, what):
    """the batch equals the rows one by one"""
    for i in range(0, len(x), 3):
        ck.close(f(x[i:i + 1])[0], want[i], what + ': one row alone', rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- Gaussian back-end

def gbe(ck, c):
    from hyperion.classifiers.linear_gbe import LinearGBE
    from hyperion.classifiers.linear_gbe_up import LinearGBEUP
    k, d = c['k'], c['d']
    X = points(d)
    ms = means(k, d)
    step = 1 if len(ms) < 100 else (11 if not c['fine'] else 5)
    for mi, mu in enumerate(ms[::step]):
        if mi % 4 != c['s']:
            continue
        for ci, C in enumerate(covs(d, c['fine'])):
            W = inv(C)
            beta = np.array([1.0, 4.0, 0.5][:k])
            nu = (3.0, 10.0)[(mi + ci) % 2]
            g = LinearGBE(mu=mu.copy(), W=W.copy(), beta=beta.copy(), nu=nu)
            what = 'means %s, covariance %s' % (mu.tolist(), C.tolist())
            lin = np.array([[m.dot(W).dot(x) - 0.5 * m.dot(W).dot(m) for m in mu] for x in X])
            llk = np.array([[logn(x, m, C) for m in mu] for x in X])
            df = nu + 1 - d
            pred = np.zeros_like(lin)
            for i, x in enumerate(X):
                for j, m in enumerate(mu):
                    L = df * beta[j] / (1 + beta[j]) * W / nu
                    pred[i, j] = (math.lgamma((df + d) / 2) - math.lgamma(df / 2) - d / 2 * math.log(df * math.pi) + 0.5 * math.log(det(L))
                                  - (df + d) / 2 * math.log(1 + maha(x, m, L) / df))
            X0 = X.copy()
            for name, want in (('linear', lin), ('llk', llk), ('predictive', pred)):
                ck.close(g.predict(X, name), want, '%s: %s' % (what, name), rtol=1e-8, atol=1e-8)
                p = g.predict(X, name, normalize=True)
                ck.close(p, lsm(want), '%s: normalised %s' % (what, name), rtol=1e-8, atol=1e-8)
                rows(ck, lambda z: g.predict(z, name), X, want, what)
                ck.step(2)
            ck.close(g.predict(X), lin, what + ': default output')
            ck.raises(lambda: g.predict(X, 'nothing'), what + ': wrong evaluation method accepted')
            # inputs with uncertainty
            u = LinearGBEUP(mu=mu.copy(), W=W.copy())
            V = np.array([[0.0, 0.5, 2.0][(i + ci) % 3] + 0.25 * np.arange(d) for i in range(len(X))])
            xu = np.hstack((X, V))
            want = np.zeros_like(lin)
            for i, x in enumerate(X):
                Wi = inv(C + np.diag(V[i]))
                want[i] = [m.dot(Wi).dot(x) - 0.5 * m.dot(Wi).dot(m) for m in mu]
            ck.close(u.predict(xu), want, what + ': linear scores of uncertain inputs', rtol=1e-8, atol=1e-8)
            ck.close(u.predict(xu, normalize=True), lsm(want), what + ': normalised scores of uncertain inputs', rtol=1e-8, atol=1e-8)
            rows(ck, u.predict, xu, want, what + ' uncertain')
            ck.check(np.array_equal(X, X0), what + ': the input changed')
            ck.state((mu, C))


POOL1 = np.array([[-1.0], [0.0], [0.5], [2.0], [3.5], [-2.5], [1.0], [0.25]])
POOL2 = np.array([[-1.0, 0.5], [0.0, 0.0], [0.5, 2.0], [2.0, -1.0], [3.0, 1.0], [-2.0, -2.5], [1.0, 1.5], [0.25, -3.0]])


def labels(n, k):
    return itertools.product(range(k), repeat=n)


def gref(x, P, k, balance, prior, up_mu, up_W, mu0=None, varx=None):
    """estimates of means and within-class covariance; prior: (mu, C, beta per class, nu)"""
    n, d = x.shape
    N = [float(sum(P[i][j] for i in range(n))) for j in range(k)]
    xbar, mu = np.zeros((k, d)), np.zeros((k, d))
    beta = list(N)
    for j in range(k):
        if up_mu:
            s = sum((P[i][j] * x[i] for i in range(n)), np.zeros(d))
            if prior is None:
                xbar[j] = mu[j] = s / N[j]
            else:
                b = prior[2][j]
                mu[j] = (b * prior[0][j] + s) / (N[j] + b)
                xbar[j] = s / N[j] if N[j] else prior[0][j]
                beta[j] = N[j] + b
        else:
            xbar[j] = mu[j] = mu0[j]
    nu0 = 0 if prior is None else prior[3]
    S = []
    for j in range(k):
        Sj = np.zeros((d, d))
        for i in range(n):
            Sj = Sj + P[i][j] * np.outer(x[i] - xbar[j], x[i] - xbar[j])
        if prior is not None:
            Sj = Sj + nu0 / k * prior[1]
            if up_mu:
                e = xbar[j] - prior[0][j]
                Sj = Sj + N[j] * prior[2][j] / (N[j] + prior[2][j]) * np.outer(e, e)
        S.append(Sj)
    if balance:
        C = sum(S[j] / (N[j] + nu0 / k) for j in range(k)) / k
    else:
        C = sum(S) / (sum(N) + nu0)
    return mu, C, np.array(beta), sum(N) + nu0


def gbefit(ck, c):
    from hyperion.classifiers.linear_gbe import LinearGBE
    from hyperion.classifiers.linear_gbe_up import LinearGBEUP
    n, k, d = c['n'], c['k'], c['d']
    x = (POOL1 if d == 1 else POOL2)[:n].copy()
    muP = np.array([[1.0, -1.0], [0.0, 2.0], [-1.0, 0.5]])[:k, :d]
    CP = covs(d)[-1]
    sw = np.array([1.0, 0.5, 2.0, 1.5, 0.25, 1.0, 3.0])[:n]
    opts = []
    for bal, w, soft in itertools.product((True, False), (None, sw), (False, True)):
        opts.append(dict(bal=bal, w=w, soft=soft))
    for li, lab in enumerate(labels(n, k)):
        if li % 8 != c['s']:
            continue
        y = np.array(lab)
        # each labelling with a part of the options: the union over labellings covers all of them
        for oi, o in enumerate(opts):
            if k == 3 and n > 5 and (oi + li // 8) % 4:
                continue
            P = np.zeros((n, k))
            P[np.arange(n), y] = 1
            if o['soft']:
                P = 0.75 * P + 0.25 / k
            kw = dict(p_theta=P.copy()) if o['soft'] else dict(class_ids=y.copy())
            Pw = P if o['w'] is None else P * o['w'][:, None]
            if o['w'] is not None:
                kw['sample_weight'] = o['w'].copy()
            what = 'vectors %s labelled %s%s%s%s' % (x.tolist(), lab, ', soft' if o['soft'] else '', ', weighted' if o['w'] is not None else '', ', balanced' if o['bal'] else '')
            full = np.all(Pw.sum(0) > 0)
            variants = []
            if full:
                variants.append(('ml', {}, None, {}))
                variants.append(('fixed means', dict(mu=muP.copy(), update_mu=False), None, {}))
                variants.append(('fixed covariance', dict(mu=muP.copy(), W=inv(CP), update_W=False), None, {}))
                variants.append(('ml with counts set', dict(post_beta=3.0, post_nu=5.0), None, {}))
            for pb, pn in ((2.0, 1.5), (None, None)):
                variants.append(('prior %s' % pb, dict(prior_beta=pb, prior_nu=pn), (pb, pn), {}))
            variants.append(('prior with fixed means', dict(prior_beta=2.0, prior_nu=1.5, mu=muP[::-1].copy(), update_mu=False), (2.0, 1.5), {}))
            for name, cfg, pr, _ in variants:
                prior = None
                cfg = dict(cfg, balance_class_weight=o['bal'])
                # the number of classes may be left to the data
                if not (o['soft'] or max(lab) + 1 == k) or 'mu' in cfg or (li + oi) % 2:
                    cfg.setdefault('num_classes', k)
                if pr is not None:
                    b0, n0 = np.array([1.0, 4.0, 2.5])[:k], 6.0
                    cfg['prior'] = LinearGBE(mu=muP.copy(), W=inv(CP), beta=b0.copy(), nu=n0)
                    prior = (muP, CP, b0 if pr[0] is None else [pr[0]] * k, n0 if pr[1] is None else pr[1] * k)
                upm, upw = cfg.get('update_mu', True), cfg.get('update_W', True)
                mu, C, beta, nu = gref(x, Pw, k, o['bal'], prior, upm, upw, cfg.get('mu'))
                if upw and (det(C) < 1e-3 or C[0, 0] < 1e-3):
                    continue
                if not upw:
                    C = CP
                g = LinearGBE(**cfg)
                x0 = x.copy()
                g.fit(x, **kw)
                w2 = what + ', ' + name
                ck.check(np.array_equal(x, x0), w2 + ': the input changed')
                ck.close(g.mu, mu, w2 + ': means', rtol=1e-9, atol=1e-9)
                ck.close(g.W, inv(C), w2 + ': precision', rtol=1e-7, atol=1e-8)
                if upm:
                    ck.close(g.beta, [3.0] * k if 'post_beta' in cfg else beta, w2 + ': counts of the means', rtol=1e-9, atol=1e-9)
                if upw:
                    ck.close(g.nu, 5.0 * k if 'post_nu' in cfg else nu, w2 + ': count of the covariance', rtol=1e-9, atol=1e-9)
                ck.check(g.x_dim == d and g.num_classes == k, w2 + ': sizes')
                W = inv(C)
                ck.close(g.predict(x), [[m.dot(W).dot(v) - 0.5 * m.dot(W).dot(m) for m in mu] for v in x], w2 + ': scores after training', rtol=1e-6, atol=1e-6)
                ck.close(g.predict(x, 'llk'), [[logn(v, m, C) for m in mu] for v in x], w2 + ': log-likelihoods after training', rtol=1e-6, atol=1e-6)
                ck.step(3)
                # training data with uncertainty: their mean variance is taken off the covariance
                if upw and oi % 2 == 0:
                    V = np.array([[0.05, 0.1]])[:, :d] * (1 + np.arange(n)[:, None] % 3)
                    vm = V.mean(0)
                    F = 1.21 * np.diag(vm)
                    ch = np.sqrt(F)
                    ic = np.diag(1 / np.diag(ch))
                    ev, U = np.linalg.eigh(ic.dot(C).dot(ic))
                    Cf = ch.dot((U * np.maximum(ev, 1)).dot(U.T)).dot(ch) - np.diag(vm)
                    cfg2 = dict(cfg)
                    if pr is not None:
                        cfg2['prior'] = LinearGBE(mu=muP.copy(), W=inv(CP), beta=b0.copy(), nu=n0)
                    u = LinearGBEUP(**cfg2)
                    u.fit(np.hstack((x, V)), **kw)
                    ck.close(u.mu, mu, w2 + ': means of uncertain data', rtol=1e-9, atol=1e-9)
                    ck.close(inv(np.asarray(u.W)), Cf, w2 + ': covariance of uncertain data', rtol=1e-6, atol=1e-7)
                    ck.step()
                ck.state((lab, oi, name))


# ---------------------------------------------------------------- uncertainty scoring

def qs(ck, c):
    from hyperion.classifiers.q_scoring_homo_gbe import QScoringHomoGBE
    k, d = c['k'], c['d']
    ms = means(k, d)
    Ws = [np.array(w) for w in itertools.product((1.5, 4.0) if not c['fine'] else (1.1, 1.5, 4.0, 20.0), repeat=d)]
    px = points(d)
    ss = np.array(list(itertools.islice(itertools.cycle(itertools.product((0.25, 0.9, 1.5), repeat=d)), len(px))))
    x = np.hstack((px, ss))
    step = 1 if len(ms) < 100 else 11
    for mi, mu in enumerate(ms[::step]):
        if mi % 4 != c['s']:
            continue
        for W in Ws:
            q = QScoringHomoGBE(mu=mu.copy(), W=W.copy(), N=np.ones(k))
            want = np.zeros((len(x), k))
            for i in range(len(x)):
                for j in range(k):
                    t = 0.0
                    for e in range(d):
                        # integral of N(y; m, 1/W) N(y; x, s) / N(y; 0, 1)
                        a, b = W[e], 1 / ss[i, e]
                        m1, m2 = mu[j, e], px[i, e]
                        L = a + b - 1
                        eta = a * m1 + b * m2
                        t += 0.5 * (math.log(a) + math.log(b) - math.log(L)) - 0.5 * (a * m1 * m1 + b * m2 * m2 - eta * eta / L)
                    want[i, j] = t
            what = 'means %s precisions %s' % (mu.tolist(), W.tolist())
            x0 = x.copy()
            ck.close(q.predict(x), want, what + ': likelihood ratios', rtol=1e-8, atol=1e-8)
            ck.close(q.predict(x, normalize=True), lsm(want), what + ': normalised ratios', rtol=1e-8, atol=1e-8)
            rows(ck, q.predict, x, want, what)
            ck.check(np.array_equal(x, x0), what + ': the input changed')
            ck.check(q.x_dim == d and q.num_classes == k, what + ': sizes')
            ck.step(2)
            ck.state((mu, W))


def qsfit(ck, c):
    from hyperion.classifiers.q_scoring_homo_gbe import QScoringHomoGBE
    n, k = c['n'], c['k']
    for d in (1, 2):
        m = (POOL1 if d == 1 else POOL2)[:n]
        s = np.array([[0.5, 0.25], [0.9, 0.5], [0.2, 0.8], [1.0, 0.3], [0.7, 0.6]])[:n, :d]
        x = np.hstack((m, s))
        sw = np.array([1.0, 0.5, 2.0, 1.5, 0.25])[:n]
        for lab in labels(n, k):
            y = np.array(lab)
            for soft, w, pri, bal, post in itertools.product((False, True), (None, sw), (None, (None,), (4.0,)), (True, False), (None, 5.0)):
                if not bal and (pri is not None or w is not None):
                    continue
                P = np.zeros((n, k))
                P[np.arange(n), y] = 1
                if soft:
                    P = 0.75 * P + 0.25 / k
                kw = dict(p_theta=P.copy()) if soft else dict(class_ids=y)
                Pw = P
                if w is not None:
                    kw['sample_weight'] = w.copy()
                    Pw = P * w[:, None]
                if max(lab) < k - 1 and not soft:
                    continue            # the number of classes comes from the labels
                cfg = dict(balance_class_weight=bal, post_N=post)
                pm, pW, pN = np.array([[1.0, -1.0], [0.0, 2.0], [-1.0, 0.5]])[:k, :d], np.array([3.0, 1.5])[:d], np.array([2.0, 6.0, 1.0])[:k]
                if pri is not None:
                    cfg.update(prior=QScoringHomoGBE(mu=pm.copy(), W=pW.copy(), N=pN.copy()), prior_N=pri[0])
                    if pri[0] is not None:
                        pW = 1 + pri[0] / pN.mean() * (pW - 1)
                        pN = np.full(k, pri[0])
                q = QScoringHomoGBE(**cfg)
                x0 = x.copy()
                q.fit(x, **kw)
                mu, prec, N = np.zeros((k, d)), np.zeros((k, d)), np.zeros(k)
                for j in range(k):
                    eta, L = np.zeros(d), np.ones(d)
                    for i in range(n):
                        eta = eta + Pw[i, j] * m[i] / s[i]
                        L = L + Pw[i, j] * (1 / s[i] - 1)
                        N[j] += Pw[i, j]
                    if pri is not None:
                        eta, L = eta + pW * pm[j], L + pW - 1
                        N[j] += pN[j]
                    mu[j], prec[j] = eta / L, L
                W = prec.mean(0)
                if post is not None:
                    W = 1 + post / N.mean() * (W - 1)
                    N = np.full(k, post)
                what = 'means %s variances %s labelled %s%s%s prior %s post %s' % (m.tolist(), s.tolist(), lab, ', soft' if soft else '', ', weighted' if w is not None else '', pri, post)
                ck.check(np.array_equal(x, x0), what + ': the input changed')
                ck.close(q.mu, mu, what + ': means', rtol=1e-9, atol=1e-9)
                ck.close(q.W, W, what + ': precisions', rtol=1e-9, atol=1e-9)
                ck.close(q.N, N, what + ': counts', rtol=1e-9, atol=1e-9)
                ck.step()
                ck.state((d, lab, soft, w is None, pri, bal, post))


# ---------------------------------------------------------------- linear classifiers

def sig(v):
    return 1 / (1 + math.exp(-v)) if v >= 0 else math.exp(v) / (1 + math.exp(v))


def lsig(v):
    return -math.log1p(math.exp(-v)) if v >= 0 else v - math.log1p(math.exp(v))


def lin(ck, c):
    """outputs of given parameters; k = 1 is the two-class case with one output"""
    from hyperion.classifiers.logistic_regression import LogisticRegression
    from hyperion.classifiers.binary_logistic_regression import BinaryLogisticRegression
    from hyperion.classifiers.linear_svmc import LinearSVMC
    k, d = c['k'], c['d']
    X = points(d)
    v = (-1.5, 0.0, 0.75) if not c['fine'] else (-3.0, -1.5, 0.0, 0.75, 2.0)
    gridA = list(itertools.product(v, repeat=k * d))
    if len(gridA) > 200:
        gridA = gridA[::len(gridA) // 200]
    for ai, a in enumerate(gridA):
        A = np.array(a).reshape(d, k)
        b = np.array([0.5, -1.0, 2.0])[:k] * (1 + ai % 3)
        what = 'A %s b %s' % (A.tolist(), b.tolist())
        s = np.array([[sum(x[i] * A[i, j] for i in range(d)) + b[j] for j in range(k)] for x in X])
        m = LinearSVMC(A=A.copy(), b=b.copy(), bias_scaling=(1, 10)[ai % 2])
        X0 = X.copy()
        ck.close(m.predict(X), s, what + ': margins')
        ck.close(m.predict(X, 'bin-post'), [[sig(z) for z in r] for r in s], what + ': binary posteriors')
        ck.close(m.predict(X, 'bin-logpost'), [[lsig(z) for z in r] for r in s], what + ': binary log-posteriors')
        if k > 1:
            ck.close(m.predict(X, 'cat-post'), np.exp(lsm(s)), what + ': class posteriors')
            ck.close(m.predict(X, 'cat-logpost'), lsm(s), what + ': class log-posteriors')
            rows(ck, lambda z: m.predict(z, 'cat-post'), X, np.exp(lsm(s)), what)
        ck.step(4)
        if k == 1:
            for p in (0.5, 0.1, 0.75):
                m = BinaryLogisticRegression(A=A.copy(), b=b.copy(), prior=p, bias_scaling=(1, 10)[ai % 2])
                L = math.log(p / (1 - p))
                ck.close(m.predict(X), s[:, 0], what + ': log-likelihood ratios')
                ck.close(m.predict(X, 'post'), [sig(z + L) for z in s[:, 0]], what + ': posteriors with prior %s' % p)
                ck.close(m.predict(X, 'log-post'), [lsig(z + L) for z in s[:, 0]], what + ': log-posteriors with prior %s' % p)
                rows(ck, lambda z: m.predict(z, 'post'), X, [sig(z + L) for z in s[:, 0]], what)
                if d == 1:
                    ck.close(m.predict(X[:, 0]), s[:, 0], what + ': log-likelihood ratios of a list of scores')
                ck.step(3)
        elif k == 3:
            for p in (None, (0.2, 0.3, 0.5), (0.6, 0.1, 0.3)):
                for pf in (lambda p: p, lambda p: p if p is None else dict(enumerate(p))):
                    m = LogisticRegression(A=A.copy(), b=b.copy(), priors=pf(p), bias_scaling=(1, 10)[ai % 2])
                    L = np.log(np.array(p or (1 / 3, 1 / 3, 1 / 3)))
                    ck.close(m.predict(X), s, what + ': log-likelihoods')
                    if d == 1:
                        ck.close(m.predict(X[:, 0]), s, what + ': log-likelihoods of a list of scores')
                        ck.close(m.predict(X[:, 0], 'post'), np.exp(lsm(s + L)), what + ': posteriors of a list of scores')
                    ck.close(m.predict(X, 'post'), np.exp(lsm(s + L)), what + ': posteriors with priors %s' % (p,))
                    lp = np.asarray(m.predict(X, 'log-post'))
                    # small posteriors are floored
                    ck.check(np.all(np.isfinite(lp)), what + ': log-posteriors are not finite')
                    ck.close(np.exp(lp), np.exp(lsm(s + L)), what + ': log-posteriors with priors %s' % (p,), rtol=1e-8, atol=1e-9)
                    rows(ck, lambda z: m.predict(z, 'post'), X, np.exp(lsm(s + L)), what)
                    ck.step(3)
        ck.check(np.array_equal(X, X0), what + ': the input changed')
        ck.state((A, b))


def splits(n, k, s):
    for li, lab in enumerate(labels(n, k)):
        if li % 4 == s and len(set(lab)) == k:
            yield lab


def binfit(ck, c):
    """the gradient of the regularised weighted cross-entropy is zero at the estimate"""
    from hyperion.classifiers.binary_logistic_regression import BinaryLogisticRegression
    n = c['n']
    sw = np.array([1.0, 0.5, 2.0, 1.5, 0.25, 1.0, 3.0])[:n]
    for lab in splits(n, 2, c['s']):
        y = np.array(lab)
        cnt = np.bincount(y)
        for d, p, w, lam, (solver, sc) in itertools.product((1, 2), (0.5, 0.2), (None, sw), (0.05, 0.5), (('lbfgs', 1), ('liblinear', 1), ('liblinear', 10.0), ('none', 1))):
            ub = solver != 'none'
            x = (POOL1 if d == 1 else POOL2)[:n].copy()
            m = BinaryLogisticRegression(prior=p, lambda_reg=lam, tol=1e-10, max_iter=2000, solver=solver if ub else 'lbfgs', bias_scaling=sc, use_bias=ub)
            kw = {} if w is None else dict(sample_weight=w.copy())
            what = 'vectors %s labelled %s prior %s lambda %s solver %s scaling %s%s' % (x.tolist(), lab, p, lam, solver, sc, '' if w is None else ' weighted')
            m.fit(x[:, 0] if d == 1 else x, y, **kw)
            A, b = np.asarray(m.A)[:, 0], float(np.ravel(m.b)[0])
            L = math.log(p / (1 - p))
            gA, gb = np.zeros(d), 0.0
            for i in range(n):
                wi = (p if y[i] else 1 - p) / cnt[y[i]] * (1 if w is None else w[i])
                e = wi * (sig(A.dot(x[i]) + b + L) - y[i])
                gA = gA + e * x[i]
                gb += e
            gA = gA + lam * A
            if solver == 'liblinear':
                gb += lam * (b + L) / sc ** 2
            ck.close(gA, np.zeros(d), what + ': gradient of the weights', atol=5e-4)
            if ub:
                ck.close(gb, 0.0, what + ': gradient of the bias', atol=5e-4)
            else:
                ck.close(b + L, 0.0, what + ': bias although none is used', atol=1e-12)
            ck.close(m.predict(x), x.dot(A) + b, what + ': log-likelihood ratios after training')
            ck.step()
            ck.state((lab, d, p, w is None, lam, solver, sc))


def lrfit(ck, c):
    from hyperion.classifiers.logistic_regression import LogisticRegression
    n = c['n']
    sw = np.array([1.0, 0.5, 2.0, 1.5, 0.25, 1.0, 3.0])[:n]
    for li, lab in enumerate(splits(n, 3, c['s'])):
        if n > 5 and li % 4 and ck.tier == 'quick':
            continue
        y = np.array(lab)
        cnt = np.bincount(y)
        for d, p, w, lam, mc in itertools.product((1, 2), (None, (0.2, 0.3, 0.5)), (None, sw), (0.05, 0.5), ('multinomial', 'ovr')):
            x = (POOL1 if d == 1 else POOL2)[:n].copy()
            m = LogisticRegression(priors=p, lambda_reg=lam, tol=1e-10, max_iter=2000, multi_class=mc)
            kw = {} if w is None else dict(sample_weight=w.copy())
            what = 'vectors %s labelled %s priors %s lambda %s %s%s' % (x.tolist(), lab, p, lam, mc, '' if w is None else ' weighted')
            m.fit(x, y, **kw)
            P = np.array(p or (1 / 3, 1 / 3, 1 / 3))
            A, b = np.asarray(m.A), np.asarray(m.b)
            ck.check(A.shape == (d, 3) and b.shape == (3,), what + ': sizes of the parameters')
            off = np.log(P) if mc == 'multinomial' else np.log(P / (1 - P))
            gA, gb = lam * A, np.zeros(3)
            for i in range(n):
                wi = P[y[i]] / cnt[y[i]] * (1 if w is None else w[i])
                z = A.T.dot(x[i]) + b + off
                q = np.exp(lsm(z[None]))[0] if mc == 'multinomial' else np.array([sig(v) for v in z])
                e = wi * (q - np.eye(3)[y[i]])
                gA = gA + np.outer(x[i], e)
                gb = gb + e
            ck.close(gA, np.zeros((d, 3)), what + ': gradient of the weights', atol=5e-4)
            ck.close(gb, np.zeros(3), what + ': gradient of the bias', atol=5e-4)
            ck.close(m.predict(x), x.dot(A) + b, what + ': log-likelihoods after training')
            ck.step()
            ck.state((lab, d, p, w is None, lam, mc))


def svmfit(ck, c):
    """primal optimality of the squared hinge loss"""
    from hyperion.classifiers.linear_svmc import LinearSVMC
    n = c['n']
    sw = np.array([1.0, 0.5, 2.0, 1.5, 0.25, 1.0, 3.0])[:n]
    for k in (2, 3):
        for li, lab in enumerate(splits(n, k, c['s'])):
            if n > 5 and li % 4 and ck.tier == 'quick':
                continue
            y = np.array(lab)
            cnt = np.bincount(y)
            for d, bal, w, C, sc in itertools.product((1, 2), (True, False), (None, sw), (0.5, 4.0), (1, 10.0, None)):
                x = (POOL1 if d == 1 else POOL2)[:n].copy()
                m = LinearSVMC(C=C, balance_class_weight=bal, tol=1e-12, max_iter=5000, dual=False, bias_scaling=sc or 1, use_bias=sc is not None)
                kw = {} if w is None else dict(sample_weight=w.copy())
                what = 'vectors %s labelled %s C %s scaling %s%s%s' % (x.tolist(), lab, C, sc, ' balanced' if bal else '', '' if w is None else ' weighted')
                m.fit(x, y, **kw)
                A, b = np.asarray(m.A), np.ravel(m.b)
                K = 1 if k == 2 else k
                ck.check(A.shape == (d, K), what + ': sizes of the parameters')
                for j in range(K):
                    t = np.where(y == (1 if k == 2 else j), 1, -1)
                    bj = b[j] if sc is not None else 0.0
                    gA, gb = A[:, j].copy(), (bj / sc ** 2 if sc is not None else 0.0)
                    for i in range(n):
                        wi = C * (1 if w is None else w[i])
                        if bal and (k == 2 or t[i] == 1):
                            wi *= n / (k * cnt[y[i]])       # one against the rest: the weight of a class applies to its own members
                        e = -2 * wi * t[i] * max(0.0, 1 - t[i] * (A[:, j].dot(x[i]) + bj))
                        gA = gA + e * x[i]
                        gb += e if sc is not None else 0
                    ck.close(gA, np.zeros(d), what + ': gradient of the weights', atol=1e-4)
                    ck.close(gb, 0.0, what + ': gradient of the bias', atol=1e-4)
                ck.close(m.predict(x), x.dot(A) + (b if sc is not None else 0), what + ': margins after training')
                ck.step()
                ck.state((lab, d, bal, w is None, C, sc))


# ---------------------------------------------------------------- calibration

SC = np.array([-2.0, 0.5, 1.0, 3.5, -0.25, 2.0, 6.0, -4.0, 0.0])


def gcal(ck, c):
    from hyperion.calibration.gauss_calibration import GaussCalibration
    n = c['n']
    x = SC[:n].copy()
    sw = np.array([1.0, 0.5, 2.0, 1.5, 0.25, 1.0, 3.0, 0.1, 1.0])[:n]
    t = np.array([-10.0, -1.0, 0.0, 0.3, 2.0, 1e3])
    for y in itertools.product((0, 1), repeat=n):
        if not 0 < sum(y) < n:
            continue
        yy = np.array(y)
        for w in (None, sw):
            ww = np.ones(n) if w is None else w
            g = GaussCalibration()
            kw = {} if w is None else dict(sample_weight=w.copy())
            x0 = x.copy()
            g.fit(x, yy, **kw)
            W1, W0 = sum(ww[yy == 1]), sum(ww[yy == 0])
            m1, m0 = sum(ww[yy == 1] * x[yy == 1]) / W1, sum(ww[yy == 0] * x[yy == 0]) / W0
            s2 = sum(ww[i] * (x[i] - (m1 if y[i] else m0)) ** 2 for i in range(n)) / (W1 + W0)
            what = 'scores %s labelled %s%s' % (x.tolist(), y, '' if w is None else ' weighted')
            ck.close([g.mu1, g.mu2, g.sigma2, g.prior], [m1, m0, s2, W1 / (W1 + W0)], what + ': parameters', rtol=1e-10, atol=1e-10)
            if s2 > 1e-9:
                want = [((v - m0) ** 2 - (v - m1) ** 2) / (2 * s2) for v in t]
                ck.close(g.predict(t), want, what + ': log-likelihood ratios', rtol=1e-7, atol=1e-7)
                h = GaussCalibration(mu1=m1, mu2=m0, sigma2=s2, prior=0.2)
                ck.close(h.predict(t), want, what + ': log-likelihood ratios of given parameters', rtol=1e-7, atol=1e-7)
                M = np.outer(t, [1.0, 2.0])
                ck.close(h.predict(M), [[((v - m0) ** 2 - (v - m1) ** 2) / (2 * s2) for v in r] for r in M], what + ': score matrix', rtol=1e-7, atol=1e-7)
            ck.check(np.array_equal(x, x0), what + ': the scores changed')
            ck.step(2)
            ck.state((y, w is None))
    h = GaussCalibration(mu1=1.0, mu2=-1.0, sigma2=2.0)
    ck.check(h.is_init() and not GaussCalibration().is_init() and not GaussCalibration(mu1=1.0).is_init(), 'state of initialisation')


def em(x, mu, s2, pi, epochs):
    n = len(x)
    for _ in range(epochs):
        z = np.zeros((n, 2))
        for i in range(n):
            a = [math.log(pi[j] + 1e-15) - 0.5 * math.log(s2) - 0.5 * (x[i] - mu[j]) ** 2 / s2 for j in range(2)]
            m = max(a)
            e = [math.exp(v - m) for v in a]
            z[i] = np.array(e) / sum(e)
        N = z.sum(0)
        mu = [float(z[:, j].dot(x) / N[j]) for j in range(2)]
        v = [float(z[:, j].dot((x - mu[j]) ** 2) / N[j]) for j in range(2)]
        f = 1e-3 * np.mean(v)
        v = [max(e, f) for e in v]
        s2 = float(np.dot(N, v) / n)
        pi = [float(e / n) for e in N]
    return mu, s2, pi


def ucal(ck, c):
    from hyperion.calibration.unsup_gauss_calibration import UnsupGaussCalibration
    n = c['n']
    for idx in itertools.combinations(range(len(SC)), n):
        x = SC[list(idx)].copy()
        inits = [(None, 0.5), (None, 0.1), ((2.0, 0.0, 1.0), 0.5), ((3.0, -1.0, 2.0), 0.25)]
        for init, p in inits:
            for shape in (0, 1):
                u = UnsupGaussCalibration(init_prior=p) if init is None else UnsupGaussCalibration(mu1=init[0], mu2=init[1], sigma2=init[2], prior=p)
                x0 = x.copy()
                u.fit(x if not shape else x[:, None])
                mu0, s0 = ([x.max(), x.mean()], x.var()) if init is None else (init[:2], init[2])
                mu, s2, pi = em(x, list(mu0), s0, [p, 1 - p], 20)
                if min(pi) < 1e-3 or s2 < 1e-3:
                    continue
                what = 'scores %s from %s prior %s' % (x.tolist(), init, p)
                ck.close([u.mu1, u.mu2, u.sigma2, u.prior], [mu[0], mu[1], s2, pi[0]], what + ': parameters', rtol=1e-5, atol=1e-5)
                t = np.array([-1.0, 0.0, 2.0])
                ck.close(u.predict(t), [((v - mu[1]) ** 2 - (v - mu[0]) ** 2) / (2 * s2) for v in t], what + ': log-likelihood ratios', rtol=1e-4, atol=1e-4)
                ck.check(np.array_equal(x, x0), what + ': the scores changed')
                ck.step()
                ck.state((idx, init, p, shape))
