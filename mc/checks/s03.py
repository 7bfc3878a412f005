"""S03: transforms."""
import itertools
import math
import numpy as np
import scipy.linalg as la
from scipy.special import erfinv

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small data sets, parameters, options and compositions on the real transforms against their defining equations'
BOUND = {
    'quick': 'maps: all parameter sets over a grid x all grid vectors x all splits in rows; fits: all sets of 4 vectors of 2 values on a 3 x 3 grid and all labellings of 6 vectors of up to 3 values in 2 or 3 classes x options; '
             'compositions of up to 3 out of 7 transforms; rank maps of all sets of 3 values',
    'thorough': 'sets of 5 vectors on the grid, labellings of 7 vectors'}
ASSUMPTIONS = ['data sets have full-rank covariance where it is inverted, and distinct eigenvalues where directions are compared', 'length normalisation of non-zero vectors']
CHUNK = 1


def cases(tier):
    q = tier == 'quick'
    for kind in ('maps', 'gauss', 'compose'):
        for k in range(6):
            yield dict(kind=kind, k=k)
    for a in range(9):
        for b in range(9):
            yield dict(kind='fitx', a=a, b=b, n=4 if q else 5)
    for d in (1, 2, 3):
        for n in ((5, 6) if q else (5, 6, 7)):
            for k in (2, 3):
                for s in range(4):
                    yield dict(kind='fitc', d=d, n=n, k=k, s=s)
    for k in range(3):
        yield dict(kind='given', k=k)


def run_case(ck, c):
    globals()[c['kind']](ck, c)
    ck.trace()


MU = [None, np.array([0.5, -1.0])]
TT = [None, np.array([[2.0, 0.5], [-1.0, 0.25]]), np.array([[1.0], [-2.0]]), np.array([0.5, -3.0]), np.array([[1.0, 0.0, 2.0], [0.5, 1.0, -1.0]])]
G = np.array(list(itertools.product((-1.5, 0.0, 0.75, 2.0), repeat=2)))


def lin(x, mu, T):
    x = x if mu is None else x - mu
    if T is None:
        return x
    return x * T if T.ndim == 1 else x.dot(T)


def nrm(x):
    return np.sqrt((x ** 2).sum(axis=1, keepdims=True))


def byrows(ck, t, x, want, what, rtol=1e-9, atol=1e-9):
    """whole, row by row, and split in two at every place; the input stays."""
    x0 = x.copy()
    y = t.predict(x)
    ck.step()
    ck.check(y.shape == want.shape, what + ': shape %s' % (y.shape,))
    ck.close(y, want, what, rtol=rtol, atol=atol)
    ck.check(np.array_equal(x, x0), what + ': input changed')
    for i in range(len(x)):
        xi = x[i:i + 1].copy()
        ck.close(t.predict(xi), want[i:i + 1], what + ', row %d alone' % i, rtol=rtol, atol=atol)
        ck.check(np.array_equal(xi, x0[i:i + 1]), what + ': input changed')
    h = len(x) // 2
    ck.close(np.vstack((t.predict(x[:h]), t.predict(x[h:]))), want, what + ', in two parts', rtol=rtol, atol=atol)
    ck.close(t.predict(x), want, what + ', again', rtol=rtol, atol=atol)


def maps(ck, c):
    from hyperion.transforms import CentWhiten, LNorm, PCA, LDA, NDA, MVN, NAP, CentWhitenUP, LNormUP
    k = c['k']
    s2 = np.abs(G) + 0.25
    for mu in MU:
        for T in TT:
            what = 'mean %s, matrix %s' % (mu, None if T is None else T.tolist())
            y = lin(G, mu, T)
            if k == 0:
                byrows(ck, CentWhiten(mu=mu, T=T), G.copy(), y, 'CentWhiten, ' + what)
            elif k == 1:
                ok = nrm(y)[:, 0] > 1e-6
                byrows(ck, LNorm(mu=mu, T=T), G[ok], y[ok] / nrm(y[ok]) * math.sqrt(y.shape[1]), 'LNorm, ' + what, rtol=1e-6)
                z = LNorm(mu=mu, T=T).predict(G)
                ck.check(np.all(np.isfinite(z)), 'LNorm, %s: not finite' % what)
            elif k == 2 and T is not None and T.ndim == 2:
                for cls in (PCA, LDA, NDA):
                    byrows(ck, cls(mu=mu, T=T), G.copy(), y, cls.__name__ + ', ' + what)
            elif k == 3 and (T is None or T.ndim == 1):
                s = None if T is None else np.abs(T)
                byrows(ck, MVN(mu=mu, s=s), G.copy(), lin(G, mu, None if s is None else 1 / s), 'MVN, ' + what)
            elif k == 4:
                S = np.array([np.diag(np.diag(v) if T is None else (np.diag(T).dot(np.diag(v)).dot(np.diag(T)) if T.ndim == 1 else T.T.dot(np.diag(v)).dot(T))) for v in s2])
                byrows(ck, CentWhitenUP(mu=mu, T=T), np.hstack((G, s2)), np.hstack((y, S)), 'CentWhitenUP, ' + what)
                n2 = (y ** 2).sum(axis=1, keepdims=True)
                ok = n2[:, 0] > 1e-3
                byrows(ck, LNormUP(mu=mu, T=T), np.hstack((G, s2))[ok], np.hstack((y[ok] / np.sqrt(n2[ok]), S[ok] / n2[ok])), 'LNormUP, ' + what, rtol=1e-6)
            ck.state((k, mu is None, what))
    if k == 5:
        for U in (np.array([[0.6, 0.8]]), np.array([[1.0, 0.0]]), np.eye(2)):
            want = G - (G.dot(U.T)).dot(U)
            byrows(ck, NAP(U=U), G.copy(), want, 'NAP, directions %s' % U.tolist())
            ck.close(want.dot(U.T), np.zeros((len(G), len(U))), 'NAP: projection left')
            ck.state(U.tolist())


def orient(V):
    """columns up to sign."""
    V = V.copy()
    for j in range(V.shape[1]):
        i = np.argmax(np.abs(V[:, j]))
        if V[i, j] < 0:
            V[:, j] *= -1
    return V


def fitx(ck, c):
    """CentWhiten, LNorm, PCA, MVN, Normal of all small data sets."""
    from hyperion.transforms import CentWhiten, LNorm, PCA, MVN, CentWhitenUP, LNormUP
    g = [np.array(p) for p in itertools.product((-1.0, 0.5, 2.0), repeat=2)]
    rest = c['n'] - 2
    for idx in itertools.combinations_with_replacement(range(9), rest):
        x = np.array([g[c['a']], g[c['b']]] + [g[i] for i in idx])
        what = 'fitted to %s' % x.tolist()
        x0 = x.copy()
        m = x.mean(axis=0)
        C = (x - m).T.dot(x - m) / len(x)
        e = np.linalg.eigvalsh(C)
        t = MVN()
        if (x.std(axis=0) > 1e-6).all():
            t.fit(x)
            y = t.predict(x)
            ck.close(y.mean(axis=0), [0, 0], 'MVN ' + what + ': mean', atol=1e-9)
            ck.close((y ** 2).mean(axis=0), [1, 1], 'MVN ' + what + ': variance', rtol=1e-8)
            ck.close(y, (x - m) / x.std(axis=0), 'MVN ' + what, rtol=1e-8)
            ck.step()
        for um, ut in itertools.product((True, False), repeat=2):
            for dim in (None, 1, 2):
                old = np.array([[3.0, 1.0], [0.0, 1.0]])
                t = PCA(mu=np.array([9.0, 8.0]), T=old, update_mu=um, update_T=ut, pca_dim=dim)
                t.fit(x)
                ck.close(t.mu, m if um else [9.0, 8.0], 'PCA ' + what + ': mean', rtol=1e-9, atol=1e-9)
                if not ut:
                    ck.check(np.array_equal(t.T, old), 'PCA ' + what + ': matrix changed')
                else:
                    V = t.T
                    ck.check(V.shape == (2, dim or 2), 'PCA %s: shape %s' % (what, V.shape))
                    ck.close(V.T.dot(V), np.eye(V.shape[1]), 'PCA ' + what + ': orthonormal', atol=1e-9)
                    P = V.T.dot(C).dot(V)
                    ck.close(P, np.diag(e[::-1][:V.shape[1]]), 'PCA ' + what + ': variances of the components in order', atol=1e-9)
                    ck.check((V[0] >= 0).all(), 'PCA ' + what + ': sign')
                ck.step()
            if e[0] > 1e-3:
                for cls in (CentWhiten, LNorm, CentWhitenUP, LNormUP):
                    up = cls in (CentWhitenUP, LNormUP)
                    old = np.array([[3.0, 1.0], [0.0, 1.0]])
                    t = cls(mu=np.array([9.0, 8.0]), T=old, update_mu=um, update_T=ut)
                    t.fit(np.hstack((x, np.abs(x) + 0.1)) if up else x)
                    nm = cls.__name__ + ' ' + what
                    ck.close(t.mu, m if um else [9.0, 8.0], nm + ': mean', rtol=1e-9, atol=1e-9)
                    if not ut:
                        ck.check(np.array_equal(t.T, old), nm + ': matrix changed')
                    else:
                        ck.close(t.T.T.dot(C).dot(t.T), np.eye(2), nm + ': covariance of the whitened data', atol=1e-7, rtol=1e-7)
                        n2 = (t.T ** 2).sum(axis=0)
                        ck.check(n2[0] <= n2[1] * (1 + 1e-9), nm + ': order of the directions')
                    if um and ut and cls is CentWhiten:
                        y = t.predict(x)
                        ck.close(y.mean(axis=0), [0, 0], nm + ': mean of the data', atol=1e-8)
                        ck.close(y.T.dot(y) / len(x), np.eye(2), nm + ': covariance of the data', atol=1e-7)
                    if cls is LNorm:
                        y = t.predict(x)
                        ok = nrm(lin(x, t.mu, t.T))[:, 0] > 1e-3
                        ck.close(nrm(y[ok])[:, 0], np.full(ok.sum(), math.sqrt(2)), nm + ': length', rtol=1e-6)
                    ck.step()
        ck.check(np.array_equal(x, x0), what + ': data changed')
        if e[0] > 1e-3:
            # weights equal repetitions
            for w in itertools.product((1, 2), repeat=len(x)):
                a, b = CentWhiten(), CentWhiten()
                W = np.array(w, dtype=float)
                a.fit(x, sample_weight=W)
                b.fit(np.repeat(x, w, axis=0))
                ck.close(a.mu, b.mu, 'weights %s, %s: mean' % (w, what), rtol=1e-8, atol=1e-8)
                mm = np.average(x, axis=0, weights=W)
                Cw = ((x - mm).T * W).dot(x - mm) / W.sum()
                ck.close(a.T.T.dot(Cw).dot(a.T), np.eye(2), 'weights %s, %s: covariance' % (w, what), atol=1e-7, rtol=1e-7)
                ck.check(np.array_equal(W, w), 'weights changed')
                ck.step()
        ck.state(x.tolist())


PTS = np.array([[0.5, -1.0, 0.25], [2.0, 0.75, -1.5], [-1.25, 0.5, 1.0], [0.1, 1.9, 0.6], [-0.7, -2.1, 1.3], [1.1, 0.2, -0.4], [-0.3, 1.2, 2.2]])


def fitc(ck, c):
    """class-based transforms for all labellings."""
    from hyperion.transforms import LDA, NAP, NDA, SbSw
    from hyperion.transforms.sb_sw import NSbSw
    d, n, k, s = c['d'], c['n'], c['k'], c['s']
    x = PTS[:n, :d]
    labs = [l for l in itertools.product(range(k), repeat=n) if len(set(l)) == k]
    for lab in labs[s::4]:
        y = np.array(lab)
        what = '%d values, labels %s' % (d, lab)
        mus = np.array([x[y == j].mean(axis=0) for j in range(k)])
        Sws = [np.cov(x[y == j].T, bias=True).reshape(d, d) for j in range(k)]
        mu, Sb, Sw = mus.mean(axis=0), np.cov(mus.T, bias=True).reshape(d, d), sum(Sws) / k
        x0, y0 = x.copy(), y.copy()
        t = SbSw()
        t.fit(x, y)
        ck.close(t.mu, mu, 'SbSw, ' + what + ': mean', rtol=1e-8, atol=1e-9)
        ck.close(t.Sb, Sb, 'SbSw, ' + what + ': between classes', rtol=1e-8, atol=1e-9)
        ck.close(t.Sw, Sw, 'SbSw, ' + what + ': within classes', rtol=1e-8, atol=1e-9)
        ck.check(t.num_classes == k, 'SbSw, ' + what + ': classes')
        # accumulated over every division of the classes in two
        for r in range(1, 2 ** (k - 1)):
            m = np.array([(r >> j) & 1 for j in range(k)], dtype=bool)
            parts = []
            for mm in (m, ~m):
                p = SbSw()
                p.fit(x[mm[y]], y[mm[y]], normalize=False)
                parts.append(p)
            a = SbSw.accum_stats(parts)
            a.normalize()
            ck.close(a.mu, mu, 'SbSw accumulated, ' + what, rtol=1e-8, atol=1e-9)
            ck.close(a.Sb, Sb, 'SbSw accumulated, ' + what, rtol=1e-8, atol=1e-9)
            ck.close(a.Sw, Sw, 'SbSw accumulated, ' + what, rtol=1e-8, atol=1e-9)
            ck.step()
        ck.step()
        if np.linalg.eigvalsh(Sw)[0] > 1e-2:
            e = la.eigh(Sb, Sw, eigvals_only=True)[::-1]
            for dim in [None] + list(range(1, d + 1)):
                for um, ut in itertools.product((True, False), repeat=2):
                    old = 2.0 * np.eye(d)
                    l = LDA(mu=np.full(d, 7.0), T=None if ut else old, lda_dim=dim, update_mu=um, update_T=ut)
                    l.fit(x, y)
                    nm = 'LDA, %s, dimension %s' % (what, dim)
                    ck.close(l.mu, mu if um else np.full(d, 7.0), nm + ': mean', rtol=1e-8, atol=1e-9)
                    if ut:
                        disc(ck, l.T, dim or d, Sb, Sw, e, nm)
                    else:
                        ck.check(np.array_equal(l.T, old), nm + ': matrix changed')
                    ck.step()
                a = NDA()
                a.fit(mu, Sb.copy(), Sw.copy(), nda_dim=dim)
                disc(ck, a.T, dim or d, Sb, Sw, e, 'NDA, %s, dimension %s' % (what, dim))
                ck.close(a.predict(x), (x - mu).dot(a.T), 'NDA, ' + what, rtol=1e-9, atol=1e-9)
        # nuisance directions: the leading within-class directions, classes weighted equally
        xx = np.vstack([(x[y == j] - mus[j]) / math.sqrt((y == j).sum() * k) for j in range(k)])
        e, v = np.linalg.eigh(xx.T.dot(xx))
        for dim in range(1, d + 1):
            if dim < d and e[d - dim] - e[d - dim - 1] < 1e-3:
                continue
            if n < d:
                continue
            t = NAP()
            t.fit(x, dim, y)
            nm = 'NAP, %s, dimension %d' % (what, dim)
            ck.check(t.U.shape == (dim, d), nm + ': shape %s' % (t.U.shape,))
            ck.close(t.U.T.dot(t.U), v[:, d - dim:].dot(v[:, d - dim:].T), nm + ': projection', rtol=1e-7, atol=1e-7)
            ck.close(t.predict(x), x - x.dot(v[:, d - dim:]).dot(v[:, d - dim:].T), nm, rtol=1e-7, atol=1e-7)
            ck.step()
        nn = min((y == j).sum() for j in range(k))
        for K in range(1, min(nn, 3) + 1):
            for alpha in (1, 2):
                t = NSbSw(K=K, alpha=alpha)
                ref = nsbsw(x, y, k, K, alpha)
                if ref is None:
                    continue
                t.fit(x, y)
                for g, w, nm in zip((t.mu, t.Sb, t.Sw), ref, ('mean', 'between', 'within')):
                    ck.close(g, w, 'NSbSw, %s, %d neighbours, alpha %d: %s' % (what, K, alpha, nm), rtol=1e-7, atol=1e-9)
                ck.step()
        ck.check(np.array_equal(x, x0) and np.array_equal(y, y0), what + ': inputs changed')
        ck.state((d, n, lab))


def disc(ck, V, dim, Sb, Sw, e, nm):
    ck.check(V.shape == (len(Sb), dim), nm + ': shape %s' % (V.shape,))
    ck.close(V.T.dot(Sw).dot(V), np.eye(dim), nm + ': within-class covariance of the output', atol=1e-6, rtol=1e-6)
    ck.close(V.T.dot(Sb).dot(V), np.diag(e[:dim]), nm + ': discriminability in order', atol=1e-6 * (1 + e[0]), rtol=1e-6)
    ck.check((V[0] >= 0).all(), nm + ': sign')


def nsbsw(x, y, k, K, alpha):
    n, d = x.shape
    dist = np.zeros((k, n))
    delta = np.zeros((k, n, d))
    for i in range(k):
        xi = x[y == i]
        for l in range(n):
            r = ((xi - x[l]) ** 2).sum(axis=1)
            o = np.argsort(r, kind='mergesort')
            if K < len(r) and abs(r[o[K]] - r[o[K - 1]]) < 1e-9:
                return None
            dist[i, l] = math.sqrt(r[o[K - 1]]) ** alpha
            delta[i, l] = x[l] - xi[o[:K]].mean(axis=0)
    Sb, Sw = np.zeros((d, d)), np.zeros((d, d))
    for i in range(k):
        own = np.flatnonzero(y == i)
        num, den = np.zeros((d, d)), 0.0
        for j in range(k):
            for l in own:
                S = np.outer(delta[j, l], delta[j, l])
                if i == j:
                    Sw += S / len(own)
                else:
                    if dist[i, l] + dist[j, l] == 0:
                        return None
                    w = min(dist[i, l], dist[j, l]) / (dist[i, l] + dist[j, l])
                    num += w * S
                    den += w
        if den == 0:
            return None
        Sb += num / den
    return np.mean([x[y == j].mean(axis=0) for j in range(k)], axis=0), Sb / k, Sw / k


def given(ck, c):
    """fits from given means and covariances."""
    from hyperion.transforms import CentWhiten, PCA, LDA
    mats = [np.array([[2.0, 0.5], [0.5, 1.0]]), np.diag([0.25, 4.0]), np.array([[1.0, -0.9], [-0.9, 1.0]]), np.array([[1.0, 0, 0.2], [0, 3.0, 0.1], [0.2, 0.1, 0.5]]), np.array([[2.0]])]
    for C in mats:
        d = len(C)
        mu = np.arange(d) + 0.5
        e = np.linalg.eigvalsh(C)[::-1]
        what = 'given covariance %s' % C.tolist()
        C0 = C.copy()
        if c['k'] == 0:
            t = CentWhiten()
            t.fit(mu=mu, C=C)
            ck.close(t.T.T.dot(C).dot(t.T), np.eye(d), 'CentWhiten, ' + what, atol=1e-8)
            ck.close(t.mu, mu, 'CentWhiten, ' + what)
        elif c['k'] == 1:
            for dim in [None] + list(range(1, d + 1)):
                t = PCA(pca_dim=dim)
                t.fit(mu=mu, C=C)
                ck.close(t.T.T.dot(t.T), np.eye(dim or d), 'PCA, ' + what, atol=1e-8)
                ck.close(t.T.T.dot(C).dot(t.T), np.diag(e[:dim]), 'PCA, ' + what, atol=1e-8)
        else:
            for Sw in mats:
                if Sw.shape != C.shape:
                    continue
                ee = la.eigh(C, Sw, eigvals_only=True)[::-1]
                for dim in [None] + list(range(1, d + 1)):
                    t = LDA(lda_dim=dim)
                    t.fit(None, None, mu=mu, Sb=C, Sw=Sw)
                    disc(ck, t.T, dim or d, C, Sw, ee, 'LDA, %s, within %s' % (what, Sw.tolist()))
        ck.check(np.array_equal(C, C0), what + ': input changed')
        ck.step()
        ck.state((c['k'], C.tolist()))


def gauss(ck, c):
    """Gaussianizer: the normal quantile of the rank among the training values."""
    from hyperion.transforms import Gaussianizer
    vals = (-1.0, 0.5, 0.75, 2.0, 3.0)
    probe = np.array([-5.0, -1.0, 0.0, 0.5, 0.6, 0.75, 1.0, 2.0, 2.5, 3.0, 9.0])
    for n in (2, 3, 4):
        for col in itertools.product(vals, repeat=n):
            if hash_mod(col) != c['k']:
                continue
            for mx in (None, 2, 3, 10):
                x = np.array([col, col[::-1]]).T + np.array([0.0, 0.25])
                x0 = x.copy()
                t = Gaussianizer(max_vectors=mx)
                t.fit(x)
                p = np.array([probe, probe + 0.25]).T
                y = t.predict(p.copy())
                srt = np.sort(col)
                if mx is not None and n > mx:
                    srt = srt[[int(np.round(v)) for v in np.linspace(0, n - 1, mx)]]
                want = [math.sqrt(2) * erfinv(2 * (1 + (srt < v).sum()) / (len(srt) + 2) - 1) for v in probe]
                what = 'Gaussianizer of %s, at most %s vectors' % (col, mx)
                ck.close(y[:, 0], want, what, rtol=1e-9, atol=1e-12)
                ck.close(y[:, 1], want, what, rtol=1e-9, atol=1e-12)
                ck.check(np.all(np.diff(y[:, 0]) >= 0), what + ': not monotone')
                ck.check(np.array_equal(x, x0), what + ': data changed')
                byrows(ck, t, p, np.array([want, want]).T, what)
                ck.state((col, mx))


def hash_mod(col):
    return int(sum((i + 1) * v * 4 for i, v in enumerate(col))) % 6


def compose(ck, c):
    from hyperion.transforms import CentWhiten, LNorm, PCA, LDA, MVN, NAP, Gaussianizer, TransformList
    mu = np.array([0.5, -1.0])

    def pool():
        return [CentWhiten(mu=mu, T=np.array([[2.0, 0.5], [-1.0, 0.25]]), name='cw'), LNorm(mu=mu, name='ln'), PCA(mu=None, T=np.array([[0.6, 0.8], [0.8, -0.6]]), name='pca'),
                LDA(mu=-mu, T=np.array([[1.0, 0.5], [0.0, 2.0]]), name='lda'), MVN(mu=mu, s=np.array([2.0, 0.25]), name='mvn'), NAP(U=np.array([[0.6, 0.8]]), name='nap'), Gaussianizer(r=np.array([[0.0, 0.0], [-0.3, -1.0], [0.7, 0.2]]), name='g')]

    X = G + np.array([0.125, 0.0625])
    n = len(pool())
    for L in (1, 2, 3):
        for seq in itertools.product(range(n), repeat=L):
            if sum(seq) % 6 != c['k']:
                continue
            want = X.copy()
            for i in seq:
                want = pool()[i].predict(want)
            ts = [pool()[i] for i in seq]
            for style in range(3):
                if style == 0:
                    t = TransformList(list(ts))
                elif style == 1:
                    t = TransformList(ts[0])
                    for u in ts[1:]:
                        t.append(u)
                else:
                    t = TransformList([TransformList(ts[:1])] + ts[1:])
                x = X.copy()
                ck.eq(t.predict(x), want, 'list of transforms %s' % (seq,))
                ck.check(np.array_equal(x, X), 'list of transforms %s: input changed' % (seq,))
                ck.step()
            ck.state(seq)
