"""Small PLDA models and their explicit Gaussian densities."""
import itertools
import math
import numpy as np

WS = {1: [np.array([[1.0]]), np.array([[2.5]])],
      2: [np.eye(2), np.array([[2.0, 0.5], [0.5, 1.0]]), np.diag([4.0, 0.25])],
      3: [np.array([[2.0, 0.5, -0.25], [0.5, 1.0, 0.25], [-0.25, 0.25, 0.5]])]}
MUS = {1: [np.zeros(1), np.array([1.5])], 2: [np.zeros(2), np.array([0.5, -1.0])], 3: [np.array([0.5, -1.0, 2.0])]}
VS = {(1, 1): [[[1.0]], [[-2.0]]],
      (2, 1): [[[1.0, 0.0]], [[-0.5, 2.0]]],
      (2, 2): [[[1.0, 0.5], [0.0, 2.0]], [[0.25, -1.0], [1.0, 0.5]]],
      (3, 1): [[[1.0, -0.5, 2.0]]],
      (3, 2): [[[1.0, -0.5, 2.0], [0.5, 1.0, 0.0]]],
      (3, 3): [[[1.0, -0.5, 2.0], [0.5, 1.0, 0.0], [0.25, 0.0, -1.0]]]}
BS = {1: [[[0.5]], [[2.0]]], 2: [[[0.5, 0.0], [0.0, 2.0]], [[1.0, -0.25], [-0.25, 0.5]]], 3: [[[1.0, -0.25, 0.0], [-0.25, 0.5, 0.25], [0.0, 0.25, 2.0]]]}
US = {(1, 1): [[[0.5]]], (2, 1): [[[0.5, 1.0]]], (2, 2): [[[0.5, 1.0], [-1.0, 0.25]]],
      (3, 1): [[[0.5, 1.0, -1.0]]], (3, 2): [[[0.5, 1.0, -1.0], [1.0, 0.0, 0.5]]]}
DS = {1: [[2.0]], 2: [[2.0, 0.5]], 3: [[2.0, 0.5, 1.0]]}


def specs(dims):
    """All model specifications (kind, x_dim, index tuple)."""
    for d in dims:
        for m in range(len(MUS[d])):
            for b in range(len(BS[d])):
                for w in range(len(WS[d])):
                    yield ('frplda', d, 0, 0, m, b, w, 0)
            for y in range(1, d + 1):
                for v in range(len(VS[d, y])):
                    for w in range(len(WS[d])):
                        yield ('splda', d, y, 0, m, v, w, 0)
                    for z in (1, 2):
                        for u in range(len(US.get((d, z), []))):
                            yield ('plda', d, y, z, m, v, 0, u)


def make(spec, **kw):
    from hyperion.pdfs.plda import FRPLDA, SPLDA, PLDA
    kind, d, y, z, m, v, w, u = spec
    mu = MUS[d][m].copy()
    if kind == 'frplda':
        return FRPLDA(mu=mu, B=np.array(BS[d][v]), W=WS[d][w].copy(), **kw)
    if kind == 'splda':
        return SPLDA(mu=mu, V=np.array(VS[d, y][v]), W=WS[d][w].copy(), **kw)
    return PLDA(mu=mu, V=np.array(VS[d, y][v]), U=np.array(US[d, z][u]), D=np.array(DS[d][0]), **kw)


def params(m):
    return dict((k, np.array(getattr(m, k))) for k in ('mu', 'B', 'W', 'V', 'U', 'D') if getattr(m, k, None) is not None)


def cov(m):
    """mean, between and within class covariances of the model."""
    k = type(m).__name__
    if k == 'FRPLDA':
        return np.array(m.mu), np.linalg.inv(m.B), np.linalg.inv(m.W)
    if k == 'SPLDA':
        return np.array(m.mu), m.V.T.dot(m.V), np.linalg.inv(m.W)
    return np.array(m.mu), m.V.T.dot(m.V), m.U.T.dot(m.U) + np.diag(1 / np.asarray(m.D))


def loggauss(x, S):
    s, ld = np.linalg.slogdet(S)
    assert s > 0
    return -0.5 * (len(x) * math.log(2 * math.pi) + ld + x.dot(np.linalg.solve(S, x)))


def loglk(par, X):
    """log-likelihood of the vectors X, all of the same speaker."""
    mu, Sb, Sw = par
    n = len(X)
    if n == 0:
        return 0.0
    S = np.kron(np.eye(n), Sw) + np.kron(np.ones((n, n)), Sb)
    return loggauss((np.asarray(X) - mu).ravel(), S)


def loglk_labels(par, X, ids):
    return math.fsum(loglk(par, X[np.asarray(ids) == k]) for k in sorted(set(ids)))


def labelings(n, kmax=None):
    """All restricted growth strings of length n (partitions), every class with members, ids 0..k-1."""
    def rec(p, k):
        if len(p) == n:
            yield tuple(p)
            return
        for a in range(min(k + 1, kmax or n)):
            yield from rec(p + [a], max(k, a + 1))
    yield from rec([], 0)
