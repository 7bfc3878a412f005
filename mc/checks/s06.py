"""S06: numeric helpers."""
import itertools
import math
from fractions import Fraction
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small matrices, vectors and options on the real functions, compared with exact rational or elementary definitions'
BOUND = {
    'quick': 'all positive definite matrices of 1, 2 and (a family of) 3 rows over a grid x all options; all vectors of up to 3 values over a grid with extremes up to 1e4 and infinities; all labellings of up to 6 items in 4 classes; '
             'all lists of up to 4 sequence lengths',
    'thorough': 'finer grids, labellings of 7 items'}
ASSUMPTIONS = ['logistic functions are given arrays', 'a log-sum-exp has at least one finite value']
CHUNK = 1


def cases(tier):
    q = tier == 'quick'
    for d in (1, 2, 3):
        for s in range(8):
            yield dict(kind='pd', d=d, s=s, fine=not q)
            yield dict(kind='tri', d=d, s=s, fine=not q)
            yield dict(kind='floor', d=d, s=s, fine=not q)
    for d in range(1, 6):
        yield dict(kind='pack', d=d)
    for n in (1, 2, 3):
        for a in range(9):
            yield dict(kind='soft', n=n, a=a)
    yield dict(kind='logistic')
    for n in range(1, 7 if q else 8):
        yield dict(kind='onehot', n=n)
    for n in range(1, 5):
        yield dict(kind='seqs', n=n)
    yield dict(kind='gain')


def run_case(ck, c):
    with np.errstate(all='ignore'):
        globals()[c['kind']](ck, c)
    ck.trace()


def det(A):
    """exact determinant"""
    A = [[Fraction(float(v)) for v in r] for r in A]
    n, d = len(A), Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            A[i], A[p] = A[p], A[i]
            d = -d
        d *= A[i][i]
        for r in range(i + 1, n):
            f = A[r][i] / A[i][i]
            A[r] = [a - f * b for a, b in zip(A[r], A[i])]
    return d


def inv(A):
    """exact inverse by cofactors"""
    n = len(A)
    D = det(A)
    A = np.asarray(A)
    return np.array([[float((-1) ** (i + j) * (det(np.delete(np.delete(A, j, 0), i, 1)) if n > 1 else 1) / D) for j in range(n)] for i in range(n)])


def pds(d, s, fine=False):
    dg = (0.25, 1.0, 3.0, 50.0) if not fine else (0.01, 0.25, 1.0, 3.0, 50.0, 1e4)
    od = (-0.5, 0.0, 0.75, 2.0) if not fine else (-1.5, -0.5, 0.0, 0.3, 0.75, 2.0)
    if d == 3 and not fine:
        dg, od = (0.5, 1.0, 4.0), (-0.5, 0.0, 0.75)
    k = 0
    no = d * (d - 1) // 2
    for v in itertools.product(dg, repeat=d):
        for o in itertools.product(od, repeat=no):
            k += 1
            if k % 8 != s:
                continue
            A = np.diag(v)
            for (i, j), x in zip(itertools.combinations(range(d), 2), o):
                A[i, j] = A[j, i] = x
            if all(det(A[:m, :m]) > Fraction(1, 1000) for m in range(1, d + 1)):
                yield A


def vecs(d):
    return [np.array(v) for v in itertools.product((-1.0, 0.5, 2.0), repeat=d)]


def pd(ck, c):
    from hyperion.utils import math as M
    d = c['d']
    X = np.array(vecs(d)).T             # d x n
    for A in pds(d, c['s'], c['fine']):
        A0 = A.copy()
        I, ld = inv(A), math.log(det(A))
        what = 'matrix %s' % A.tolist()
        tol = dict(rtol=1e-8, atol=1e-8 * np.abs(I).max())
        ck.close(M.logdet_pdmat(A), ld, what + ': log-determinant', rtol=1e-10, atol=1e-10)
        for right, rl, ri in itertools.product((False, True), repeat=3):
            r = M.invert_pdmat(A, right_inv=right, return_logdet=rl, return_inv=ri)
            ck.check(len(r) == 2 + rl + ri, what + ': number of results')
            ck.close(r[1].T.dot(r[1]), A, what + ': Cholesky factor', rtol=1e-10, atol=1e-10)
            ck.close(r[1], np.triu(r[1]), what + ': Cholesky factor is upper triangular')
            if rl:
                ck.close(r[2], ld, what + ': log-determinant', rtol=1e-10, atol=1e-10)
            if ri:
                ck.close(r[-1], I, what + ': inverse', **tol)
            if right:
                ck.close(r[0](X.T), X.T.dot(I), what + ': row vectors times the inverse', **tol)
                ck.close(r[0](X[:, 0]), X[:, 0].dot(I), what + ': row vector times the inverse', **tol)
            else:
                ck.close(r[0](X), I.dot(X), what + ': inverse times vectors', **tol)
                ck.close(r[0](X[:, 0]), I.dot(X[:, 0]), what + ': inverse times vector', **tol)
            ck.step()
        ck.check(np.array_equal(A, A0), what + ': the matrix changed')
        # Fisher ratios
        B = np.eye(d) * 0.5 + A
        for dm in vecs(d)[:5]:
            m1, m2 = dm + 1, np.ones(d)
            want = dm.dot(inv(A + B)).dot(dm)
            ck.close(M.fisher_ratio(m1, A, m2, B), want, what + ': Fisher ratio', rtol=1e-8, atol=1e-10)
            want = dm.dot(np.linalg.inv(inv(A) + inv(B))).dot(dm)
            ck.close(M.fisher_ratio_with_precs(m1, A, m2, B), want, what + ': Fisher ratio of precisions', rtol=1e-7, atol=1e-10)
        ck.state(A)
    for bad in ([[1.0, 2.0], [2.0, 1.0]], [[-1.0]], [[0.0, 0.0], [0.0, 1.0]]):
        ck.raises(lambda: M.invert_pdmat(np.array(bad)), 'matrix %s is inverted as positive definite' % bad)
        ck.raises(lambda: M.logdet_pdmat(np.array(bad)), 'matrix %s has a log-determinant' % bad)
    ck.raises(lambda: M.invert_pdmat(np.ones((2, 3))), 'matrix that is not square is inverted')


def tri(ck, c):
    from hyperion.utils import math as M
    d = c['d']
    X = np.array(vecs(d)).T
    for A in pds(d, c['s'], c['fine']):
        for lower in (False, True):
            T = np.tril(A) if lower else np.triu(A)
            # the other triangle is not looked at
            G = T + (np.triu(np.full((d, d), 7.0), 1) if lower else np.tril(np.full((d, d), 7.0), -1))
            I = inv(T)
            tol = dict(rtol=1e-8, atol=1e-9 * np.abs(I).max())
            what = 'triangular matrix %s' % T.tolist()
            for right, rl, ri, m in itertools.product((False, True), (False, True), (False, True), (T, G)):
                r = M.invert_trimat(m, lower=lower, right_inv=right, return_logdet=rl, return_inv=ri)
                f = r[0] if rl or ri else r
                if rl:
                    ck.close(r[1], float(np.log(np.diag(T)).sum()), what + ': log-determinant', rtol=1e-12, atol=1e-12)
                if ri:
                    ck.close(r[-1], I, what + ': inverse', **tol)
                ck.close(f(X.T) if right else f(X), X.T.dot(I) if right else I.dot(X), what + ': product', **tol)
                ck.step()
            ck.state((lower, A))


def floor(ck, c):
    """eigenvalues relative to the floor are raised to one, directions kept"""
    from hyperion.utils import math as M
    d = c['d']
    floors = [0.5, 2.0] + list(itertools.islice(pds(d, (c['s'] + 3) % 8), 6))
    for S in pds(d, c['s'], False):
        for F in floors:
            Fm = F * np.eye(d) if np.isscalar(F) else F
            ch = np.linalg.cholesky(Fm)
            ic = np.linalg.inv(ch)
            w, v = np.linalg.eigh(ic.dot(S).dot(ic.T))
            T = ch.dot(v)
            want = (T * np.maximum(w, 1)).dot(T.T)
            what = 'covariance %s floored with %s' % (S.tolist(), np.asarray(F).tolist())
            S0, F0 = S.copy(), np.copy(F)
            got = M.fullcov_varfloor(S, F)
            ck.close(got, want, what, rtol=1e-7, atol=1e-7)
            ck.check(np.array_equal(S, S0) and np.array_equal(F, F0), what + ': inputs changed')
            ck.step()
            cholS = np.linalg.cholesky(S)
            if np.isscalar(F):
                r = M.fullcov_varfloor_from_cholS(cholS.T.copy(), math.sqrt(F))
                ck.close(r.T.dot(r), want, what + ': from scalar and Cholesky factor', rtol=1e-7, atol=1e-7)
                r = M.fullcov_varfloor_from_cholS(cholS.copy(), math.sqrt(F), lower=True)
                ck.close(r.dot(r.T), want, what + ': from scalar and lower Cholesky factor', rtol=1e-7, atol=1e-7)
                continue
            ck.close(M.fullcov_varfloor(S, ch.T.copy(), F_is_chol=True), want, what + ': from the Cholesky factor', rtol=1e-7, atol=1e-7)
            ck.close(M.fullcov_varfloor(S, ch.copy(), F_is_chol=True, lower=True), want, what + ': from the lower Cholesky factor', rtol=1e-7, atol=1e-7)
            r = M.fullcov_varfloor_from_cholS(cholS.T.copy(), ch.T.copy())
            ck.close(r.T.dot(r), want, what + ': Cholesky factors', rtol=1e-7, atol=1e-7)
            ck.close(r, np.triu(r), what + ': upper factor')
            r = M.fullcov_varfloor_from_cholS(cholS.copy(), ch.copy(), lower=True)
            ck.close(r.dot(r.T), want, what + ': lower Cholesky factors', rtol=1e-7, atol=1e-7)
            ck.close(r, np.tril(r), what + ': lower factor')
        ck.state(S)


def pack(ck, c):
    from hyperion.utils import math as M
    d = c['d']
    n = d * (d + 1) // 2
    for off in range(3):
        v = np.arange(1, n + 1) * 1.5 + off
        for lower in (False, True):
            idx = [(i, j) for i in range(d) for j in range(d) if (j <= i if lower else j >= i)]
            for df in (None, 0.5, 2, 0):
                v0 = v.copy()
                A = M.vec2symmat(v, lower=lower, diag_factor=df)
                W = np.zeros((d, d))
                for (i, j), x in zip(idx, v):
                    W[i, j] = W[j, i] = x * (df if df is not None and i == j else 1)
                what = '%d values, lower %s, factor %s' % (n, lower, df)
                ck.eq(A, W, what + ': symmetric matrix')
                ck.check(np.array_equal(v, v0), what + ': input changed')
                S = np.zeros((d, d))
                for (i, j), x in zip(idx, v):
                    S[i, j] = S[j, i] = x
                S0 = S.copy()
                u = M.symmat2vec(S, lower=lower, diag_factor=df)
                ck.eq(u, np.array([S[i, j] * (df if df is not None and i == j else 1) for i, j in idx]), what + ': vector')
                ck.check(np.array_equal(S, S0), what + ': input changed')
                if df:
                    ck.eq(M.vec2symmat(u, lower=lower, diag_factor=1.0 / df), S, what + ': back')
                ck.step()
            T = M.vec2trimat(v, lower=lower)
            W = np.zeros((d, d))
            for (i, j), x in zip(idx, v):
                W[i, j] = x
            ck.eq(T, W, 'triangular matrix, lower %s' % lower)
            ck.eq(M.trimat2vec(T, lower=lower), v, 'triangular matrix to vector, lower %s' % lower)
            ck.state((d, off, lower))


def xlse(v):
    m = max(v)
    return m + math.log(math.fsum(math.exp(a - m) for a in v))


VALS = (-np.inf, -1e4, -750.0, -1.0, 0.0, 1.0, 2.5, 750.0, 1e4)


def soft(ck, c):
    from hyperion.utils import math as M
    rows = [v for v in itertools.product(VALS, repeat=c['n']) if v[0] == VALS[c['a']] and max(v) > -np.inf]
    if not rows:
        return
    X = np.array(rows)
    X0 = X.copy()
    L = np.array([xlse(v) for v in rows])
    P = np.array([[math.exp(a - l) for a in v] for v, l in zip(rows, L)])
    for arr, ax, wl, wp in ((X, -1, L, P), (X, 1, L, P), (X.T.copy(), 0, L, P.T), (X.reshape(1, len(X), c['n']), -1, L[None], P[None]), (X.reshape(1, len(X), c['n']).transpose(0, 2, 1).copy(), 1, L[None], P.T[None])):
        a0 = arr.copy()
        got = M.softmax(arr, axis=ax)
        ck.close(got, wp, 'softmax along %d' % ax, rtol=1e-9, atol=1e-12)
        ck.close(got.sum(axis=ax), np.ones_like(wl), 'softmax along %d: sum' % ax, rtol=1e-12)
        ck.close(M.logsumexp(arr, axis=ax), wl, 'log-sum-exp along %d' % ax, rtol=1e-9, atol=1e-9)
        ck.check(np.array_equal(arr, a0), 'softmax or log-sum-exp changed its input')
        ck.step()
    for i, v in enumerate(rows):
        ck.close(M.logsumexp(np.array(v)), L[i], 'log-sum-exp of %s' % (v,), rtol=1e-9, atol=1e-9)
        ck.close(M.softmax(np.array(v)), P[i], 'softmax of %s' % (v,), rtol=1e-9, atol=1e-12)
        ck.state(v)


def logistic(ck, c):
    from hyperion.utils import math as M
    xs = [s * v for v in (0.0, 1e-8, 0.5, 1.0, 2.0, 10.0, 30.0, 36.0, 37.0, 50.0, 99.0, 99.999, 100.0, 100.001, 101.0, 200.0, 700.0, 709.0, 710.0, 745.0, 1e3, 1e6, 1e300, np.inf) for s in (1, -1)]
    ls = []
    for x in xs:
        if x >= 0:
            ls.append(-math.log1p(math.exp(-x)))
        else:
            ls.append(x - math.log1p(math.exp(x)) if x > -np.inf else -np.inf)
    sg = [math.exp(l) for l in ls]
    arr = np.array(xs)
    for shape in ((-1,), (1, -1), (-1, 1), (4, -1)):
        a = arr.reshape(shape)
        a0 = a.copy()
        for f, want, what in ((M.logsigmoid, ls, 'logsigmoid'), (M.neglogsigmoid, [-l for l in ls], 'neglogsigmoid'), (M.sigmoid, sg, 'sigmoid')):
            got = f(a)
            w = np.array(want).reshape(shape)
            ck.close(got, w, what, rtol=1e-9, atol=1e-14)
            ck.check(np.array_equal(a, a0), what + ' changed its input')
            for x, w1 in zip(xs, want):
                ck.close(f(np.array([x])), [w1], '%s(%g)' % (what, x), rtol=1e-9, atol=1e-14)
            ck.step()

    ck.check(bool(np.all(np.diff(M.sigmoid(np.sort(arr))) >= 0)), 'sigmoid is not monotone')
    ck.check(bool(np.all(np.diff(M.logsigmoid(np.sort(arr))[1:]) >= -1e-12)), 'logsigmoid is not monotone')


def onehot(ck, c):
    from hyperion.utils import math as M
    from hyperion.utils.tensors import to3D_by_class
    for ids in itertools.product(range(4), repeat=c['n']):
        a = np.array(ids)
        for nc in (None, max(ids) + 1, max(ids) + 3):
            P = M.int2onehot(a, nc)
            ck.eq(P, np.array([[1.0 if k == i else 0.0 for k in range(nc or max(ids) + 1)] for i in ids]), 'one-hot of %s in %s classes' % (ids, nc))
        x = np.arange(2 * len(ids)).reshape(-1, 2) * 1.0 + 1
        cnt = [ids.count(k) for k in range(max(ids) + 1)]
        for ml in (0, max(cnt), max(cnt) + 2):
            X, w = to3D_by_class(x, a, ml)
            n = ml or max(cnt)
            what = 'vectors of classes %s in blocks of %d' % (ids, ml)
            WX, WW = np.zeros((len(cnt), n, 2)), np.zeros((len(cnt), n))
            for k in range(len(cnt)):
                rows = [x[i] for i in range(len(ids)) if ids[i] == k]
                WX[k, :len(rows)] = np.array(rows).reshape(-1, 2)
                WW[k, :len(rows)] = 1
            ck.eq(np.asarray(X), WX, what)
            ck.eq(np.asarray(w), WW, what + ': weights')
            ck.check(X.dtype == x.dtype, what + ': type')
            ck.step()
        if max(cnt) > 1:
            ck.raises(lambda: to3D_by_class(x, a, max(cnt) - 1), 'classes %s fit in blocks of %d' % (ids, max(cnt) - 1))
        ck.state(ids)


def seqs(ck, c):
    from hyperion.utils.tensors import to3D_by_seq
    for lens in itertools.product((1, 2, 3, 5), repeat=c['n']):
        for dt in ('float32', 'float64'):
            x = [np.arange(2 * n).reshape(n, 2).astype(dt) + 10 * i + 1 for i, n in enumerate(lens)]
            for ml in (0, max(lens), max(lens) + 2):
                X, w = to3D_by_seq(x, ml)
                n = ml or max(lens)
                what = 'sequences of lengths %s in blocks of %d' % (lens, ml)
                WX, WW = np.zeros((len(lens), n, 2), dt), np.zeros((len(lens), n), dt)
                for k, s in enumerate(x):
                    WX[k, :len(s)] = s
                    WW[k, :len(s)] = 1
                ck.eq(np.asarray(X), WX, what)
                ck.eq(np.asarray(w), WW, what + ': weights')
                ck.check(X.dtype == np.dtype(dt), what + ': type')
                ck.step()
            if max(lens) > 1:
                ck.raises(lambda: to3D_by_seq(x, max(lens) - 1), 'sequences of lengths %s fit in blocks of %d' % (lens, max(lens) - 1))
        ck.state(lens)


def gain(ck, c):
    from hyperion.utils import misc as U
    x = np.array([0.25, 1.0, 3.0, 100.0])
    for db in (-40.0, -6.0, 0.0, 3.0, 20.0, 25):
        g = 10 ** (db / 20.0)
        for t, enc in (('fft', lambda a: a), ('fb', lambda a: a), ('fb2', lambda a: a ** 2), ('logfft', np.log), ('logfb', np.log), ('logfb2', lambda a: np.log(a ** 2))):
            ck.close(U.apply_gain(enc(x), t, db), enc(g * x), 'gain of %g dB on %s' % (db, t), rtol=1e-9, atol=1e-9)
            ck.step()
    ck.raises(lambda: U.apply_gain(x, 'mel', 1.0), 'gain on unknown features')
    for s, v in (('true', True), ('t', True), ('yes', True), ('y', True), ('false', False), ('f', False), ('no', False), ('n', False)):
        for t in (s, s.upper(), s.capitalize()):
            ck.check(U.str2bool(t) is v, 'bool of %s is %s' % (t, U.str2bool(t)))
    for s in ('', '1', '0', 'tru', 'none', ' true'):
        ck.raises(lambda: U.str2bool(s), 'bool of %r' % s)
    P = np.array([-50.0, 0.0, -35.0, -34.9, -35.1])
    ck.eq(U.energy_vad(P), np.array([False, True, False, True, False]), 'energy threshold')
