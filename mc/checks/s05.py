"""S05: PLDA."""
import itertools
import math
import numpy as np
from mc import pldam as P

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of models, vectors, labellings, options and training histories on the real PLDA classes against the explicit joint Gaussian density'
BOUND = {
    'quick': 'all models of 3 kinds over a parameter grid with vectors of 1 and 2 values (one of 3): all pairs of grid vectors; all labellings of 3 enrolment x 3 test vectors with every method; '
             'statistics of all labellings of 5 vectors; 4 iterations of training for all labellings of 5 vectors in up to 3 classes x all sets of updated parameters x 3 kinds of update; model averaging and sampling',
    'thorough': 'all models up to 3 values, labellings of 4 enrolment x 4 test vectors, training with all labellings of 7 vectors and 8 iterations'}
ASSUMPTIONS = ['every class has at least one vector', 'statistics are full rank, so that no covariance is singular']
CHUNK = 1


def cases(tier):
    q = tier == 'quick'
    specs = list(P.specs((1, 2))) + (list(P.specs((3,)))[:: 3 if q else 1])
    for i, s in enumerate(specs):
        yield dict(kind='pairs', spec=list(s))
    n = 3 if q else 4
    for s in specs[::3 if q else 1]:
        yield dict(kind='nvsm', spec=list(s), n=n)
    for n in range(1, 6):
        yield dict(kind='stats', n=n)
    for s in specs:
        yield dict(kind='posterior', spec=list(s))
        yield dict(kind='average', spec=list(s))
    tr = [s for s in P.specs((2,)) if s[4] == 1][::2 if q else 1]
    for s in tr:
        flags = 3 if s[0] != 'plda' else 4
        for f in itertools.product((True, False), repeat=flags):
            yield dict(kind='train', spec=list(s), flags=list(f), n=5 if q else 7, epochs=4 if q else 8)
    for s in tr:
        yield dict(kind='fits', spec=list(s))
    for kind in ('frplda', 'splda', 'plda'):
        for y in (1, 2):
            yield dict(kind='scratch', model=kind, y=y, n=7 if q else 8)


def run_case(ck, c):
    globals()[c['kind']](ck, c)
    ck.trace()


def grid(d):
    v = {1: (-2.0, -0.5, 0.0, 1.0, 3.0), 2: (-1.5, 0.25, 2.0), 3: (-1.0, 1.5)}[d]
    return np.array(list(itertools.product(v, repeat=d)))


def unchanged(ck, m, p0, what):
    p = P.params(m)
    ck.check(set(p) == set(p0) and all(np.array_equal(p[k], p0[k]) for k in p), what + ': model changed')


def pairs(ck, c):
    m = P.make(c['spec'])
    p0, par = P.params(m), P.cov(P.make(c['spec']))
    x = grid(c['spec'][1])
    single = np.array([P.loglk(par, x[i:i + 1]) for i in range(len(x))])
    want = np.array([[P.loglk(par, x[[i, j]]) for j in range(len(x))] for i in range(len(x))]) - single[:, None] - single
    x1, x2 = x.copy(), x.copy()
    s = m.llr_1vs1(x1, x2)
    what = 'one-to-one scores of %s' % (c['spec'],)
    ck.check(s.shape == want.shape, what + ': shape %s' % (s.shape,))
    ck.close(s, want, what, rtol=1e-8, atol=1e-8)
    ck.close(s, s.T, what + ': symmetry', rtol=1e-8, atol=1e-8)
    ck.check(np.array_equal(x1, x) and np.array_equal(x2, x), what + ': inputs changed')
    for i in range(len(x)):
        for j in range(len(x)):
            ck.close(m.llr_1vs1(x[i:i + 1], x[j:j + 1]), want[i:i + 1, j:j + 1], what + ', one pair %s %s' % (x[i], x[j]), rtol=1e-8, atol=1e-8)
            ck.step()
            ck.state((c['spec'], i, j))
    for i in range(len(x)):
        ck.close(m.llr_1vs1(x[i:i + 1], x[::-1]), want[i:i + 1, ::-1], what + ', one to all', rtol=1e-8, atol=1e-8)
    unchanged(ck, m, p0, what)
    if c['spec'][0] != 'frplda':
        y = np.array(list(itertools.product((-1.0, 0.5), repeat=c['spec'][2])))
        mu, Sb, Sw = par
        for yy in y:
            got = m.log_probx_g_y(x, np.tile(yy, (len(x), 1)))
            ck.close(got, [P.loggauss(v - mu - yy.dot(m.V), Sw) for v in x], what + ': p(x|y)', rtol=1e-8, atol=1e-8)
            if c['spec'][0] == 'plda':
                for z in itertools.product((-1.0, 0.5), repeat=c['spec'][3]):
                    z = np.array(z)
                    got = m.log_probx_g_yz(x, np.tile(yy, (len(x), 1)), np.tile(z, (len(x), 1)))
                    ck.close(got, [P.loggauss(v - mu - yy.dot(m.V) - z.dot(m.U), np.diag(1 / m.D)) for v in x], what + ': p(x|y,z)', rtol=1e-8, atol=1e-8)


PTS = np.array([[0.5, -1.0, 0.25], [2.0, 0.75, -1.5], [-1.25, 0.5, 1.0], [0.1, 1.9, 0.6], [-0.7, -2.1, 1.3], [1.1, 0.2, -0.4], [-0.3, 1.2, 2.2], [0.9, -0.6, -1.9]])


def lnorm(x):
    return x * math.sqrt(x.shape[1]) / np.sqrt((x ** 2).sum(axis=1, keepdims=True))


def nvsm(ck, c):
    n, d = c['n'], c['spec'][1]
    m = P.make(c['spec'])
    p0, par = P.params(m), P.cov(P.make(c['spec']))
    X1, X2 = PTS[:n, :d], PTS[4:4 + n, :d]
    base = m.llr_1vs1(X1, X2)
    for l1 in P.labelings(n):
        for l2 in list(P.labelings(n)) + [None]:
            i1, i2 = np.array(l1), np.arange(n) if l2 is None else np.array(l2)
            what = 'scores of %s, enrolment labels %s, test labels %s' % (c['spec'], l1, l2)
            k1, k2 = i1.max() + 1, i2.max() + 1
            want = np.array([[P.loglk(par, np.vstack((X1[i1 == a], X2[i2 == b]))) - P.loglk(par, X1[i1 == a]) - P.loglk(par, X2[i2 == b])
                              for b in range(k2)] for a in range(k1)])
            a1 = np.array([X1[i1 == a].mean(axis=0) for a in range(k1)])
            a2 = np.array([X2[i2 == b].mean(axis=0) for b in range(k2)])
            wants = {'book': want, 'vavg': m.llr_1vs1(a1, a2), 'vavg-lnorm': m.llr_1vs1(lnorm(a1), lnorm(a2)),
                     'savg': np.array([[base[np.ix_(i1 == a, i2 == b)].mean() for b in range(k2)] for a in range(k1)])}
            x1, x2 = X1.copy(), X2.copy()
            for method, w in wants.items():
                if l2 is None:
                    got = m.llr_Nvs1(x1, x2, i1.copy(), method=method)
                else:
                    got = m.llr_NvsM(x1, x2, i1.copy(), i2.copy(), method=method)
                ck.step()
                ck.check(got is not None and got.shape == w.shape, what + ', method %s: no scores' % method)
                ck.close(got, w, what + ', method %s' % method, rtol=1e-8, atol=1e-8)
            ck.check(np.array_equal(x1, X1) and np.array_equal(x2, X2), what + ': inputs changed')
            D1, D2 = stats(None, dict(x=X1, p=onehot(i1))), stats(None, dict(x=X2, p=onehot(i2)))
            E1, E2 = [v.copy() for v in D1], [v.copy() for v in D2]
            for t in range(2):
                ck.close(m.llr_NvsM(tuple(E1), tuple(E2), method='book'), want, what + ' from statistics', rtol=1e-8, atol=1e-8)
                ck.close(m.llr_Nvs1(tuple(E1), X2, method='vavg'), m.llr_1vs1(a1, X2), what + ' from statistics, vavg', rtol=1e-8, atol=1e-8)
            ck.check(all(np.array_equal(a, b) for a, b in zip(E1 + E2, list(D1) + list(D2))), what + ': statistics changed')
            ck.state((c['spec'], l1, l2))
    unchanged(ck, m, p0, 'scoring with %s' % (c['spec'],))


def onehot(i):
    return np.eye(i.max() + 1)[i]


def stats(ck, c):
    """definition of the statistics; as a case, all labellings, weights and scalings."""
    if ck is None:
        x, p = c['x'], c['p']
        N = p.sum(axis=0)
        F = np.array([sum(p[i, k] * x[i] for i in range(len(x))) for k in range(p.shape[1])])
        S = sum(p[i].sum() * np.outer(x[i], x[i]) for i in range(len(x)))
        return N, F, S
    from hyperion.pdfs.plda import PLDABase, SPLDA
    n = c['n']
    for d in (1, 2):
        x = PTS[:n, :d]
        for lab in P.labelings(n):
            ids = np.array(lab)
            for w in (None, np.linspace(0.5, 2.0, n), np.arange(n) % 2 + 0.0):
                for f in (None, 1, 0.25):
                    p = onehot(ids) * (1 if w is None else w[:, None]) * (1 if f is None else f)
                    want = stats(None, dict(x=x, p=p))
                    what = 'statistics of labels %s, weights %s, factor %s' % (lab, None if w is None else w.tolist(), f)
                    a = [x.copy(), ids.copy(), None if w is None else w.copy(), f]
                    got = PLDABase.compute_stats_hard(*a)
                    q = onehot(ids)
                    got2 = PLDABase.compute_stats_soft(a[0], q, a[2], f)
                    for g in (got, got2):
                        for u, v in zip(g, want):
                            ck.close(u, v, what, rtol=1e-10, atol=1e-12)
                    ck.check(np.array_equal(a[0], x) and np.array_equal(a[1], ids) and np.array_equal(q, onehot(ids)) and (w is None or np.array_equal(a[2], w)), what + ': inputs changed')
                    mu = np.array([0.5, -1.0])[:d]
                    wc = stats(None, dict(x=x - mu, p=p))
                    g0 = [v.copy() for v in got]
                    for u, v in zip(PLDABase.center_stats(tuple(got), mu), wc):
                        ck.close(u, v, what + ', centred', rtol=1e-10, atol=1e-10)
                    ck.check(all(np.array_equal(u, v) for u, v in zip(got, g0)), what + ': statistics changed by centring')
                    ck.step(3)
                    ck.state((n, d, lab, None if w is None else w.tolist(), f))
        # soft assignments
        for r in range(3):
            p = np.array([[(i * (k + 2) + r) % 5 / 4.0 for k in range(3)] for i in range(n)])
            q = p.copy()
            for g, v in zip(PLDABase.compute_stats_soft(x, q), stats(None, dict(x=x, p=p))):
                ck.close(g, v, 'statistics of soft labels', rtol=1e-10, atol=1e-12)
            ck.check(np.array_equal(p, q), 'soft labels changed')


def hidden(m):
    """prior mean and covariance of the speaker variable, and the map to the data (rows)."""
    if type(m).__name__ == 'FRPLDA':
        return np.array(m.mu), np.linalg.inv(m.B), np.eye(len(m.mu)), np.zeros(len(m.mu))
    return np.zeros(len(m.V)), np.eye(len(m.V)), np.array(m.V), np.array(m.mu)


def posterior(ck, c):
    m = P.make(c['spec'])
    d = c['spec'][1]
    p0 = P.params(m)
    _, _, Sw = P.cov(P.make(c['spec']))
    my, Sy, V, off = hidden(m)
    iSw, iSy = np.linalg.inv(Sw), np.linalg.inv(Sy)
    for lab in list(P.labelings(4)):
        for w in (None, np.array([0.5, 1.25, 2.0, 0.75])):
            ids = np.array(lab)
            p = onehot(ids) * (1 if w is None else w[:, None])
            D = stats(None, dict(x=PTS[:4, :d], p=p))
            E = tuple(v.copy() for v in D)
            ys, Cs, lp = [], [], []
            for k in range(len(D[0])):
                L = iSy + D[0][k] * V.dot(iSw).dot(V.T)
                C = np.linalg.inv(L)
                y = C.dot(iSy.dot(my) + V.dot(iSw).dot(D[1][k] - D[0][k] * off))
                ys.append(y)
                Cs.append(C)
                lp.append(P.loggauss(-y, C))
            ys, Cs = np.array(ys), np.array(Cs)
            what = 'posterior of the speaker variables of %s, labels %s, weights %s' % (c['spec'], lab, None if w is None else w.tolist())
            for rc, rl, ra in itertools.product((False, True), repeat=3):
                r = m.compute_py_g_x(E, return_cov=rc, return_logpy_0=rl, return_acc=ra)
                r = [r] if not (rc or rl or ra) else list(r)
                want = [ys] + ([Cs] if rc else []) + ([np.array(lp)] if rl else []) + ([np.einsum('k,kij->ij', D[0], Cs), Cs.sum(axis=0)] if ra else [])
                ck.check(len(r) == len(want), what + ': %d values' % len(r))
                for g, v in zip(r, want):
                    ck.close(g, v, what, rtol=1e-8, atol=1e-9)
                ck.step()
            st = m.Estep(E)
            if w is None:
                ll = P.loglk_labels(P.cov(m), PTS[:4, :d], lab)
                ck.close(m.elbo(st), ll, what + ': bound against log-likelihood', rtol=1e-9, atol=1e-8)
            ck.check(all(np.array_equal(a, b) for a, b in zip(D, E)), what + ': statistics changed')
            ck.state((c['spec'], lab, w is None))
    unchanged(ck, m, p0, 'posteriors of %s' % (c['spec'],))


def names(kind):
    return {'frplda': ('mu', 'B', 'W'), 'splda': ('mu', 'V', 'W'), 'plda': ('mu', 'V', 'U', 'D')}[kind]


def train(ck, c):
    kind, d = c['spec'][:2]
    n = c['n']
    X = PTS[:n, :d]
    flags = dict(('update_' + k, f) for k, f in zip(names(kind), c['flags']))
    full = (True, False) if kind != 'plda' else (None,)
    for lab in P.labelings(n, 3):
        ids = np.array(lab)
        for fc in full:
            for mode in ('ml', 'md', 'ml+md'):
                if (n > 5 and mode == 'md' and fc is False):
                    continue
                kw = dict(flags) if fc is None else dict(flags, fullcov_W=fc)
                if fc is False and kind != 'plda':
                    m = P.make(list(c['spec'][:6]) + [2] + [0], **kw)
                else:
                    m = P.make(c['spec'], **kw)
                what = '%s, labels %s, updating %s, %s, full covariance %s' % (c['spec'], lab, [k for k in names(kind) if flags['update_' + k]], mode, fc)
                p0 = P.params(m)
                D = m.compute_stats_hard(X, ids)
                ll = P.loglk_labels(P.cov(m), X, lab)
                floored = False
                for e in range(c['epochs']):
                    st = m.Estep(D)
                    ck.close(m.elbo(st), ll, what + ', iteration %d: bound against log-likelihood' % e, rtol=1e-8, atol=1e-7)
                    if mode != 'md':
                        m.MstepML(st)
                    if mode != 'ml':
                        m.MstepMD(st)
                    new = P.loglk_labels(P.cov(m), X, lab)
                    ck.step()
                    if kind == 'plda' and (m.D >= 1 / m.floor_iD * 0.999).any():
                        floored = True
                    if floored or not np.isfinite(new):
                        break
                    ck.check(new >= ll - 1e-8 * (1 + abs(ll)), what + ', iteration %d: log-likelihood falls from %.12g to %.12g' % (e, ll, new))
                    ll = new
                    if kind != 'plda' and fc is False:
                        ck.check(np.array_equal(m.W, np.diag(np.diag(m.W))), what + ': precision not diagonal')
                p = P.params(m)
                for k in names(kind):
                    if not flags['update_' + k]:
                        ck.check(np.array_equal(p[k], p0[k]), what + ': %s changed' % k)
                ck.state((c['spec'], lab, c['flags'], fc, mode))


def fits(ck, c):
    """fit() runs the steps of an iteration and reports the bounds."""
    kind, d = c['spec'][:2]
    X, V = PTS[:6, :d], PTS[2:8, :d]
    for lab in [(0, 0, 1, 1, 2, 2), (0, 1, 0, 1, 2, 0), (0, 0, 0, 0, 1, 1)]:
        ids, vids = np.array(lab), np.array([0, 0, 0, 1, 1, 1])
        for mode in ('ml', 'md', 'ml+md'):
            for md in (None, [0, 2], []):
                for val in (False, True):
                    for w in (None, np.array([0.5, 1.0, 2.0, 1.0, 0.25, 1.5])):
                        for soft in (False, True):
                            what = 'fit of %s, labels %s, %s, MD iterations %s, weights %s' % (c['spec'], lab, mode, md, None if w is None else w.tolist())
                            m, r = P.make(c['spec']), P.make(c['spec'])
                            kw = dict(epochs=3, ml_md=mode, md_epochs=md)
                            if w is not None:
                                kw['sample_weight'] = w.copy()
                            if soft:
                                kw['ptheta'] = onehot(ids)
                            else:
                                kw['class_ids'] = ids.copy()
                            if val:
                                kw['x_val'] = V.copy()
                                kw.update(dict(ptheta_val=onehot(vids)) if soft else dict(class_ids_val=vids.copy()))
                            x = X.copy()
                            out = m.fit(x, **kw)
                            D = stats(None, dict(x=X, p=onehot(ids) * (1 if w is None else w[:, None])))
                            Dv = stats(None, dict(x=V, p=onehot(vids)))
                            el, ev = [], []
                            for e in range(3):
                                st = r.Estep(D)
                                el.append(r.elbo(st))
                                ev.append(P.loglk_labels(P.cov(r), V, vids.tolist()))
                                if mode != 'md':
                                    r.MstepML(st)
                                if mode != 'ml' and (md is None or e in md):
                                    r.MstepMD(st)
                            el, ev = np.array(el), np.array(ev)
                            want = [el, el / D[0].sum()] + ([ev, ev / 6] if val else [])
                            ck.check(len(out) == len(want), what + ': %d results' % len(out))
                            for g, v in zip(out, want):
                                ck.close(g, v, what + ': bounds', rtol=1e-7, atol=1e-7)
                            a, b = P.params(m), P.params(r)
                            for k in a:
                                ck.close(a[k], b[k], what + ': parameter %s' % k, rtol=1e-9, atol=1e-10)
                            ck.check(np.array_equal(x, X) and (w is None or np.array_equal(kw['sample_weight'], w)), what + ': inputs changed')
                            ck.step(3)
                            ck.state((c['spec'], lab, mode, md, val, w is None, soft))


def scratch(ck, c):
    """training of a model without parameters."""
    from hyperion.pdfs.plda import FRPLDA, SPLDA, PLDA
    n = c['n']
    X = PTS[:n, :2] if c['model'] != 'plda' else PTS[:n]
    for lab in P.labelings(n, 3):
        ids = np.array(lab)
        k = ids.max() + 1
        if k < 3 or n - k < X.shape[1] + 1:
            continue
        for fc in ((True, False) if c['model'] != 'plda' else (None,)):
            if c['model'] == 'frplda':
                if c['y'] == 1:
                    continue
                m = FRPLDA(fullcov_W=fc)
            elif c['model'] == 'splda':
                m = SPLDA(y_dim=c['y'], fullcov_W=fc)
            else:
                m = PLDA(y_dim=c['y'], z_dim=1)
            what = '%s from scratch, y_dim %d, labels %s, full covariance %s' % (c['model'], c['y'], lab, fc)
            Sw = sum(np.cov(X[ids == j].T, bias=True) * (ids == j).sum() for j in range(k) if (ids == j).sum() > 1)
            means = np.array([X[ids == j].mean(axis=0) for j in range(k)])
            if np.linalg.matrix_rank(Sw, tol=1e-3) < X.shape[1] or np.linalg.matrix_rank(np.cov(means.T), tol=1e-3) < 2:
                continue
            el = m.fit(X.copy(), ids, epochs=5)[0]
            ck.step(5)
            if c['model'] == 'plda' and (m.D >= 1 / m.floor_iD * 0.999).any():
                continue
            ck.check(np.all(np.diff(el) >= -1e-8 * (1 + np.abs(el[:-1]))), what + ': bounds %s' % el.tolist())
            ll = P.loglk_labels(P.cov(m), X, lab)
            ck.check(ll >= el[-1] - 1e-8 * (1 + abs(ll)), what + ': last iteration lowers the likelihood')
            ck.state((c['model'], c['y'], lab, fc))


class OneHot(object):
    """Generator whose n-th value, over all calls, is one and the others zero."""

    def __init__(self, n):
        self.n, self.k = n, 0

    def normal(self, size):
        t = int(np.prod(size))
        r = np.zeros(t)
        if self.k <= self.n < self.k + t:
            r[self.n - self.k] = 1
        self.k += t
        return r.reshape(size)


ADAPT = [('ml+md', (1, 0.5, 0.5), True), ('ml', (0.25, 0, 0.75), False), ('md', (0, 0.25, 0), False)]


def average(ck, c):
    m = P.make(c['spec'])
    kind, d, y, z = c['spec'][:4]
    mu, Sb, Sw = P.cov(m)
    what = 'samples of %s' % (c['spec'],)
    g = OneHot(-1)
    K, n = 2, 2
    off = m.sample(K, n, rng=g)
    ck.check(off.shape == (K * n, d), what + ': shape %s' % (off.shape,))
    ck.close(off, np.tile(mu, (K * n, 1)), what + ': mean', rtol=1e-9, atol=1e-9)
    T = np.array([(m.sample(K, n, rng=OneHot(i)) - off).ravel() for i in range(g.k)])
    want = np.kron(np.kron(np.eye(K), np.ones((n, n))), Sb) + np.kron(np.eye(K * n), Sw)
    ck.close(T.T.dot(T), want, what + ': covariance', rtol=1e-8, atol=1e-8)
    ck.step(g.k)
    # weighted average with another model of the same shape
    others = [s for s in P.specs((d,)) if s[0] == kind and s[2:4] == (y, z)]
    x = grid(d)[:4]
    for o in others:
        for wm, wb, ww in itertools.product((0, 0.25, 1), repeat=3):
            a, b = P.make(c['spec']), P.make(o)
            p0 = P.params(b)
            a.llr_1vs1(x, x)
            a.weighted_avg_model(b, wm, wb, ww)
            m0, B0, W0 = P.cov(P.make(c['spec']))
            m1, B1, W1 = P.cov(b)
            what = 'average of %s and %s, weights %s' % (c['spec'], o, (wm, wb, ww))
            mu, Sb, Sw = P.cov(a)
            ck.close(mu, wm * m1 + (1 - wm) * m0, what + ': mean', rtol=1e-9, atol=1e-10)
            B = wb * B1 + (1 - wb) * B0
            if kind != 'frplda':
                e, v = np.linalg.eigh(B)
                if y < d and e[d - y] - e[d - y - 1] < 1e-6:
                    continue
                B = (v[:, d - y:] * e[d - y:]).dot(v[:, d - y:].T)
            ck.close(Sb, B, what + ': between-class covariance', rtol=1e-8, atol=1e-9)
            W = ww * W1 + (1 - ww) * W0
            if kind != 'plda':
                ck.close(Sw, W, what + ': within-class covariance', rtol=1e-8, atol=1e-9)
            else:
                ck.close(np.diag(Sw), np.diag(W), what + ': within-class variances', rtol=1e-8, atol=2e-5)
            par = P.cov(a)
            s = a.llr_1vs1(x[:2], x[2:])
            w = [[P.loglk(par, np.array([u, v])) - P.loglk(par, u[None]) - P.loglk(par, v[None]) for v in x[2:]] for u in x[:2]]
            ck.close(s, w, what + ': scores', rtol=1e-8, atol=1e-8)
            unchanged(ck, b, p0, what)
            ck.step()
            ck.state((c['spec'], o, wm, wb, ww))
        # adaptation: iterations of training, each followed by the average
        X, ids = PTS[:6, :d], np.array([0, 1, 0, 2, 1, 2])
        Xv, idv = PTS[2:7, :d], np.array([0, 0, 1, 1, 2])
        for ml_md, (wm, wb, ww), val in ADAPT if ck.tier == 'quick' else itertools.product(('ml+md', 'ml', 'md'), ((1, 0.5, 0.5), (0.25, 0, 0.75), (0, 0.25, 0)), (False, True)):
            a, r, b = P.make(c['spec']), P.make(c['spec']), P.make(o)
            kw = dict(x_val=Xv.copy(), class_ids_val=idv) if val else {}
            what = 'adaptation of %s to %s, %s, weights %s' % (c['spec'], o, ml_md, (wm, wb, ww))
            try:
                ref = []
                for ep in range(2):
                    ref.append([float(np.ravel(q)[0]) for q in r.fit(X.copy(), ids, epochs=1, ml_md=ml_md, **kw)])
                    r.weighted_avg_model(b, wm, wb, ww)
            except np.linalg.LinAlgError:
                continue
            got = a.fit_adapt_weighted_avg_model(X.copy(), ids, epochs=2, ml_md=ml_md, plda0=b, w_mu=wm, w_B=wb, w_W=ww, **kw)
            ck.step(2)
            ck.eq(len(got), 4 if val else 2, what + ': results')
            for i, g in enumerate(got):
                ck.close(np.asarray(g), [q[i] for q in ref], what + ': bound %d' % i, rtol=1e-8, atol=1e-8)
            for p, q in zip(P.cov(a), P.cov(r)):
                ck.close(p, q, what + ': model', rtol=1e-7, atol=1e-8)
            ck.state((c['spec'], o, ml_md, wm, wb, ww, val))
