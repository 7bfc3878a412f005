"""S08: clustering."""
import itertools
import math
import warnings
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small score matrices, masks, thresholds and data sets on the real classes, compared with a naive agglomeration and a naive k-means'
BOUND = {
    'quick': 'all symmetric score matrices of up to 4 items over 3 values and all orders of distinct scores of 4 items, a family of 5 items x 3 linkages x 3 metrics x every cut; all data sets of up to 5 one-dimensional and 4 two-dimensional vectors x 1-3 clusters x 1-4 iterations',
    'thorough': '4 values for 4 items, more matrices of 5 and 6 items; data sets of 6 vectors'}
ASSUMPTIONS = ['there are at least two items', 'the order of merging pairs of equal score is free', 'the centre of a cluster that lost its members is not specified']
CHUNK = 1

METHODS = ('average', 'single', 'complete')


def cases(tier):
    q = tier == 'quick'
    for n in (2, 3, 4):
        for s in range(1 if n < 4 else 8):
            for m in METHODS:
                yield dict(kind='ahc', n=n, s=s, ns=1 if n < 4 else 8, method=m, vals=3 if q else 4)
    for n in (4, 5) if q else (4, 5, 6):
        for s in range(8):
            yield dict(kind='orders', n=n, s=s)
    for n in (2, 3, 4, 5):
        yield dict(kind='impurity', n=n)
    for d, n in ((1, 2), (1, 3), (1, 4), (1, 5), (2, 2), (2, 3), (2, 4)) + (() if q else ((1, 6), (2, 5))):
        for s in range(8 if n > 3 else 1):
            yield dict(kind='km', d=d, n=n, s=s, ns=8 if n > 3 else 1)


def run_case(ck, c):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[c['kind']](ck, c)
    ck.trace()


def canon(lab):
    """partition as a set of frozensets"""
    d = {}
    for i, v in enumerate(np.asarray(lab).tolist()):
        d.setdefault(v, []).append(i)
    return frozenset(frozenset(v) for v in d.values())


def link(S, a, b, method, better):
    """score between two groups"""
    v = [S[i][j] for i in a for j in b]
    if method == 'average':
        return sum(v) / len(v)
    # single: the best pair; complete: the worst pair
    return (max if (method == 'single') == (better == 'max') else min)(v)


def walk(ck, h, S, n, method, better, what):
    """Z merges, at each step, a best pair; returns the partitions"""
    Z = np.asarray(h.Z)
    ck.check(Z.shape[0] == n - 1, what + ': number of merges')
    groups = {i: frozenset([i]) for i in range(n)}
    parts = [frozenset(groups.values())]
    vals = []
    sgn = 1 if better == 'max' else -1
    for s in range(n - 1):
        a, b = int(Z[s, 0]), int(Z[s, 1])
        ck.check(a in groups and b in groups and a != b, lambda: '%s: merge %d joins %d and %d' % (what, s, a, b))
        best = max(sgn * link(S, groups[p], groups[q], method, better) for p, q in itertools.combinations(sorted(groups), 2))
        v = link(S, groups[a], groups[b], method, better)
        ck.check(abs(sgn * v - best) <= 1e-9 * max(1, abs(best)), lambda: '%s: merge %d has linkage %s, the best is %s' % (what, s, v, sgn * best))
        ck.check(abs(Z[s, 2] - v) <= 1e-9 * max(1, abs(v)), lambda: '%s: merge %d is recorded with %s, its linkage is %s' % (what, s, Z[s, 2], v))
        groups[n + s] = groups.pop(a) | groups.pop(b)
        ck.check(Z[s, 3] == len(groups[n + s]), what + ': size of the merged cluster')
        vals.append(v)
        parts.append(frozenset(groups.values()))
        ck.step()
    return parts, vals


def cuts(ck, h, parts, vals, n, better, what):
    thrs = sorted(set(vals))
    grid = [thrs[0] - 1] + [x for a, b in zip(thrs, thrs[1:]) for x in ((a + b) / 2,) if b - a > 1e-6] + [thrs[-1] + 1]
    for pre in (False, True):
        if pre:
            h.compute_flat_clusters()
            F = h.flat_clusters
            ck.check(F.shape == (n, n), what + ': table of partitions')
        for kk in list(range(1, n + 2)):
            want = parts[n - min(n, kk)]
            for got in (h.get_flat_clusters(kk, criterion='num_clusters'), h.get_flat_clusters_from_num_clusters(kk)):
                got = np.asarray(got)
                ck.check(got.shape == (n,), what + ': one cluster for each item')
                ck.check(canon(got) == want, lambda: '%s: %d clusters: got %s, want %s' % (what, kk, got.tolist(), want))
                ck.check(sorted(set(got.tolist())) == list(range(min(n, kk))), lambda: '%s: cluster numbers %s' % (what, got.tolist()))
                ck.step()
        for t in grid:
            want = parts[sum(v >= t if better == 'max' else v <= t for v in vals)]
            for got in (h.get_flat_clusters(t), h.get_flat_clusters_from_thr(t), h.get_flat_clusters(t, criterion='threshold')):
                ck.check(canon(got) == want, lambda: '%s: threshold %s: got %s, want %s' % (what, t, got.tolist(), want))
                ck.step()
        # a pair that scores exactly the threshold is joined; the threshold is the recorded linkage
        # itself, so that rounding in it plays no part, and all merges recorded with it are joined
        rec = np.asarray(h.Z)[:, 2].tolist()
        for t in sorted(set(rec)):
            want = parts[sum(v >= t if better == 'max' else v <= t for v in rec)]
            for got in (h.get_flat_clusters(t), h.get_flat_clusters_from_thr(t)):
                ck.check(canon(got) == want, lambda: '%s: threshold %r, which is the score of a merge: got %s, want %s' % (what, t, got.tolist(), want))
                ck.step()


def run(ck, S, metric, method, what, mask=None, lower=None):
    from hyperion.clustering.ahc import AHC
    n = len(S)
    x = np.array(S, dtype=float)
    if lower is not None:
        x[np.tril_indices(n, -1)] = lower
    h = AHC(method=method, metric=metric)
    x0 = x.copy()
    h.fit(x, mask=mask) if mask is not None else h.fit(x)
    ck.check(np.array_equal(x, x0), what + ': the scores changed')
    T = np.array(S, dtype=float)
    if mask is not None:
        T[~mask] = -1e10
    better = 'min' if metric not in ('llr', 'prob') else 'max'
    parts, vals = walk(ck, h, T, n, method, better, what)
    cuts(ck, h, parts, vals, n, better, what)
    return h, parts


def sym(n, v):
    S = np.zeros((n, n))
    S[np.triu_indices(n, 1)] = v
    return S + S.T + np.diag(np.full(n, 9.0))


def ahc(ck, c):
    n, m = c['n'], c['method']
    V = (-1.5, 0.0, 2.0, 0.5)[:c['vals']]
    P = (0.0, 0.25, 1.0, 0.75)[:c['vals']]
    for k, idx in enumerate(itertools.product(range(c['vals']), repeat=n * (n - 1) // 2)):
        if k % c['ns'] != c['s']:
            continue
        for metric, vals in (('llr', V), ('prob', P), ('euclidean', P)):
            S = sym(n, [vals[i] for i in idx])
            what = '%s linkage of %s scores %s' % (m, metric, S[np.triu_indices(n, 1)].tolist())
            run(ck, S, metric, m, what)
        if n > 2:
            # pairs masked out are joined last
            S = sym(n, [V[i] for i in idx])
            mk = np.ones((n, n), dtype=bool)
            p = list(itertools.combinations(range(n), 2))[k % (n * (n - 1) // 2)]
            mk[p] = mk[p[::-1]] = False
            run(ck, S, 'llr', m, '%s linkage of scores %s without pair %s' % (m, S[np.triu_indices(n, 1)].tolist(), p), mask=mk)
        ck.state((n, idx))


def orders(ck, c):
    """all orders of distinct scores (no ties): the result is unique and follows a relabelling"""
    n = c['n']
    np_ = n * (n - 1) // 2
    base = [math.sqrt(v) for v in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47)][:np_]
    if n == 4:
        perms = itertools.permutations(range(np_))
        ns, step = 8, 1
    else:
        # a family: products of rotations and transpositions
        perms = []
        for r in range(np_):
            q = list(range(r, np_)) + list(range(r))
            for i, j in itertools.combinations(range(np_), 2):
                t = list(q)
                t[i], t[j] = t[j], t[i]
                perms.append(tuple(t))
        ns, step = 8, (2 if ck.tier == 'quick' else 1)
    for k, pm in enumerate(perms):
        if k % ns != c['s'] or (k // ns) % step:
            continue
        S = sym(n, [base[i] for i in pm])
        for method in METHODS:
            what = '%s linkage of scores %s' % (method, S[np.triu_indices(n, 1)].tolist())
            h, parts = run(ck, S, 'llr', method, what)
            re = [(i * 2 + 1) % n if n % 2 else n - 1 - i for i in range(n)]
            S2 = S[np.ix_(re, re)]
            h2, parts2 = run(ck, S2, 'llr', method, what + ' relabelled')
            for a, b in zip(parts, parts2):
                ck.check(a == frozenset(frozenset(re[i] for i in g) for g in b), what + ': relabelling the items changes the clusters')
        # the lower triangle is not read
        run(ck, S, 'llr', 'average', what + ' with another lower triangle', lower=5.0)
        ck.state(pm)


def entropy(cnt, n):
    return -sum(v / n * math.log(v / n) for v in cnt if v)


def impurity(ck, c):
    from hyperion.clustering.ahc import AHC
    n = c['n']
    base = [1.0, -0.5, 2.0, 0.25, 3.0, -1.0, 0.75, 1.5, -2.0, 0.1]
    for r in range(4):
        S = sym(n, (base[r:] + base[:r])[:n * (n - 1) // 2])
        for lab in itertools.product(range(3), repeat=n):
            h = AHC(method='average', metric='llr')
            h.fit(S.copy())
            if sum(lab) % 2:
                h.compute_flat_clusters()
            imp, cimp = h.evaluate_impurity_det(np.array(lab))
            ck.check(len(imp) == n and len(cimp) == n, 'number of operating points')
            for k in range(n):
                cl = np.asarray(h.get_flat_clusters(n - k, criterion='num_clusters')).tolist()
                a, b = [lab.count(v) for v in set(lab)], [cl.count(v) for v in set(cl)]
                joint = {}
                for p in zip(lab, cl):
                    joint[p] = joint.get(p, 0) + 1
                Hc, Hk, Hj = entropy(a, n), entropy(b, n), entropy(joint.values(), n)
                hom = 1.0 if Hc < 1e-12 else 1 - (Hj - Hk) / Hc
                com = 1.0 if Hk < 1e-12 else 1 - (Hj - Hc) / Hk
                what = 'clusters %s of classes %s' % (cl, lab)
                ck.close(imp[k], 1 - hom, what + ': cluster impurity', atol=1e-9)
                ck.close(cimp[k], 1 - com, what + ': class impurity', atol=1e-9)
                ck.step()
            # fitting again starts from scratch
            S2 = -S
            h.fit(S2)
            f = AHC(method='average', metric='llr')
            f.fit(S2)
            for k in range(1, n + 1):
                ck.check(canon(h.get_flat_clusters(k, 'num_clusters')) == canon(f.get_flat_clusters(k, 'num_clusters')), 'clusters after fitting a second time')
            ck.state((r, lab))


def km(ck, c):
    from hyperion.clustering.kmeans import KMeans
    d, n = c['d'], c['n']
    grid = [(float(v),) for v in (0, 1, 2, 4, 7)] if d == 1 else list(itertools.product((0.0, 1.0, 3.0), repeat=2))[::2]
    for k_, rows in enumerate(itertools.product(grid, repeat=n)):
        if k_ % c['ns'] != c['s']:
            continue
        x = np.array(rows)
        for K in (1, 2, 3):
            if K > n:
                continue
            prev = None
            for ep in (1, 2, 3, 4):
                m = KMeans(num_clusters=K, rtol=0.0 if ep % 2 else 0.001)
                x0 = x.copy()
                loss, index = m.fit(x, epochs=ep)
                what = 'vectors %s, %d clusters, %d iterations' % (x.tolist(), K, ep)
                ck.check(np.array_equal(x, x0), what + ': the vectors changed')
                mu = np.asarray(m.mu)
                ck.check(mu.shape == (K, d), what + ': centres')
                D = [[float(((r - q) ** 2).sum()) for q in mu] for r in x]
                ck.check(len(index) == n and all(D[i][index[i]] <= min(D[i]) + 1e-12 for i in range(n)), lambda: '%s: clusters %s are not the nearest of centres %s' % (what, list(index), mu.tolist()))
                i2, e2 = m.predict(x)
                ck.check(np.array_equal(i2, index), what + ': clusters of the training data by predict')
                ck.close(e2, [min(r) for r in D], what + ': squared distances')
                ck.check(1 <= len(loss) <= ep, what + ': number of losses')
                ck.close(loss[-1], np.mean([min(r) for r in D]), what + ': last distortion')
                ck.check(all(b <= a + 1e-9 for a, b in zip(loss, loss[1:])), lambda: '%s: distortion grows: %s' % (what, list(loss)))
                # the centres are the means of the clusters found with the centres before
                if prev is not None and len(loss) == ep:
                    pm = prev
                    pi = [min(range(K), key=lambda j: (float(((r - pm[j]) ** 2).sum()), j)) for r in x]
                    want = [x[[i for i in range(n) if pi[i] == j]].mean(0) if j in pi else mu[j] for j in range(K)]
                    ck.close(mu, want, what + ': centres', atol=1e-9)
                if ep == 1 and K > 1:
                    # a mean of the members of some assignment of the data to distinct starting vectors
                    ok = False
                    for seeds in itertools.product(range(n), repeat=K):
                        pi = [min(range(K), key=lambda j: (float(((r - x[seeds[j]]) ** 2).sum()), j)) for r in x]
                        want = [x[[i for i in range(n) if pi[i] == j]].mean(0) if j in pi else mu[j] for j in range(K)]
                        if np.allclose(mu, want):
                            ok = True
                            break
                    ck.check(ok, lambda: '%s: centres %s are not means of clusters around vectors of the data' % (what, mu.tolist()))
                elif ep == 1:
                    ck.close(mu[0], x.mean(0), what + ': the only centre')
                prev = mu if len(loss) == ep else None
                ck.step()
            ck.state((rows, K))
        # centres given
        mu = np.array(grid[:2])
        m = KMeans(num_clusters=2, mu=mu.copy())
        i2, e2 = m.predict(x)
        D = [[float(((r - q) ** 2).sum()) for q in mu] for r in x]
        ck.check(all(D[i][i2[i]] == min(D[i]) for i in range(n)), 'clusters of %s around given centres' % x.tolist())
        ck.close(e2, [min(r) for r in D], 'squared distances to given centres')
