"""S01: score normalisation."""
import itertools
import math
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of cohort score matrices, masks, rankings and options on the real normalisers against the definition'
BOUND = {
    'quick': 'T- and Z-norm: all cohort columns of up to 4 scores over 4 values x all masks, all 3 x 2 matrices over 3 values x all masks; S-, TZ-, ZT-norm: 3 cohorts, all masks of every matrix alone and all pairs of masks at 2 cohorts; '
             'adaptive: all rankings of up to 4 cohort entries for each of 2 segments and 2 models x every number of best and discarded entries x masks of up to 2 entries; two deviation floors',
    'thorough': 'columns of 5, rankings of 4 entries with masks of up to 3 entries, rankings of 5 entries of one segment'}
ASSUMPTIONS = ['every normalised score keeps at least one unmasked cohort score', 'adaptive selection without ties, and with at least as many unmasked entries as are ranked']
CHUNK = 2
GRID = (-1.5, 0.1, 0.25, 2.0)


def cases(tier):
    q = tier == 'quick'
    for C in range(1, 5 if q else 6):
        for floor in (1e-5, 0.7):
            yield dict(kind='column', C=C, floor=floor)
    for a in range(27):
        yield dict(kind='matrix', a=a)
    for k in range(4):
        for v in range(3):
            yield dict(kind='comb2', k=k, v=v)
            yield dict(kind='comb3', k=k, v=v)
    for C in (1, 2, 3, 4):
        for p in range(math.factorial(C)):
            yield dict(kind='adapt', C=C, p=p, M=2 if q else 3)
    if not q:
        for p in range(120):
            yield dict(kind='adapt', C=5, p=p, M=0)


def run_case(ck, c):
    globals()[c['kind']](ck, c)
    ck.trace()


def stats(vals, floor):
    m = math.fsum(vals) / len(vals)
    return m, max(floor, math.sqrt(math.fsum((v - m) ** 2 for v in vals) / len(vals)))


def tnorm(s, ct, mask, floor):
    s, ct = np.asarray(s), np.asarray(ct)
    y = np.empty(s.shape)
    for j in range(s.shape[1]):
        m, d = stats([ct[k, j] for k in range(len(ct)) if mask is None or mask[k, j]], floor)
        y[:, j] = (s[:, j] - m) / d
    return y


def znorm(s, ec, mask, floor):
    return tnorm(s.T, ec.T, None if mask is None else mask.T, floor).T


def call(ck, f, arrays, masks, want, what, floor):
    a = [x.copy() for x in arrays]
    m = [None if x is None else x.copy() for x in masks]
    y = f(*(a + m))
    ck.step()
    # with a floor of 1e-5 the scale is 1e5 where all the cohort scores are the same
    tol = 1e-7 * max(1.0, np.abs(want).max())
    ck.close(y, want, what, rtol=1e-6, atol=tol)
    for x, x0 in zip(a + m, list(arrays) + list(masks)):
        ck.check(x is None or np.array_equal(x, x0), what + ': inputs changed')


def column(ck, c):
    from hyperion.score_norm import TNorm, ZNorm
    C, floor = c['C'], c['floor']
    s = np.array([[0.3], [-2.0]])
    for v in itertools.product(GRID, repeat=C):
        ct = np.array(v)[:, None]
        for bits in itertools.product((True, False), repeat=C):
            if not any(bits):
                continue
            mask = np.array(bits)[:, None]
            want = tnorm(s, ct, mask, floor)
            what = 'cohort scores %s, mask %s, floor %g' % (v, bits, floor)
            call(ck, TNorm(std_floor=floor).predict, [s, ct], [mask], want, 'T-norm, ' + what, floor)
            call(ck, ZNorm(std_floor=floor).predict, [s.T.copy(), ct.T.copy()], [mask.T.copy()], want.T, 'Z-norm, ' + what, floor)
            if all(bits):
                call(ck, TNorm(std_floor=floor).predict, [s, ct], [], want, 'T-norm, ' + what + ' (no mask)', floor)
                call(ck, ZNorm(std_floor=floor).predict, [s.T.copy(), ct.T.copy()], [], want.T, 'Z-norm, ' + what + ' (no mask)', floor)
            ck.state((v, bits, floor))


def matrix(ck, c):
    from hyperion.score_norm import TNorm, ZNorm
    g = list(itertools.product(GRID[1:], repeat=3))
    s = np.array([[0.3, 1.0], [-2.0, 5.0], [0.5, -3.0]])
    for b in g:
        ct = np.array([g[c['a']], b]).T
        for bits in itertools.product((True, False), repeat=6):
            mask = np.array(bits).reshape(3, 2)
            if not mask.any(axis=0).all():
                continue
            want = tnorm(s, ct, mask, 0.01)
            what = 'cohort scores %s, mask %s' % (ct.tolist(), mask.tolist())
            call(ck, TNorm(std_floor=0.01).predict, [s, ct], [mask], want, 'T-norm, ' + what, 0.01)
            call(ck, ZNorm(std_floor=0.01).predict, [s.T.copy(), ct.T.copy()], [mask.T.copy()], want.T, 'Z-norm, ' + what, 0.01)
            ck.state((c['a'], b, bits))


def vals(n, m, k):
    i, j = np.mgrid[0:n, 0:m]
    return np.sin(1.3 * (i + 1) * (k + 1) + 2.9 * (j + 1) + 0.7 * k) * (2 + k) + 0.3 * i


def norms():
    from hyperion.score_norm import SNorm, TZNorm, ZTNorm
    f = 0.02

    def sn(s, ct, ec, cc, mct, mec, mcc):
        return (tnorm(s, ct, mct, f) + znorm(s, ec, mec, f)) / math.sqrt(2)

    def tz(s, ct, ec, cc, mct, mec, mcc):
        return znorm(tnorm(s, ct, mct, f), tnorm(ec, cc, mcc, f), mec, f)

    def zt(s, ct, ec, cc, mct, mec, mcc):
        return tnorm(znorm(s, ec, mec, f), znorm(ct, cc, mcc, f), mct, f)

    def sn_real(s, ct, ec, cc, mct, mec, mcc):
        return SNorm(std_floor=f).predict(s, ct, ec, mct, mec)

    return [('S-norm', sn_real, sn), ('TZ-norm', TZNorm(std_floor=f).predict, tz), ('ZT-norm', ZTNorm(std_floor=f).predict, zt)]


def masks(n, m, axes, limit=None):
    yield None
    cells = list(range(n * m))
    for r in range(0, (n * m if limit is None else limit) + 1):
        for off in itertools.combinations(cells, r):
            x = np.ones(n * m, dtype=bool)
            x[list(off)] = False
            x = x.reshape(n, m)
            if all(x.any(axis=a).all() for a in axes):
                yield x


def lst(x):
    return None if x is None else x.astype(int).tolist()


def comb(ck, c, E, T, C, iters):
    k, v = c['k'], c['v']
    s, ct, ec, cc = vals(E, T, k), vals(C, T, k + v + 1), vals(E, C, k + 2 * v + 2), vals(C, C, k + v + 3)
    if k == 3:
        ct[:, 0] = 0.1      # a segment with constant cohort scores
        ec[0, :] = -0.3
        cc[:, 0] = 0.7
    for mct, mec, mcc in iters:
        for name, real, ref in norms():
            if name == 'S-norm' and mcc is not None:
                continue
            with np.errstate(all='ignore'):
                want = ref(s, ct, ec, cc, mct, mec, mcc)
            call(ck, real, [s, ct, ec, cc], [mct, mec, mcc], want, '%s, %d models, %d segments, cohort of %d (set %d/%d), masks %s %s %s' % (name, E, T, C, k, v, lst(mct), lst(mec), lst(mcc)), 0.02)
        ck.state((E, T, C, k, v, lst(mct), lst(mec), lst(mcc)))


def comb2(ck, c):
    C, E, T = 2, 2, 3
    a, b, d = list(masks(C, T, (0,))), list(masks(E, C, (1,))), list(masks(C, C, (0, 1)))
    comb(ck, c, E, T, C, itertools.product(a, b, d))


def comb3(ck, c):
    C, E, T = 3, 2, 2
    a, b, d = list(masks(C, T, (0,), 2)), list(masks(E, C, (1,), 2)), list(masks(C, C, (0, 1), 2))
    it = [(x, None, None) for x in masks(C, T, (0,))] + [(None, x, None) for x in masks(E, C, (1,))] + [(None, None, x) for x in masks(C, C, (0, 1))]
    it += [(a[i % len(a)], b[(i * 7) % len(b)], d[(i * 5) % len(d)]) for i in range(len(a) * len(b))]
    comb(ck, c, E, T, C, it)


def adaptive(s, ct, ec, mct, mec, nbest, disc, floor):
    E, T = s.shape
    C = len(ct)
    z, t = np.zeros((E, T)), np.zeros((E, T))
    for j in range(T):
        order = sorted([k for k in range(C) if mct is None or mct[k, j]], key=lambda k: -ct[k, j])[disc:disc + nbest]
        for i in range(E):
            m, d = stats([ec[i, k] for k in order if mec is None or mec[i, k]], floor)
            z[i, j] = (s[i, j] - m) / d
    for i in range(E):
        order = sorted([k for k in range(C) if mec is None or mec[i, k]], key=lambda k: -ec[i, k])[disc:disc + nbest]
        for j in range(T):
            m, d = stats([ct[k, j] for k in order if mct is None or mct[k, j]], floor)
            t[i, j] = (s[i, j] - m) / d
    return (z + t) / math.sqrt(2)


def adapt(ck, c):
    from hyperion.score_norm import AdaptSNorm
    C, E, T = c['C'], 2, 2
    perms = list(itertools.permutations(range(C)))
    lev = np.array([-2.0, -0.7, 0.4, 1.1, 3.0])[5 - C:] if C > 2 else np.array([-2.0, 1.1])[:C]
    lev2 = lev + np.array([0.3, -0.1, 0.2, 0.05, -0.4])[:C]
    s = vals(E, T, 1)
    p0 = perms[c['p']]
    for p1 in (perms if C < 5 else perms[::7]):
        ct = np.array([lev[list(p0)], lev2[list(p1)]]).T
        for q in (perms if C < 4 else perms[(c['p']) % 5::5]):
            ec = np.array([lev2[list(q)] - 0.5, lev[list(q[::-1])] + 0.25])
            for disc, nbest in itertools.product(range(C), range(1, C + 2)):
                n = min(nbest, C - disc)
                ms = [(None, None)]
                if (c['p'] + perms.index(p1) + perms.index(q)) % max(1, len(perms) // 3) == 0 and C > 1:
                    cells = [(w, a, b) for w in (0, 1) for a in range(C) for b in range(2)]
                    for r in range(1, c['M'] + 1):
                        for off in itertools.combinations(cells, r):
                            m = [np.ones((C, T), dtype=bool), np.ones((E, C), dtype=bool)]
                            for w, a, b in off:
                                if w == 0:
                                    m[0][a, b] = False
                                else:
                                    m[1][b, a] = False
                            ms.append((m[0] if any(o[0] == 0 for o in off) or r == 2 else None, m[1] if any(o[0] == 1 for o in off) else None))
                for mct, mec in ms:
                    if mct is not None and mct.sum(axis=0).min() < disc + n or mec is not None and mec.sum(axis=1).min() < disc + n:
                        continue
                    try:
                        want = adaptive(s, ct, ec, mct, mec, n, disc, 0.05)
                    except ZeroDivisionError:
                        continue    # nothing left in a selection
                    call(ck, AdaptSNorm(nbest=nbest, nbest_discard=disc, std_floor=0.05).predict, [s, ct, ec], [mct, mec], want,
                         'adaptive S-norm, best %d after %d, cohort %s / %s, masks %s %s' % (nbest, disc, ct.tolist(), ec.tolist(), lst(mct), lst(mec)), 0.05)
                ck.state((C, p0, p1, q, disc, nbest))
