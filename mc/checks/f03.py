"""F03: mean and variance normalisation over a sliding window."""
import itertools
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of lengths, contexts and options on the real normaliser against the window definition, with one-frame perturbations'
BOUND = {
    'quick': 'all lengths 1..12 x left and right context None or 0..13 x mean and variance on and off x 4 kinds of features (dense, ramps, a constant column, float64) x the 4 implementations; '
             'every single frame changed at every length up to 9; all option combinations from the command line',
    'thorough': 'all lengths 1..20 x contexts 0..21, every single frame changed at lengths up to 12'}
ASSUMPTIONS = ['values are compared with tolerances of single precision', 'constant columns without mean normalisation are outside, where the variance floor sets the scale']
CHUNK = 2
IMPL = ('normalize', 'normalize_cumsum', 'normalize_conv', 'normalize_slow')


def cases(tier):
    N = 12 if tier == 'quick' else 20
    for n in range(1, N + 1):
        for mean in (True, False):
            yield dict(kind='window', n=n, mean=mean, C=N + 1)
    for n in range(1, 10 if tier == 'quick' else 13):
        yield dict(kind='frame', n=n)
    for n in range(2, N + 1):
        yield dict(kind='varonly', n=n, C=N + 1)
    yield dict(kind='args')


def data(n, kind):
    t = np.arange(n)
    x = np.stack([3 * np.sin(1.7 * t * t + 0.3) + 1, np.cos(2.3 * t) * 0.5 - 20, ((t * 7) % 5) - 1.0], axis=1)
    if kind == 'ramp':
        x = np.stack([t * 1.0, -2.0 * t + 5, (t > n // 2) * 4.0], axis=1)
    elif kind == 'const':
        x[:, 1] = 2.5
        x[:, 2] = np.where(t == n - 1, 3.0, 1.0)
    return x.astype('float64' if kind == 'double' else 'float32')


def define(x, mean, var, left, right):
    x = x.astype('float64')
    n = len(x)
    if mean:
        x = x - x.mean(axis=0)
    if var:
        s = x.std(axis=0)
        x = x / np.where(s < 1e-6, 1, s)
    if left is None and right is None:
        return x
    L = n if left is None else left
    R = n if right is None else right
    if n <= min(L, R) + 1:
        return x          # every window is the whole recording
    y = np.empty_like(x)
    for i in range(n):
        w = x[max(0, i - L):min(n, i + R + 1)]
        y[i] = x[i]
        if mean:
            y[i] = y[i] - w.mean(axis=0)
        if var:
            y[i] = y[i] / np.sqrt(np.maximum(w.var(axis=0), 1e-5))
    return y


def compare(ck, got, want, var, x, what):
    ck.eq(got.shape, want.shape, what + ': shape')
    # cumulative sums in single precision: the error follows the magnitude of the data; at the
    # floor of the variance the output is (value - mean) * 316
    tol = 2e-4
    if var:
        tol = 2e-3
    if not np.allclose(got, want, rtol=tol, atol=tol):
        ck.fail('%s: got %s, want %s' % (what, got.tolist(), want.tolist()))


def run_case(ck, c):
    if c['kind'] == 'window':
        window(ck, c['n'], c['mean'], c['C'])
    elif c['kind'] == 'frame':
        frame(ck, c['n'])
    elif c['kind'] == 'varonly':
        varonly(ck, c['n'], c['C'])
    else:
        args(ck)
    ck.trace()


def window(ck, n, mean, C):
    from hyperion.feats.feature_normalization import MeanVarianceNorm as N
    ctx = [None] + list(range(C + 1))
    for left, right in itertools.product(ctx, ctx):
        for var in (True, False):
            for kind in ('dense', 'ramp', 'const', 'double'):
                if n == 1 and not mean and var:
                    continue
                if kind in ('const', 'ramp') and not mean and var:
                    continue
                x = data(n, kind)
                mv = N(mean, var, left, right)
                want = define(x, mean, var, left, right)
                if var and (left is not None or right is not None) and not stable(x, mean, n, left, right):
                    continue
                for f in IMPL:
                    x0 = x.copy()
                    y = getattr(mv, f)(x0)
                    what = '%s of %d frames (%s), mean %s, variance %s, context [%s, %s]' % (f, n, kind, mean, var, left, right)
                    compare(ck, y, want, var, x, what)
                    ck.check(np.array_equal(x0, x), what + ': changed its input')
                    ck.step()
                ck.state((n, mean, var, left, right, kind, want.round(3)))


def varonly(ck, n, C):
    """Variance without mean: columns whose windows all have a clear variance and a clear mean."""
    from hyperion.feats.feature_normalization import MeanVarianceNorm as N
    t = np.arange(n)
    x = np.stack([(-1.0) ** t * 2 + 5, (t % 3) * 3.0 - 4 + (t % 2), (-1.0) ** t * (1 + t % 4) + 0.1 * t], axis=1)
    ctx = [None] + list(range(C + 1))
    for left, right in itertools.product(ctx, ctx):
        L = n if left is None else left
        R = n if right is None else right
        g = x / x.std(axis=0)
        # the frames whose window holds one frame have no variance: the floor sets their scale
        vs = np.array([g[max(0, i - L):min(n, i + R + 1)].var(axis=0) for i in range(n)])
        ok = vs > 1e-2
        if not (left is None and right is None) and n > min(L, R) + 1 and not ok.any():
            continue
        for dt in ('float64', 'float32'):
            mv = N(False, True, left, right)
            want = define(x, False, True, left, right)
            if (left is None and right is None) or n <= min(L, R) + 1:
                ok = np.ones_like(ok)
            for f in IMPL:
                y = getattr(mv, f)(x.astype(dt))
                ck.eq(y.shape, want.shape, 'shape')
                if not np.allclose(np.where(ok, y, 0), np.where(ok, want, 0), rtol=2e-3, atol=2e-3):
                    ck.fail('%s of %d frames (%s), variance only, context [%s, %s]: got %s, want %s' % (f, n, dt, left, right, y.tolist(), want.tolist()))
                ck.step()
        ck.state((n, left, right, want.round(3)))


def stable(x, mean, n, left, right):
    """Windows whose variance is tiny but not zero amplify rounding: their scale is not compared."""
    g = define(x, mean, True, None, None)
    L = n if left is None else left
    R = n if right is None else right
    if not mean:
        # without centring, variance of a short window is a difference of large numbers
        if np.abs(g).max() > 50:
            return False
    for i in range(n):
        w = g[max(0, i - L):min(n, i + R + 1)]
        v = w.var(axis=0)
        if not mean and (v < 1e-3).any():
            return False
        if ((v > 1e-12) & (v < 1e-3)).any():
            return False
    return True


def frame(ck, n):
    """Change one frame: only the outputs whose window holds it change, apart from the global step."""
    from hyperion.feats.feature_normalization import MeanVarianceNorm as N
    ctx = [None] + list(range(n + 1))
    base = data(n, 'double')
    for left, right in itertools.product(ctx, ctx):
        if left is None and right is None:
            continue
        if n <= min(n if left is None else left, n if right is None else right) + 1:
            continue
        mv = N(True, False, left, right)
        y0 = mv.normalize(base.copy())
        for j in range(n):
            for d in (1.0, -40.0):
                x = base.copy()
                x[j] += d
                y = mv.normalize(x)
                ck.step()
                L = n if left is None else left
                R = n if right is None else right
                # the global mean cancels in every window
                for i in range(n):
                    w = range(max(0, i - L), min(n, i + R + 1))
                    want = (d if i == j else 0) - (d / len(w) if j in w else 0)
                    if not np.allclose(y[i] - y0[i], want, atol=2e-4 * max(1, abs(d))):
                        ck.fail('context [%s, %s], %d frames: changing frame %d by %g changes frame %d by %s, want %g' % (left, right, n, j, d, i, y[i] - y0[i], want))
            ck.state((n, left, right, j))


def args(ck):
    from hyperion.feats.feature_normalization import MeanVarianceNorm as N
    import argparse
    for pre in (None, 'mvn'):
        p, k = ('--', '') if pre is None else ('--%s-' % pre, pre + '_')
        for nm, v, l, r in itertools.product((False, True), (False, True), (None, 0, 7), (None, 0, 9)):
            par = argparse.ArgumentParser()
            N.add_argparse_args(par, prefix=pre)
            a = (['%sno-norm-mean' % p] if nm else []) + (['%snorm-var' % p] if v else []) + (['%sleft-context=%d' % (p, l)] if l is not None else []) + (['%sright-context=%d' % (p, r)] if r is not None else [])
            mv = N(**N.filter_args(prefix=pre, **vars(par.parse_args(a))))
            ck.eq((mv.norm_mean, mv.norm_var, mv.left_context, mv.right_context), (not nm, v, 300 if l is None else l, 300 if r is None else r), 'options %s' % a)
            ck.step()
            ck.state((pre, nm, v, l, r))
