"""S02: saving and loading models."""
import itertools
import json
import os
import numpy as np
from mc import pldam as P

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of model classes, option combinations, names, states and save/load histories on the real classes, compared with the model that was saved'
BOUND = {
    'quick': '24 model classes x all combinations of their options x 3 names x untrained and trained states; all histories of up to 4 operations out of 7 (save and load with two files, predict, copy, rename) '
             'for 8 classes; all lists of up to 3 out of 9 transforms, cyclic lists of 9 to 21 affine ones, with and without a name',
    'thorough': 'histories of up to 5 operations for 16 classes; lists of up to 4 transforms, cyclic ones of up to 101'}
ASSUMPTIONS = ['parameters of the enumerated models are exact in single precision (trained ones are compared with their rounded values)',
               'training options of the scikit-learn classifiers are not part of a saved model',
               'transforms in a list with a common file have different names']
CHUNK = 4

F = lambda *a: np.array(a, dtype=np.float64)
G = np.array(list(itertools.product((-1.5, 0.0, 0.75, 2.0), repeat=2)))
L2 = np.array([[2.0, 0.5], [0.5, 1.0]])
L2b = np.array([[0.5, -0.25], [-0.25, 4.0]])


def opt(**kw):
    ks = sorted(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[kw[k] for k in ks])]


B = (True, False)


def classes():
    """name -> (class, parameter names, list of (kwargs), outputs, refit or None)"""
    from hyperion import transforms as T
    from hyperion.transforms.sb_sw import SbSw, NSbSw
    from hyperion.pdfs import core as C, mixtures as M
    from hyperion import classifiers as K
    from hyperion.calibration.gauss_calibration import GaussCalibration
    from hyperion.calibration.unsup_gauss_calibration import UnsupGaussCalibration
    ids = np.arange(len(G)) % 3
    R = {}
    pred = lambda m: [m.predict(G)]
    mus = (None, F(0.5, -1.0))
    ts = (None, F([2.0, 0.5], [-1.0, 0.25]), F([1.0], [-2.0]))

    def refit(*names, **kw):
        labels = kw.pop('labels', False)
        def f(m):
            m.fit(G, ids, **kw) if labels else m.fit(G, **kw)
            return [np.array(getattr(m, k), dtype=float) for k in names]
        return f
    for n in ('CentWhiten', 'LNorm'):
        R[n] = (getattr(T, n), ('mu', 'T', 'update_mu', 'update_T'), opt(mu=mus, T=ts[:2], update_mu=B, update_T=B), pred, refit('mu', 'T'))
    R['PCA'] = (T.PCA, ('mu', 'T', 'update_mu', 'update_T', 'pca_dim'), opt(mu=mus, T=ts, update_mu=B, update_T=B, pca_dim=(None, 1, 2)), pred, refit('mu', 'T'))
    R['LDA'] = (T.LDA, ('mu', 'T', 'update_mu', 'update_T', 'lda_dim'), opt(mu=mus, T=ts, update_mu=B, update_T=B, lda_dim=(None, 1, 2)), pred, refit('mu', 'T', labels=True))
    R['NDA'] = (T.NDA, ('mu', 'T'), opt(mu=mus, T=ts), pred, None)
    R['MVN'] = (T.MVN, ('mu', 's'), opt(mu=mus, s=(None, F(2.0, 0.25))), pred, refit('mu', 's'))
    R['NAP'] = (T.NAP, ('U',), opt(U=(F([1.0, 0.0]), F([0.0, 1.0]))), pred, None)
    R['Gaussianizer'] = (T.Gaussianizer, ('r', 'max_vectors'), opt(r=(F([-1.0, -2.0], [0.0, 0.5], [1.0, 1.5]),), max_vectors=(None, 2, 5)), pred, refit('r'))
    up = lambda m: [m.predict(np.hstack((G, G ** 2 + 0.5)))]
    for n in ('CentWhitenUP', 'LNormUP'):
        R[n] = (getattr(T, n), ('mu', 'T', 'update_mu', 'update_T'), opt(mu=mus, T=ts[:2], update_mu=B, update_T=B), up, None)
    R['SbSw'] = (SbSw, ('Sb', 'Sw', 'mu', 'num_classes'), opt(Sb=(L2, L2b), Sw=(L2, L2b), mu=mus, num_classes=(0, 3)), None, None)
    R['NSbSw'] = (NSbSw, ('Sb', 'Sw', 'mu', 'num_classes', 'K', 'alpha'), opt(Sb=(L2,), Sw=(L2b,), mu=mus, num_classes=(2, 3), K=(4, 10), alpha=(1, 2)), None, None)

    lp = lambda m: [m.log_prob(G), m.log_prob_std(G), m.eta, m.A]
    fl = dict(var_floor=(1e-3, 0.5), update_mu=B, update_Lambda=B)
    one = lambda *n: (lambda m: [m.fit(G, epochs=1)] and [np.asarray(getattr(m, k)) for k in n])
    R['Normal'] = (C.Normal, ('mu', 'Lambda', 'x_dim', 'var_floor', 'update_mu', 'update_Lambda'), opt(x_dim=(2,), mu=(F(0.5, -1.0),), Lambda=(L2, L2b), **fl), lp, refit('mu', 'Lambda'))
    R['DiagNormal'] = (C.DiagNormal, ('mu', 'Lambda', 'x_dim', 'var_floor', 'update_mu', 'update_Lambda'), opt(x_dim=(2,), mu=(F(0.5, -1.0),), Lambda=(F(2.0, 0.5),), **fl), lp, refit('mu', 'Lambda'))
    R['NormalDiagCov'] = (C.NormalDiagCov,) + R['DiagNormal'][1:]
    mx = dict(x_dim=(2,), pi=(F(0.25, 0.75),), mu=(F([0.5, -1.0], [-0.5, 2.0]),), update_pi=B, min_N=(0, 9), **fl)
    mp = ('pi', 'mu', 'Lambda', 'x_dim', 'num_comp', 'var_floor', 'update_mu', 'update_Lambda', 'update_pi', 'min_N')
    post = lambda m: lp(m) + [m.compute_pz(G)]
    for n, lam in (('GMM', np.stack((L2, L2b))), ('DiagGMM', F([2.0, 0.5], [1.0, 4.0])), ('GMMDiagCov', F([2.0, 0.5], [1.0, 4.0])),
                   ('DiagGMMTiedCov', F(2.0, 0.5)), ('GMMTiedDiagCov', F(2.0, 0.5))):
        R[n] = (getattr(M, n), mp, opt(Lambda=(lam,), **mx), post, one('pi', 'mu', 'Lambda'))
    llr = lambda m: [m.llr_1vs1(G[:5], G[5:])]
    R['FRPLDA'] = (T_plda('FRPLDA'), ('mu', 'B', 'W', 'fullcov_W', 'update_mu', 'update_B', 'update_W', 'x_dim'),
                   opt(mu=(F(0.5, -1.0),), B=(L2, L2b), W=(L2b,), fullcov_W=B, update_mu=B, update_B=B, update_W=B), llr, lambda m: [m.fit(G, ids, epochs=1)] and [m.mu, m.B, m.W])
    R['SPLDA'] = (T_plda('SPLDA'), ('mu', 'V', 'W', 'fullcov_W', 'update_mu', 'update_V', 'update_W', 'x_dim', 'y_dim'),
                  opt(mu=(F(0.5, -1.0),), V=(F([1.0, 0.5]), F([1.0, 0.5], [0.0, 2.0])), W=(L2b,), fullcov_W=B, update_mu=B, update_V=B, update_W=B), llr, lambda m: [m.fit(G, ids, epochs=1)] and [m.mu, m.V, m.W])
    R['PLDA'] = (T_plda('PLDA'), ('mu', 'V', 'U', 'D', 'update_mu', 'update_V', 'update_U', 'update_D', 'floor_iD', 'x_dim', 'y_dim', 'z_dim'),
                 opt(mu=(F(0.5, -1.0),), V=(F([1.0, 0.5]), F([1.0, 0.5], [0.0, 2.0])), U=(F([0.5, 1.0]),), D=(F(2.0, 0.5),), update_mu=B, update_V=B, update_U=B, update_D=B, floor_iD=(1e-5, 0.25)),
                 llr, lambda m: [m.fit(G, ids, epochs=1)] and [m.mu, m.V, m.U, m.D])
    C3 = F([0.5, -1.0], [2.0, 0.25], [-1.5, 1.0])
    gb = dict(mu=(C3,), W=(L2, L2b), beta=(F(2.0, 3.0, 4.0),), nu=(9.0,), x_dim=(2,), num_classes=(3,), update_mu=B, update_W=B, balance_class_weight=B,
              prior_beta=(None, 3.0), prior_nu=(None, 5.0), post_beta=(None, 2.0), post_nu=(None, 4.0))
    gp = ('mu', 'W', 'beta', 'nu', 'x_dim', 'num_classes', 'update_mu', 'update_W', 'balance_class_weight', 'prior_beta', 'prior_nu', 'post_beta', 'post_nu')
    R['LinearGBE'] = (K.LinearGBE, gp, opt(**gb), lambda m: [m.predict(G, eval_method=e, normalize=nz) for e in ('linear', 'llk', 'predictive') for nz in B], refit('mu', 'W', 'beta', 'nu', labels=True))
    xu = np.hstack((G, G ** 2 + 0.5))
    R['LinearGBEUP'] = (K.LinearGBEUP, gp, opt(**gb)[::7], lambda m: [m.predict(xu)], None)
    R['QScoringHomoGBE'] = (K.QScoringHomoGBE, ('mu', 'W', 'N', 'balance_class_weight', 'prior_N'), opt(mu=(C3,), W=(F(2.0, 4.0),), N=(F(2.0, 3.0, 4.0),), balance_class_weight=B, prior_N=(None, 2.0)),
                           lambda m: [m.predict(np.hstack((G, 0.25 + 0.0 * G)))], None)
    A3, b3 = C3.T, F(0.5, -0.25, 1.0)
    R['LogisticRegression'] = (K.LogisticRegression, ('A', 'b', 'use_bias', 'bias_scaling', 'priors'),
                               opt(A=(A3,), b=(b3,), use_bias=B, bias_scaling=(1, 4), priors=(None, F(0.25, 0.5, 0.25), [0.5, 0.25, 0.25])), lambda m: [m.predict(G, eval_type=e) for e in ('logit', 'post', 'log-post')], None)
    R['BinaryLogisticRegression'] = (K.BinaryLogisticRegression, ('A', 'b', 'use_bias', 'bias_scaling', 'prior'),
                                     opt(A=(F([0.5], [-1.0]),), b=(F(0.25),), use_bias=B, bias_scaling=(1, 4), prior=(0.5, 0.25)), lambda m: [m.predict(G, eval_type=e) for e in ('logit', 'post', 'log-post')], None)
    R['LinearSVMC'] = (K.LinearSVMC, ('A', 'b', 'use_bias', 'bias_scaling', 'balance_class_weight'),
                       opt(A=(A3,), b=(b3,), use_bias=B, bias_scaling=(1, 4), balance_class_weight=B), lambda m: [m.predict(G, eval_type=e) for e in ('logit', 'bin-post', 'bin-logpost', 'cat-post', 'cat-logpost')], None)
    for n, c in (('GaussCalibration', GaussCalibration), ('UnsupGaussCalibration', UnsupGaussCalibration)):
        R[n] = (c, ('mu1', 'mu2', 'sigma2', 'prior', 'a', 'b'), opt(mu1=(2.0, -1.0), mu2=(0.0, -3.5), sigma2=(0.5, 4.0), prior=(0.5, 0.125)), pred, None)
    return R


def T_plda(n):
    from hyperion.pdfs import FRPLDA, SPLDA, PLDA
    return dict(FRPLDA=FRPLDA, SPLDA=SPLDA, PLDA=PLDA)[n]


LOADER = ('DiagNormal', 'Normal', 'DiagGMM', 'GMM', 'FRPLDA', 'SPLDA', 'PLDA', 'CentWhiten', 'LNorm', 'PCA', 'LDA', 'NAP', 'SbSw', 'MVN', 'NDA', 'Gaussianizer',
          'CentWhitenUP', 'LNormUP', 'DiagGMMTiedCov', 'NormalDiagCov', 'GMMDiagCov', 'GMMTiedDiagCov')
CLASSES = LOADER + ('NSbSw', 'LinearGBE', 'LinearGBEUP', 'QScoringHomoGBE', 'LogisticRegression', 'BinaryLogisticRegression', 'LinearSVMC', 'GaussCalibration', 'UnsupGaussCalibration')
HIST = ('CentWhiten', 'LDA', 'DiagGMM', 'Normal', 'SPLDA', 'LinearGBE', 'LogisticRegression', 'GaussCalibration',
        'GMM', 'PLDA', 'FRPLDA', 'MVN', 'Gaussianizer', 'NAP', 'LinearSVMC', 'DiagNormal')
OPS = ('save0', 'save1', 'load0', 'load1', 'predict', 'copy', 'rename')
AFF = ('CentWhiten', 'MVN', 'NDA', 'PCA', 'CentWhitenT')
TL = ('CentWhiten', 'LNorm', 'PCA', 'LDA', 'NDA', 'MVN', 'NAP', 'Gaussianizer', 'CentWhitenT')


def cases(tier):
    q = tier == 'quick'
    for n in CLASSES:
        yield dict(kind='classes_', model=n)
    for n in CLASSES:
        yield dict(kind='trained', model=n)
    for n in HIST[:8 if q else 16]:
        for o in range(len(OPS)):
            yield dict(kind='hist', model=n, first=o, depth=4 if q else 5)
    for n in range(1, 4 if q else 5):
        for k in range(len(TL)):
            yield dict(kind='tlist', n=n, first=k)
    for n in (9, 10, 11, 12, 13, 21) + (() if q else (15, 17, 33, 101)):
        for k in range(len(AFF)):
            for step in (1, 2):
                yield dict(kind='tlist', n=n, first=k, step=step)
    for n in ('CentWhiten', 'DiagGMM', 'SPLDA', 'LinearGBE', 'SbSw'):
        yield dict(kind='paths', model=n)
    for n in MATS:
        yield dict(kind='mats', model=n)


def run_case(ck, c):
    d = os.getcwd()
    os.chdir(ck.dir())
    try:
        globals()[c['kind']](ck, c)
    finally:
        os.chdir(d)
    ck.trace()


def mk(cl, kw, name):
    kw = dict((k, v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items())
    return cl(name=name, **kw)


def val(m, k):
    v = getattr(m, k)
    return None if v is None else np.array(v)


def snap(ck, m, entry, what, out=True):
    r = dict((k, val(m, k)) for k in entry[1])
    o = []
    if entry[3] is not None and out:
        try:
            o = [np.array(v, dtype=float) for v in entry[3](m)]
        except Exception as x:
            # no outputs without those parameters
            if not any(v is None for v in r.values()):
                raise
            o = [np.full((1,), np.nan)]
    return r, o, m.get_config()


def same(ck, m, ref, entry, what, exact=True):
    r, o, cfg = snap(ck, m, entry, what, out=bool(ref[1]))
    for k in r:
        a, b = ref[0][k], r[k]
        if k in ('lda_dim', 'pca_dim') and a is None and b is not None and b == ref[0]['T'].shape[1]:
            continue            # the dimension of the trained matrix
        if a is None or b is None:
            ck.check(a is None and b is None, '%s: %s is %s, expected %s' % (what, k, b, a))
        elif exact or a.dtype.kind != 'f':
            ck.check(np.shape(a) == np.shape(b) and np.array_equal(a, b), '%s: %s is %s, expected %s' % (what, k, b, a))
        else:
            ck.close(b, a, '%s: %s' % (what, k), rtol=3e-7, atol=1e-30)
    for i, (a, b) in enumerate(zip(ref[1], o)):
        ck.close(b, a, '%s: output %d' % (what, i), rtol=1e-9 if exact else 2e-5, atol=1e-9 if exact else 2e-5)
    return cfg


def cfgsame(ck, a, b, what):
    ck.eq(json.loads(json.dumps(b, default=float)), json.loads(json.dumps(a, default=float)), what + ': configuration')


def classes_(ck, c):
    from hyperion.model_loader import ModelLoader
    e = classes()[c['model']]
    big = len(e[2]) > 100
    for i, kw in enumerate(e[2]):
        for name in ((None, 'm', 'a/b') if not big else ((None, 'm', 'a/b')[i % 3],)):
            what = '%s(%s) named %s' % (c['model'], ', '.join('%s=%s' % (k, v) for k, v in kw.items()), name)
            m = mk(e[0], kw, name)
            ref = snap(ck, m, e, what)
            m.save('m.h5')
            ck.step()
            cfgsame(ck, ref[2], same(ck, m, ref, e, what + ', after saving'), what + ', after saving')
            m2 = e[0].load('m.h5')
            ck.check(type(m2) is e[0], what + ': loaded a %s' % type(m2).__name__)
            ck.check(m2.name == name, what + ': name %s' % m2.name)
            cfgsame(ck, ref[2], same(ck, m2, ref, e, what + ', loaded'), what + ', loaded')
            cfgsame(ck, ref[2], e[0].load_config('m.h5'), what + ', in the file')
            if c['model'] in LOADER:
                m3 = ModelLoader.load('m.h5')
                ck.check(type(m3) is e[0], what + ': the loader gives a %s' % type(m3).__name__)
                same(ck, m3, ref, e, what + ', from the loader')
            if e[4] is not None and (not big or i % 5 == 0):
                a, b = m.copy(), m2.copy()
                try:
                    wa = e[4](a)
                except Exception as x:
                    ck.raises(lambda: e[4](b), what + ': training after loading works although it fails for the saved model (%s)' % x)
                    continue
                wb = e[4](b)
                for x, y in zip(wa, wb):
                    ck.close(y, x, what + ': training after loading', rtol=1e-9, atol=1e-9)
                ck.step()
                # copies are independent
                same(ck, m, ref, e, what + ', after training a copy')
            ck.state((c['model'], i, name))


def trained(ck, c):
    """states reached by training: parameters are kept to single precision, further saves change nothing"""
    e = classes()[c['model']]
    cl = e[0]
    rng = np.random.RandomState(3)
    x = np.vstack((rng.randn(8, 2), rng.randn(8, 2) + 2, rng.randn(8, 2) * 2))
    ids = np.repeat((0, 1, 2), 8)
    n = c['model']
    with np.errstate(all='ignore'):
        ms = []
        if n in ('CentWhiten', 'LNorm', 'MVN'):
            m = cl(name='t')
            m.fit(x)
            ms.append(m)
        elif n == 'PCA':
            for d in (None, 1, 2):
                m = cl(name='t', pca_dim=d)
                m.fit(x)
                ms.append(m)
        elif n == 'LDA':
            for d in (None, 1, 2):
                m = cl(name='t', lda_dim=d)
                m.fit(x, ids)
                ms.append(m)
        elif n == 'Gaussianizer':
            for v in (None, 5, 100):
                m = cl(max_vectors=v)
                m.fit(x)
                ms.append(m)
        elif n in ('SbSw', 'NSbSw'):
            m = cl(name='s', **(dict(K=4) if n == 'NSbSw' else {}))
            m.fit(x, ids)
            ms.append(m)
        elif n in ('Normal', 'DiagNormal'):
            m = cl(x_dim=2)
            m.fit(x)
            ms.append(m)
        elif n in ('GMM', 'DiagGMM', 'DiagGMMTiedCov'):
            m = cl(x_dim=2, num_comp=1)
            m.initialize()
            ms.append(m)
            for k in (1, 2, 3):
                m = cl(x_dim=2, num_comp=k, name='g')
                m.fit(x, epochs=3)
                ms += [m]
                if k < 3:
                    ms += [m.split_comp(2), m.split_comp(3)]
        elif n == 'FRPLDA':
            m = cl()
            m.fit(x, ids, epochs=2)
            ms.append(m)
        elif n in ('SPLDA', 'PLDA'):
            for y in (1, 2):
                m = cl(y_dim=y) if n == 'SPLDA' else cl(y_dim=y, z_dim=1)
                m.fit(x, ids, epochs=2)
                ms.append(m)
        elif n == 'LinearGBE':
            for bal in B:
                m = cl(balance_class_weight=bal)
                m.fit(x, ids)
                ms.append(m)
        elif n in ('LogisticRegression', 'LinearSVMC'):
            for bias in B:
                m = cl(use_bias=bias)
                m.fit(x, ids)
                ms.append(m)
            m = cl()
            m.fit(x, ids)
            ms.append(m)
        elif n == 'BinaryLogisticRegression':
            m = cl(prior=0.25, bias_scaling=3)
            m.fit(x, (ids > 0).astype(int))
            ms.append(m)
        elif n == 'GaussCalibration':
            m = cl()
            m.fit(x[:, 0], (ids > 0).astype(int))
            ms.append(m)
        for m in ms:
            what = '%s after training' % n
            ent = e
            ref = snap(ck, m, ent, what)
            m.save('t.h5')
            same(ck, m, ref, ent, what + ' and saving')
            m2 = cl.load('t.h5')
            skip = ('priors',) + (('lda_dim', 'pca_dim') if ref[2].get('lda_dim', ref[2].get('pca_dim')) is None else ())
            cfgsame(ck, {k: v for k, v in ref[2].items() if k not in skip}, {k: v for k, v in m2.get_config().items() if k not in skip}, what)
            same(ck, m2, ref, ent, what + ', loaded', exact=False)
            ref2 = snap(ck, m2, ent, what)
            m2.save('t2.h5')
            same(ck, cl.load('t2.h5'), ref2, ent, what + ', loaded, saved and loaded')
            ck.step()
        # untrained
        fresh = {'CentWhiten': {}, 'LNorm': {}, 'PCA': dict(pca_dim=1), 'LDA': dict(lda_dim=1), 'MVN': {}, 'NDA': {}, 'Gaussianizer': dict(max_vectors=3), 'CentWhitenUP': {}, 'LNormUP': {},
                 'SbSw': {}, 'LinearGBE': {}, 'QScoringHomoGBE': {}, 'GaussCalibration': {}, 'FRPLDA': {}, 'SPLDA': dict(y_dim=1), 'PLDA': dict(y_dim=1, z_dim=1)}
        if n in fresh:
            for name in (None, 'u'):
                m = cl(name=name, **fresh[n])
                r = dict((k, val(m, k)) for k in e[1])
                m.save('u.h5')
                m2 = cl.load('u.h5')
                what = '%s before training, named %s' % (n, name)
                cfgsame(ck, m.get_config(), m2.get_config(), what)
                same(ck, m2, (r, [], None), e, what)
                ck.step()


def hist(ck, c):
    """every history of operations on one model and two files"""
    n = c['model']
    e = classes()[n]
    full = [k for k in e[2] if not any(v is None for v in k.values())] or e[2]
    kws = [full[0], full[-1]]
    other = mk(e[0], kws[1], 'other')
    oref = snap(ck, other, e, n)
    for ops in itertools.product(range(len(OPS)), repeat=c['depth'] - 1):
        ops = (c['first'],) + ops
        if any(o >= 2 and o < 4 and (o - 2) not in ops[:i] for i, o in enumerate(ops)) and ops[0] not in (2, 3):
            if any(o == 3 and 1 not in ops[:i] for i, o in enumerate(ops)):
                continue        # file 1 does not exist yet
        m = mk(e[0], kws[0], 'a')
        ref, name = snap(ck, m, e, n), 'a'
        for f in ('h0.h5', 'h1.h5'):
            if os.path.exists(f):
                os.remove(f)
        other.save('h0.h5')             # file 0 already holds another model
        files = {0: (oref, 'other')}
        for i, o in enumerate(ops):
            what = '%s, history %s' % (n, [OPS[j] for j in ops[:i + 1]])
            op = OPS[o]
            if op.startswith('save'):
                m.save('h%s.h5' % op[-1])
                files[int(op[-1])] = (ref, name)
            elif op.startswith('load'):
                k = int(op[-1])
                if k not in files:
                    break
                m = e[0].load('h%d.h5' % k)
                ref, name = files[k]
            elif op == 'copy':
                m = m.copy()
            elif op == 'rename':
                name = {'a': None, None: 'b/c'}.get(name, 'a')
                m.name = name
            else:
                e[3](m)
            ck.step()
        else:
            same(ck, m, ref, e, what)
            ck.check(m.name == name, what + ': name %s, expected %s' % (m.name, name))
            for k in files:
                f = e[0].load('h%d.h5' % k)
                same(ck, f, files[k][0], e, what + ', file %d' % k)
                ck.check(f.name == files[k][1], what + ', file %d: name %s' % (k, f.name))
            ck.state((n, ops))


def tmk(n, i):
    from hyperion import transforms as T
    mu, W = F(0.5, -1.0), F([2.0, 0.5], [-1.0, 0.25])
    k = i + 1
    nm = 't%d' % i
    if n == 'CentWhiten':
        return T.CentWhiten(mu=mu * k, T=W, update_T=False, name=nm)
    if n == 'CentWhitenT':
        return T.CentWhiten(mu=mu, update_mu=False, name=nm)
    if n == 'LNorm':
        return T.LNorm(mu=mu / 2 ** i, T=None, name=nm)
    if n == 'PCA':
        return T.PCA(T=W * k, pca_dim=2, name=nm)
    if n == 'LDA':
        return T.LDA(mu=mu, T=W.T, lda_dim=2, name=nm)
    if n == 'NDA':
        return T.NDA(mu=-mu * k, T=W.T * 0.5, name=nm)
    if n == 'MVN':
        return T.MVN(mu=mu, s=F(2.0, 0.25 * k), name=nm)
    if n == 'NAP':
        return T.NAP(U=F([0.0, 1.0]) if i % 2 else F([1.0, 0.0]), name=nm)
    return T.Gaussianizer(r=F([-1.0, -2.0], [0.0, 0.5 * k], [1.0, 1.5]), max_vectors=5, name=nm)


def tlist(ck, c):
    from hyperion import transforms as T
    from hyperion.model_loader import ModelLoader
    if c['n'] > 8:             # long lists: the positions have several digits
        seqs = [tuple(AFF[(c['first'] + i * c['step']) % len(AFF)] for i in range(c['n']))]
    else:
        seqs = [(TL[c['first']],) + rest for rest in itertools.product(TL, repeat=c['n'] - 1)]
    for seq in seqs:
        x = G
        for i, n in enumerate(seq):
            x = tmk(n, i).predict(x)
        for lname in (None, 'tl'):
            for how in range(3):
                ts = [tmk(n, i) for i, n in enumerate(seq)]
                if how == 0:
                    t = T.TransformList(ts, name=lname)
                elif how == 1:
                    t = T.TransformList(ts[:1], name=lname)
                    for a in ts[1:]:
                        t.append(a)
                else:
                    if len(seq) > 1:
                        continue
                    t = T.TransformList(ts[0], name=lname)
                what = 'list %s named %s' % (list(seq), lname)
                ck.close(t.predict(G), x, what, rtol=1e-12, atol=1e-12)
                for gen in range(3):
                    names = [a.name for a in t.transforms]
                    cfg = t.get_config()
                    t.save('tl%d.h5' % gen)
                    ck.eq([a.name for a in t.transforms], names, what + ': names after saving')
                    load = (T.TransformList.load, ModelLoader.load)[gen % 2]
                    t2 = load('tl%d.h5' % gen)
                    ck.check(type(t2) is T.TransformList, what + ': loaded a %s' % type(t2).__name__)
                    ck.eq([type(a).__name__ for a in t2.transforms], [type(a).__name__ for a in ts], what + ', generation %d' % gen)
                    ck.eq([a.name for a in t2.transforms], names, what + ', generation %d: names' % gen)
                    ck.eq([a.name.split('/')[-1] for a in t2.transforms], ['t%d' % i for i in range(len(seq))], what + ', generation %d: names' % gen)
                    ck.check(t2.name == lname, what + ': list name %s' % t2.name)
                    cfgsame(ck, cfg, t2.get_config(), what + ', generation %d' % gen)
                    ck.close(t2.predict(G), x, what + ', generation %d' % gen, rtol=1e-12, atol=1e-12)
                    ck.step()
                    t = t2
        ck.state(seq)


MATS = dict(CentWhiten=('mu', 'T'), LNorm=('mu', 'T'), PCA=('mu', 'T'), LDA=('mu', 'T'), NDA=('mu', 'T'), NAP=('U',), Gaussianizer=('r',))


def mats(ck, c):
    """files with the bare parameters"""
    import h5py
    e = classes()[c['model']]
    n = 0
    for kw in e[2]:
        if any(kw.get(p) is None for p in MATS[c['model']]):
            continue
        m = mk(e[0], kw, 'a')
        before = snap(ck, m, e, 'x')
        n += 1
        f = 'm%d.mat' % (n % 3)
        m.save_mat(f)
        ck.step()
        what = '%s with %s through a file of bare parameters' % (c['model'], sorted(kw))
        with h5py.File(f, 'r') as h:
            ck.eq(sorted(h), sorted(MATS[c['model']]), what + ': contents')
        z = e[0].load_mat(f)
        ck.step()
        for p in MATS[c['model']]:
            ck.close(val(z, p), val(m, p), what + ': ' + p, rtol=1e-6, atol=1e-7)
        xs = [np.array(v, dtype=float) for v in e[3](z)]
        for a, b in zip(xs, before[1]):
            ck.close(a, b, what + ': output', rtol=1e-5, atol=1e-5)
        same(ck, m, before, e, what + ': saved model')
        ck.state((c['model'], n))
    ck.check(n > 0, 'no model with parameters')
    ck.trace()


def paths(ck, c):
    e = classes()[c['model']]
    d = ck.dir()
    ms = [mk(e[0], e[2][0], 'a'), mk(e[0], e[2][-1], 'b')]
    refs = [snap(ck, m, e, 'x') for m in ms]
    ps = ['m.h5', './m.h5', 'new/m.h5', 'new/deeper/dir/m.h5', d + '/abs.h5', d + '/absnew/x.h5', 'noext', 'dot.name.h5']
    for p, q in itertools.product(ps, ps):
        # both models, the second one possibly over the first
        for i, f in enumerate((p, q)):
            ms[i].save(f)
        k = os.path.normpath(os.path.join(d, p)) == os.path.normpath(os.path.join(d, q))
        what = '%s saved in %s, another in %s' % (c['model'], p, q)
        same(ck, e[0].load(p), refs[1 if k else 0], e, what)
        same(ck, e[0].load(q), refs[1], e, what)
        ck.step()
    for i in (0, 1):
        with open('cfg.json', 'w') as f:
            f.write(ms[i].to_json())
        cfgsame(ck, ms[i].get_config(), e[0].load_config('cfg.json'), 'configuration from a text file')
    with open('junk', 'wb') as f:
        f.write(b'not a model')
    ck.raises(lambda: e[0].load('junk'), 'a file that is not a model is loaded')
    ck.raises(lambda: e[0].load('missing.h5'), 'a missing file is loaded')
