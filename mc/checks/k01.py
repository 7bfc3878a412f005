"""K01: layers and losses of the networks: definitions, announced shapes, padding, noise, saved networks."""
import itertools
import os
import types
import sys
import numpy as np
from mc import fakekeras as F
from mc.checks import e01 as B

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of masks, weights, formats and sizes on the real layers and losses, over a stand-in for Keras on numpy with controlled noise, against their definitions; every layer saved and loaded'
BOUND = {
    'quick': 'sequences of up to 4 frames with all weights of {0, 0.5, 1} and 3 scales of the data; 28 formats of divergences, 14 x 8 of posteriors; 1-3 samples; batches of 1-9 samples by 1-10',
    'thorough': 'sequences of up to 6 frames'}
ASSUMPTIONS = ['Keras and TensorFlow are stand-ins on numpy with the semantics of their documentation (they are not installed)', 'the layers marked as deprecated products of posteriors, MelFB and the heteroscedastic scoring (marked TODO) are left out']
CHUNK = 2
S = {}


def setup():
    if S:
        return
    B.setup()
    from hyperion.keras import losses, objectives, constraints
    from hyperion.keras import layers
    S.update(B._S, L=losses, O=objectives, C=constraints, Y=layers)


def noise(shape, kind='normal'):
    n = int(np.prod(shape))
    u = (np.arange(n) * 0.7548776662 + 0.1 * len(shape) + 0.31) % 1.0
    return (u if kind == 'uniform' else 3 * u - 1.4).reshape(shape)


def data(*shape, k=0):
    n = int(np.prod(shape))
    return (((np.arange(n) + 3 * k) * 0.6180339887 + 0.21) % 1.0 * 4 - 2.1).reshape(shape)


def cases(tier):
    q = tier == 'quick'
    for T in range(1, (4 if q else 6) + 1):
        yield dict(kind='pool', T=T)
        yield dict(kind='lde', T=T)
    for x in B.IN:
        yield dict(kind='convert', fi=x)
    for f in itertools.product(('nat', 'mean'), ('var', 'prec', 'logvar', 'logprec')):
        yield dict(kind='kl', fmt='+'.join(f))
    for k in ('samplers', 'shapes', 'elementwise', 'feats', 'losses', 'objectives', 'constraints', 'saved', 'batches', 'mask', 'scoring'):
        yield dict(kind=k)


def run_case(ck, c):
    setup()
    np.seterr(all='ignore')
    F.NOISE[0] = noise
    globals()['k_' + c['kind']](ck, c)
    ck.trace()


def net(layer, *ins):
    """the layer in a network: announced shapes are checked too"""
    i = [F.Input(shape=(None,) * (np.ndim(a) - 2) + (np.shape(a)[-1],)) if np.ndim(a) > 2 else F.Input(shape=np.shape(a)[1:]) for a in ins]
    m = F.Model(i if len(i) > 1 else i[0], layer(i if len(i) > 1 else i[0]))
    return m.predict(list(ins) if len(ins) > 1 else ins[0], batch_size=100), m


def saved(ck, m, ins, want, what):
    f = os.path.join(ck.dir(), 'm')
    m.set_weights([w * 0.7 + 0.2 for w in m.get_weights()])
    want = m.predict(ins)
    m.save(f)
    k = F.load_model(f, custom_objects=S['U'].get_keras_custom_obj())
    got = k.predict(ins)
    for a, b in zip(want if isinstance(want, list) else [want], got if isinstance(got, list) else [got]):
        ck.close(b, a, 'output of a saved network with %s' % what, rtol=1e-9)
    ck.check(k.get_config() == m.get_config(), lambda: 'configuration of a saved network with %s' % what)
    ck.step()


def k_pool(ck, c):
    Y, T = S['Y'], c['T']
    ws = [w for w in itertools.product((0., 0.5, 1.), repeat=T) if any(w)]
    W = np.array(ws)
    for scale, shift in ((1, 0), (0.5, -3), (2, 4)):
        x = np.stack([data(T, 2, k=i) * scale + shift for i in range(len(W))])
        # what stands in the padding is irrelevant
        junk = np.where(W[:, :, None] == 0, 1e3 * (1 + data(len(W), T, 1)), x)
        w3 = W[:, :, None]
        N = w3.sum(1)
        mean = (x * w3).sum(1) / N
        var = ((x - mean[:, None]) ** 2 * w3).sum(1) / N
        ref = {'GlobalWeightedAveragePooling1D': [mean], 'GlobalWeightedSumPooling1D': [(x * w3).sum(1)], 'GlobalWeightedMeanStdPooling1D': [mean, np.sqrt(var)],
               'GlobalWeightedMeanLogVarPooling1D': [mean, np.log(var + 1e-10)]}
        for n, want in ref.items():
            for xx in (x, junk):
                for ww in (W, w3):
                    got, _ = net(getattr(Y, n)(), xx, ww)
                    for g, v in zip(got if isinstance(got, list) else [got], want):
                        ck.close(g, v, '%s of the frames with their weights' % n, rtol=1e-6, atol=1e-5)
                    ck.step(len(W))
        # maximum of the valid frames, masks only
        sel = np.array([all(v in (0, 1) for v in w) for w in ws])
        want = np.where(w3 > 0, x, -np.inf).max(1)[sel]
        for xx in (x, junk):
            for ww in (W, w3):
                got, _ = net(Y.GlobalMaskedMaxPooling1D(), xx[sel], ww[sel])
                ck.close(got, want, 'maximum of the valid frames', rtol=1e-6, atol=1e-5)
                ck.step()
        ck.close(net(Y.GlobalSumPooling1D(), x)[0], x.sum(1), 'sum of the frames')
        ck.close(net(Y.GlobalSumWeights(), w3)[0], w3.sum(1), 'sum of the weights')
        ck.state(('pool', T, scale))


def k_lde(ck, c):
    Y, T = S['Y'], c['T']
    W = np.array([w for w in itertools.product((0., 0.5, 1.), repeat=T) if any(w)])
    for K in (1, 2, 3):
        for order in (1, 2):
            x = np.stack([data(T, 2, k=i) for i in range(len(W))])
            junk = np.where(W[:, :, None] == 0, 50 * (1 + data(len(W), T, 1)), x)
            l = Y.LDE1D(num_comp=K, order=order)
            net(l, x, W)
            l.set_weights([data(K, 2, k=5), 0.3 + np.arange(K) * 0.4])
            mu, s = l.get_weights()
            for xx in (x, junk):
                for ww in (W, W[:, :, None]):
                    got, m = net(l, xx, ww)
                    for i in range(len(W)):
                        ck.close(got[i], B.lde(x[i], W[i], mu, s, order), 'dictionary encoding with %d components, order %d' % (K, order), rtol=1e-5, atol=1e-6)
                    ck.step(len(W))
            ck.state(('lde', T, K, order))


def k_convert(ck, c):
    Y = S['Y']
    for fo in B.OUT:
        for b in (0.0001, 0.2, 0.9):
            for shape in ((3, 2), (2, 3, 2)):
                p1, p2 = data(*shape), data(*shape, k=2) * 2
                if 'log' not in c['fi']:
                    p2 = np.abs(p2) + 0.05
                    p2.flat[0], p2.flat[-1] = 1e-6, 2e5      # beyond all limits
                else:
                    p2.flat[0], p2.flat[-1] = 9.5, -9.5
                l = Y.ConvertNormalDiagCovPostStdPriorFmt(c['fi'], fo, min_var=b)
                (r1, r2), m = net(l, p1, p2)
                prec = B.to_prec(p2, c['fi'].split('+', 1)[1], b)
                mean = p1 if c['fi'][:4] == 'mean' else p1 / prec
                ck.close(r1, mean if fo[:4] == 'mean' else mean * prec, 'first parameter, %s to %s' % (c['fi'], fo), rtol=1e-6, atol=1e-9)
                ck.close(r2, {'var': 1 / prec, 'prec': prec, 'logvar': -np.log(prec), 'logprec': np.log(prec)}[fo.split('+')[1]], 'second parameter, %s to %s' % (c['fi'], fo), rtol=1e-6, atol=1e-9)
                ck.step()
        saved(ck, m, [p1, p2], None, 'ConvertNormalDiagCovPostStdPriorFmt')
        ck.state(('conv', c['fi'], fo))


def mv(p1, p2, fmt):
    a, b = fmt.split('+')
    v = {'logvar': np.exp(p2), 'var': p2, 'logprec': np.exp(-p2), 'prec': 1 / p2}[b]
    return (p1 if a == 'mean' else p1 * v), v


def k_kl(ck, c):
    Y, fmt = S['Y'], c['fmt']
    l2 = np.log(2 * np.pi)
    for shape in ((3, 2), (3, 1), (2, 4, 2), (1, 1, 3)):
        p = [data(*shape, k=i) for i in range(4)]
        if 'log' not in fmt:
            p[1], p[3] = np.abs(p[1]) + 0.1, np.abs(p[3]) + 0.2
        if len(shape) == 3 and shape[1] > 1:
            for q in (0, 2):
                p[q][0, -1] = 0        # shorter sequence
        m1, v1 = mv(p[0], p[1], fmt)
        m2, v2 = mv(p[2], p[3], fmt)
        for beta in (1, 0.5, 2.):
            for mk in (0, 0.7):
                for tn in (True, False):
                    l = Y.KLDivNormalVsStdNormal(in_fmt=fmt, min_kl=mk, beta=beta, time_norm=tn)
                    got, m = net(l, p[0], p[1])
                    want = np.maximum((0.5 * ((beta - 1) * l2 - np.log(v1) - 1 + beta * (m1 ** 2 + v1))).sum(-1, keepdims=True) / beta, mk)
                    if len(shape) == 3 and not tn:
                        want = want * (m1 != 0).any(-1).sum(-1)[:, None, None]
                    ck.close(got, want, 'divergence to the standard normal, %s, beta %s' % (fmt, beta), rtol=1e-5, atol=1e-5)
                    saved(ck, m, p[:2], None, 'KLDivNormalVsStdNormal')
                l = Y.KLDivNormalVsDiagNormal(in_fmt=fmt, min_kl=mk, beta=beta)
                got, m = net(l, *p)
                want = np.maximum((0.5 * ((beta - 1) * l2 + beta * np.log(v2) - np.log(v1) - 1 + beta * ((m1 - m2) ** 2 + v1) / v2)).sum(-1, keepdims=True) / beta, mk)
                ck.close(got, want, 'divergence to a diagonal normal, %s, beta %s' % (fmt, beta), rtol=1e-5, atol=1e-5)
                saved(ck, m, p, None, 'KLDivNormalVsDiagNormal')
                ck.state(('kl', fmt, shape, beta, mk))


def k_samplers(ck, c):
    Y = S['Y']
    for n in (1, 2, 3):
        for shape in ((3, 2), (2, 3, 2)):
            mu, p2 = data(*shape), np.abs(data(*shape, k=1)) + 0.1
            R = lambda a: np.repeat(a, n, 0)

            def run(l, *ins):
                """called on arrays: a layer for several samples changes the size of the batch"""
                sh = l.compute_output_shape([np.shape(a) for a in ins] if len(ins) > 1 else np.shape(ins[0]))
                out = l(list(ins) if len(ins) > 1 else ins[0])
                ck.check(tuple(sh) == tuple(np.shape(out)), lambda: '%s with %d samples: output of the shape %s, announced %s' % (type(l).__name__, n, np.shape(out), sh))
                d = type(l).from_config(l.get_config())
                ck.check(d.get_config() == l.get_config(), lambda: 'configuration of %s' % type(l).__name__)
                ck.close(d(list(ins) if len(ins) > 1 else ins[0]), out, 'output of a copied %s' % type(l).__name__)
                ck.step()
                return np.asarray(out, float)
            for a in ('mean', 'nat'):
                for b, sd in (('stddev', lambda p: p), ('var', np.sqrt), ('logvar', lambda p: np.exp(p / 2)), ('prec', lambda p: 1 / np.sqrt(p)), ('logprec', lambda p: np.exp(-p / 2))):
                    s = R(sd(p2))
                    m = R(mu) * (s * s if a == 'nat' else 1)
                    ck.close(run(Y.NormalDiagCovSampler(in_fmt=a + '+' + b, num_samples=n), mu, p2), m + s * noise((n * shape[0],) + shape[1:]), '%d samples of a normal, %s+%s' % (n, a, b), rtol=1e-9)
                    if len(shape) == 2:
                        for T in (1, 2, 4):
                            got = run(Y.TiedNormalDiagCovSampler(T, in_fmt=a + '+' + b, num_samples=n), mu, p2)
                            ck.close(got, m[:, None] + s[:, None] * noise((n * 3, T, 2)), 'samples of every frame', rtol=1e-9)
                            got = run(Y.TiedNormalDiagCovSampler(T, in_fmt=a + '+' + b, num_samples=n, one_per_seq=True), mu, p2)
                            ck.close(got, np.repeat(m[:, None] + s[:, None] * noise((n * 3, 1, 2)), T, 1), 'one sample for the sequence', rtol=1e-9)
            p = 1 / (1 + np.exp(-mu))
            ck.close(run(Y.BernoulliSampler(num_samples=n), p), noise((n * shape[0],) + shape[1:], 'uniform') < R(p), 'samples of a Bernoulli distribution')
            for v, sd in (('logvar', lambda p: np.exp(p / 2)), ('var', np.sqrt), ('std', lambda p: p)):
                ck.close(run(Y.DiagNormalSampler(var_spec=v, num_samples=n), mu, p2), R(mu) + R(sd(p2)) * noise((n * shape[0],) + shape[1:]), 'samples of a diagonal normal (%s)' % v, rtol=1e-9)
                if len(shape) == 2:
                    for one in (True, False):
                        got = run(Y.DiagNormalSamplerFromSeqLevel(3, var_spec=v, num_samples=n, one_sample_per_seq=one), mu, p2)
                        want = R(mu)[:, None] + R(sd(p2))[:, None] * noise((n * 3, 1 if one else 3, 2))
                        ck.close(got, np.repeat(want, 3, 1) if one else want, 'samples of a sequence (%s)' % v, rtol=1e-9)
            if len(shape) == 2:
                ch = np.stack([np.array([[1, 0.5 * (i - 1)], [0, 1]]) for i in range(3)])
                e = noise((n * 3, 2))
                ck.close(run(Y.NormalSampler(num_samples=n), mu, p2, ch), R(mu) + np.einsum('ni,nij->nj', e * np.exp(R(p2) / 2), R(ch)), 'samples of a full covariance', rtol=1e-9)
                for one in (True, False):
                    got = run(Y.NormalSamplerFromSeqLevel(3, num_samples=n, one_sample_per_seq=one), mu, p2, ch)
                    e = noise((n * 3, 2))[:, None] if one else noise((n * 3, 3, 2))
                    want = R(mu)[:, None] + np.einsum('nti,nij->ntj', e * np.exp(R(p2) / 2)[:, None], R(ch))
                    ck.close(got, np.repeat(want, 3, 1) if one else want, 'samples of a sequence with full covariance', rtol=1e-9)
            ck.state(('s', n, shape))


def k_shapes(ck, c):
    Y = S['Y']
    for shape in ((2, 3), (2, 3, 2), (1, 2, 1, 2)):
        x = data(*shape)
        for ax in list(range(1, len(shape) + 1)) + [-1, -2]:
            if ax + len(shape) + 1 == 0:
                continue
            for l, want in [(Y.ExpandDim(axis=ax), np.expand_dims(x, ax))] + [(Y.ExpandAndTile(n, axis=ax), np.repeat(np.expand_dims(x, ax), n, ax)) for n in (1, 2, 3)]:
                got, m = net(l, x)
                ck.check(tuple(l.compute_output_shape(shape)) == np.shape(want), lambda: '%s at axis %d of %s: announced %s' % (type(l).__name__, ax, shape, l.compute_output_shape(shape)))
                ck.close(got, want, '%s at axis %d' % (type(l).__name__, ax))
                saved(ck, m, x, None, type(l).__name__)
            if ax < len(shape):
                for n in (1, 2, 3):
                    l = Y.Repeat(n, ax)
                    got, m = net(l, x)
                    ck.check(tuple(l.compute_output_shape(shape)) == np.repeat(x, n, ax).shape, 'shape of a repetition')
                    ck.close(got, np.repeat(x, n, ax), 'repetition at axis %d' % ax)
                    saved(ck, m, x, None, 'Repeat')
            ck.state(('sh', shape, ax))


def k_elementwise(ck, c):
    Y = S['Y']
    x = data(3, 2) / 2
    p = np.abs(x) + 0.1
    for n, i, f in (('Invert', p, lambda x: 1 / x), ('Exp', x, np.exp), ('Log', p, np.log), ('Log1', p, lambda x: np.log(x + 1)), ('NegLog', p, lambda x: -np.log(x)), ('NegLog1', p, lambda x: -np.log(x + 1)),
                    ('Add1', x, lambda x: x + 1), ('Add01', x, lambda x: x + 0.1)):
        for y in (i, i[:, None]):
            got, m = net(getattr(Y, n)(), y)
            ck.close(got, f(y), n, rtol=1e-9)
            saved(ck, m, y, None, n)
    for k in range(1, 12):
        got, m = net(Y.ExpTaylor(order=k), x)
        want = sum(x ** j / float(np.prod(np.arange(1, j + 1))) for j in range(k + 1))
        ck.close(got, want, 'Taylor polynomial of the exponential of order %d' % k, rtol=1e-9)
        saved(ck, m, x, None, 'ExpTaylor')
    for act in (None, 'relu', 'tanh'):
        l = Y.Bias(2, activation=act, bias_initializer='normal')
        got, m = net(l, x)
        b = l.get_weights()[0]
        ck.close(got, {None: lambda z: z, 'relu': lambda z: np.maximum(z, 0), 'tanh': np.tanh}[act](x + b), 'bias and activation', rtol=1e-9)
        saved(ck, m, x, None, 'Bias')
    ck.state('e')


def k_feats(ck, c):
    Y = S['Y']
    for D in range(1, 9):
        x = data(3, D)
        for norm in (True, False):
            k = np.arange(D)
            C = 2 * np.cos(np.pi * np.outer(2 * np.arange(D) + 1, k) / (2 * D))
            if norm:
                C = C * np.where(k == 0, np.sqrt(1 / (4 * D)), np.sqrt(1 / (2 * D)))
            for U in range(1, D + 1):
                got, m = net(Y.DCT(U, normalize=norm), x)
                ck.close(got, x @ C[:, :U], 'cosine transform of %d values, %d coefficients' % (D, U), rtol=1e-6, atol=1e-9)
                f = os.path.join(ck.dir(), 'm')
                m.save(f)
                ck.close(F.load_model(f, S['U'].get_keras_custom_obj()).predict(x), got, 'saved cosine transform', rtol=1e-9)
                ck.step()
            y, _ = net(Y.DCT(D, normalize=norm), x)
            z, _ = net(Y.DCT(D, inv=True, normalize=norm), y)
            ck.close(z, x if norm else x * 2 * D, 'inverse of the cosine transform', rtol=1e-6, atol=1e-9)
        for Q in (1.5, 10, 22):
            got, m = net(Y.Liftering(Q=Q), x)
            ck.close(got, x * (1 + 0.5 * Q * np.sin(np.pi * np.arange(D) / Q)), 'liftering', rtol=1e-6, atol=1e-9)
            z, m2 = net(Y.Liftering(Q=Q, inv=True), got)
            ck.close(z, x, 'inverse liftering', rtol=1e-6, atol=1e-8)
            f = os.path.join(ck.dir(), 'm')
            m2.save(f)
            ck.close(F.load_model(f, S['U'].get_keras_custom_obj()).predict(got), z, 'saved liftering', rtol=1e-9)
            ck.step()
        ck.state(('ft', D))


def k_losses(ck, c):
    L = S['L']
    T = F.ten
    sm = lambda z: np.exp(z) / np.exp(z).sum(-1, keepdims=True)
    for N, n in itertools.product((1, 2, 4), (1, 2, 4)):
        for lens in itertools.product(range(1, n + 1), repeat=min(N, 2)):
            lens = np.array((lens * 2)[:N])
            mask = np.arange(n)[None] < lens[:, None]
            y = np.eye(3)[(np.arange(N * n) % 3).reshape(N, n)] * mask[..., None]
            p = sm(data(N, n, 3))
            b = ((data(N, n, 3) > 0) | (np.arange(3) == 0)) * mask[..., None]
            q = 1 / (1 + np.exp(-data(N, n, 3, k=2)))
            x = (data(N, n, 2) + 0.01) * mask[..., None]
            o = data(N, n, 4, k=3)
            for tn in (True, False):
                k = 1 if tn else lens[:, None]
                ck.close(L.nllk_categorical(T(y), T(p), tn), k * -(y * np.log(p)).sum(-1), 'loss of categories, lengths %s of %d' % (lens, n), rtol=1e-5, atol=1e-6)
                ck.close(L.nllk_bernoulli(T(b), T(q), tn), k * -(b * np.log(q) + (1 - b) * np.log(1 - q)).sum(-1), 'loss of binary data', rtol=1e-5, atol=1e-6)
                m, l = o[..., :2], o[..., 2:]
                ck.close(L.nllk_normal_diag_cov(T(x), T(o), tn), k * 0.5 * (np.log(2 * np.pi) + l + (x - m) ** 2 / np.exp(l)).sum(-1), 'loss of normal data', rtol=1e-5, atol=1e-5)
                ck.step()
            ck.close(L.get_seq_length(T(x)), lens, 'lengths of the sequences')
            ck.close(L.categorical_mbr(T(y), T(p)), 1 - (y * p).sum(-1), 'Bayes risk', rtol=1e-6)
            # classes of whole sequences
            ck.close(L.nllk_categorical(T(y[:, 0]), T(p[:, 0])), -(y * np.log(p)).sum(-1)[:, 0], 'loss of classes', rtol=1e-5, atol=1e-6)
            ck.state(('lo', N, n, tuple(lens)))


def k_objectives(ck, c):
    O = S['O']
    T = F.ten
    l2 = np.log(2 * np.pi)
    for N, D in itertools.product((1, 2, 3), (1, 2, 3)):
        x, m, l = data(N, D), data(N, D, k=1), data(N, D, k=2) / 2
        m2, l2_ = data(N, D, k=4), data(N, D, k=5) / 2
        ck.close(O.bernoulli(T((x > 0) * 1.), T(1 / (1 + np.exp(-m)))), -np.where(x > 0, -np.log(1 + np.exp(-m)), -np.log(1 + np.exp(m))).sum(-1), 'objective of binary data', rtol=1e-5, atol=1e-6)
        ck.close(O.diag_normal(T(x), [T(m), T(l)]), 0.5 * (l2 + l + (x - m) ** 2 / np.exp(l)).sum(-1), 'objective of normal data', rtol=1e-5)
        ch = np.stack([np.triu(data(D, D, k=i), 1) + np.eye(D) for i in range(N)])

        def nll(d, l, ch):
            cov = ch.T @ np.diag(np.exp(l)) @ ch
            return 0.5 * (D * l2 + np.log(np.linalg.det(cov)) + d @ np.linalg.inv(cov) @ d)
        ck.close(O.normal_1chol(T(x), [T(m), T(l), T(ch[0])]), [nll(x[i] - m[i], l[i], ch[0]) for i in range(N)], 'objective of normal data with one factor', rtol=1e-5, atol=1e-6)
        ck.close(O.normal(T(x), [T(m), T(l), T(ch)]), [nll(x[i] - m[i], l[i], ch[i]) for i in range(N)], 'objective of normal data with factors', rtol=1e-5, atol=1e-6)
        n = 2
        X, M, L = data(N, n, D), data(N, n, D, k=1), data(N, n, D, k=2) / 2
        CH = np.stack([np.stack([ch[(i + j) % N] for j in range(n)]) for i in range(N)])
        ck.close(O.normal_3d(T(X), [T(M), T(L), T(CH)]), [[nll(X[i, j] - M[i, j], L[i, j], CH[i, j]) for j in range(n)] for i in range(N)], 'objective of normal sequences', rtol=1e-5, atol=1e-6)
        ck.close(O.normal_1chol_3d(T(X), [T(M), T(L), T(ch[0])]), [[nll(X[i, j] - M[i, j], L[i, j], ch[0]) for j in range(n)] for i in range(N)], 'objective of normal sequences with one factor', rtol=1e-5, atol=1e-6)
        for beta in (1, 0.5, 2.):
            b = 1 / beta
            v, v2 = np.exp(l), np.exp(l2_)
            ck.close(O.kl_normal_vs_std_normal([T(m), T(l)], beta), 0.5 * ((1 - b) * l2 - b - b * l + m ** 2 + v).sum(-1), 'divergence to the standard normal', rtol=1e-5, atol=1e-6)
            ck.close(O.kl_normal_vs_diag_normal([T(m), T(l)], [T(m2), T(l2_)], beta), 0.5 * ((1 - b) * l2 - b - b * l + l2_ + ((m - m2) ** 2 + v) / v2).sum(-1), 'divergence to a diagonal normal', rtol=1e-5, atol=1e-6)
            ck.step()
        ck.state(('ob', N, D))


def k_constraints(ck, c):
    C = S['C']
    for D in (1, 2, 3, 4):
        p = data(D, D)
        for dv in (None, 0, 1, 2.5):
            t = C.Triu(D, dv)
            want = np.triu(p) if dv is None else np.triu(p, 1) + dv * np.eye(D)
            for q in (t, C.Triu(**t.get_config())):
                ck.close(q(F.ten(p)), want, 'triangle with diagonal %s' % dv)
                ck.close(q(q(F.ten(p))), want, 'triangle, twice')
                ck.step()
        for lo, hi in itertools.product((-np.inf, -1, 0.5), (np.inf, 1, 0.7)):
            t = C.Clip(lo, hi)
            for q in (t, C.Clip(**t.get_config())):
                ck.close(q(F.ten(p)), np.clip(p, lo, hi), 'limits')
            l = C.ConstraintList([C.Triu(D, 1), C.Clip(lo, hi)])
            ck.close(l(F.ten(p)), np.clip(np.triu(p, 1) + np.eye(D), lo, hi), 'constraints in turn')
            ck.step()
        ck.state(('co', D))


def k_saved(ck, c):
    """networks with every layer"""
    Y, x = S['Y'], data(2, 3, 2)
    w = np.array([[1., 1, 0], [1, 1, 1]])
    mk = dict(GlobalWeightedAveragePooling1D={}, GlobalWeightedSumPooling1D={}, GlobalWeightedMeanStdPooling1D={}, GlobalWeightedMeanLogVarPooling1D={}, GlobalMaskedMaxPooling1D={}, LDE1D=dict(num_comp=3, order=1))
    for n, kw in mk.items():
        _, m = net(getattr(Y, n)(**kw), x, w)
        saved(ck, m, [x, w], None, n)
    for n in ('GlobalSumPooling1D', 'GlobalSumWeights'):
        # the frames summed
        y = x if n == 'GlobalSumPooling1D' else x[:, :, :1]
        _, m = net(getattr(Y, n)(), y)
        saved(ck, m, y, None, n)
    for kw in (dict(), dict(keepdims=False), dict(mask_value=1.)):
        _, m = net(Y.CreateMask(**kw), x)
        saved(ck, m, x, None, 'CreateMask')
    p = np.abs(data(2, 3, 2, k=1)) + 0.1
    for fi, fo in zip(B.IN, B.OUT + B.OUT):
        _, m = net(Y.GlobalDiagNormalPostStdPriorPooling1D(in_fmt=fi, out_fmt=fo, min_var=0.3, frame_corr_penalty=0.4), x, p, w)
        saved(ck, m, [x, p, w], None, 'pooling of posteriors')
    for l in (Y.NormalDiagCovSampler(in_fmt='nat+var'), Y.TiedNormalDiagCovSampler(4, in_fmt='nat+logprec', one_per_seq=True), Y.DiagNormalSampler(var_spec='std'), Y.DiagNormalSamplerFromSeqLevel(4, var_spec='var', one_sample_per_seq=False)):
        a, b = data(2, 2), np.abs(data(2, 2, k=3)) + 0.1
        _, m = net(l, a, b)
        saved(ck, m, [a, b], None, type(l).__name__)
    a, b, ch = data(2, 2), data(2, 2, k=3), np.stack([np.eye(2), np.array([[1, 0.5], [0, 1]])])
    for l in (Y.NormalSampler(), Y.NormalSamplerFromSeqLevel(3, one_sample_per_seq=False)):
        i = [F.Input(shape=(2,)), F.Input(shape=(2,)), F.Input(shape=(2, 2))]
        m = F.Model(i, l(i))
        saved(ck, m, [a, b, ch], None, type(l).__name__)
    e, pt = data(3, 2), 1 + np.abs(data(3, 2, k=1))
    _, m = net(Y.CatQScoringDiagNormalHomoPostStdPrior(4), e, pt)
    saved(ck, m, [e, pt], None, 'scoring')
    # through the functions for architectures
    f = os.path.join(ck.dir(), 'a.json')
    i = F.Input(shape=(3, 2))
    k = Y.CreateMask(0)(i)
    m = F.Model(i, Y.GlobalWeightedAveragePooling1D()([F.Dense(2)(i), k]))
    S['U'].save_model_arch(f, m)
    q = S['U'].load_model_arch(f)
    q.set_weights(m.get_weights())
    ck.close(q.predict(x), m.predict(x), 'architecture in a file', rtol=1e-9)
    ck.state('saved')


def k_mask(ck, c):
    Y = S['Y']
    for mv_ in (0., 1.):
        for bits in itertools.product((0., 1., 2.), repeat=4):
            x = np.array(bits).reshape(1, 2, 2)
            want = (x != mv_).any(-1).astype(float)
            ck.close(net(Y.CreateMask(mv_), x)[0], want[..., None], 'mask')
            ck.close(net(Y.CreateMask(mv_, keepdims=False), x)[0], want, 'mask')
            ck.step()
            ck.state(('m', mv_, bits))


def k_scoring(ck, c):
    """ratios of the likelihoods that two posteriors belong together or not, by the integrals"""
    Y = S['Y']
    for N, K, D in itertools.product((1, 2, 3), (1, 2, 4), (1, 2, 3)):
        l = Y.CatQScoringDiagNormalHomoPostStdPrior(K)
        eta, L = data(N, D), 1 + np.abs(data(N, D, k=1))
        net(l, eta, L)
        l.set_weights([data(K, D, k=2), 1 + np.abs(data(D, k=3))])
        got, _ = net(l, eta, L)
        mu, Le = l.get_weights()
        half = lambda e, P: 0.5 * (e * e / P - np.log(P)).sum(-1)
        for i in range(N):
            for k in range(K):
                ee = Le * mu[k]
                ck.close(got[i, k], half(eta[i] + ee, L[i] + Le - 1) - half(eta[i], L[i]) - half(ee, Le), 'score of class %d' % k, rtol=1e-5, atol=1e-6)
        ck.step()
        ck.state(('sc', N, K, D))


def k_batches(ck, c):
    U = S['U']
    for n in range(1, 10):
        for b in range(1, 11):
            bs = U.make_batches(n, b)
            ck.eq([i for s, e in bs for i in range(s, e)], list(range(n)), 'samples of the batches')
            ck.check(all(e - s <= b for s, e in bs), 'size of the batches')
            x, y = data(n, 2), data(n, 3)
            for flag in ([], [0.]):
                f1 = lambda ins: ins[0].sum(1) + ins[1].sum(1) + (100 if len(ins) > 2 and ins[2] == 0. else 0)
                want = x.sum(1) + y.sum(1) + (100 if flag else 0)
                ck.close(U._eval_loop(f1, [x, y] + flag, batch_size=b), want, 'evaluation in batches of %d of %d samples' % (b, n))
                ck.close(U._eval_loop(lambda ins: [f1(ins)], [x, y] + flag, batch_size=b), want, 'evaluation in batches')
                r = U._eval_loop(lambda ins: [f1(ins), ins[0][:, 0]], [x, y] + flag, batch_size=b)
                ck.check(len(r) == 2, 'number of outputs')
                ck.close(r[0], want, 'first output')
                ck.close(r[1], x[:, 0], 'second output')
                ck.step()
            ck.state(('b', n, b))
    for N, T, D in itertools.product((1, 2, 3), (1, 2, 3), (1, 2)):
        a, p = data(N, T, D), data(N, T, D, k=1)
        fn = lambda u, v: F.ten(np.asarray(u) - np.asarray(v)) ** 2
        for w in (np.ones((N, T)), (np.arange(N * T).reshape(N, T) % 2) + 0.5, np.arange(1, N * T + 1.).reshape(N, T)):
            got = U.weighted_objective_per_sample(fn)(F.ten(a), F.ten(p), F.ten(w))
            s = ((a - p) ** 2).mean(-1)
            ck.close(got, (s * w).sum(1) / w.sum(1), 'weighted objective of every sequence', rtol=1e-6)
            ck.step()
