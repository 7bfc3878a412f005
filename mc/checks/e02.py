"""E02: tied variational autoencoders: training graph, objective, posteriors of sequences, samples, saved models."""
import argparse
import itertools
import os
import numpy as np
from mc import fakekeras as F
from mc.checks import e01 as B

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of utterance lengths, chunk lengths, contexts, downsampling factors, formats of the posteriors and distributions on the real variational autoencoders, over a stand-in for Keras on numpy with controlled noise, against the definitions and against the undivided utterance'
BOUND = {
    'quick': 'chunks of 1-5 frames after downsampling by 1 or 2, contexts of 0-2 frames, utterances of up to 12 frames (and rests), 3 kinds of edges, 2 models; 14 x 8 formats of the posterior, 3 distributions of the data, with and without classes; networks saved and loaded',
    'thorough': 'chunks of up to 8 frames, contexts of 0-3, utterances of up to 24 frames, downsampling by 3'}
ASSUMPTIONS = ['Keras is a stand-in on numpy with the semantics of its documentation (it is not installed)',
               'the noise of the samplers is a function of its shape chosen by the check', 'at least one frame is left after the edges']
CHUNK = 4
S = {}
DV, SV = 'TiedDVAE_QY', 'TiedSupVAE_QYQZgY'


def setup():
    if S:
        return
    B.setup()
    from hyperion.keras import vae, losses, keras_utils
    S.update(V=vae, L=losses, U=keras_utils)


def noise(shape, kind='normal'):
    n = int(np.prod(shape))
    u = (np.arange(n) * 0.7548776662 + 0.1 * len(shape) + 0.31) % 1.0
    return (u if kind == 'uniform' else 3 * u - 1.4).reshape(shape)


def nets(cls, L, R, r, T, p, pt=True, form='normal_diag_cov', D=1):
    """y of 2 dimensions, z of 3, data of D"""
    V = S['V']
    x = F.Input(shape=(T, D))
    qy = F.Model(x, [B.Ctx(L, R, r, name='a')(x), B.Ctx(L, R, r, 0.7, name='b')(x)])
    y = F.Input(shape=(2,))
    ptn = F.Model(y, F.Dense(3, activation='softmax', name='t')(y), name='pt') if pt else None
    if cls == DV:
        return V.TiedDVAE_QY(qy, ptn, **p)
    x2, ys = F.Input(shape=(T, D)), F.Input(shape=(T, 2))
    h = F.Concatenate()([x2, ys])
    qz = F.Model([x2, ys], [F.Dense(3, name='z1')(h), F.Dense(3, name='z2')(h)])
    ys, zs = F.Input(shape=(T, 2)), F.Input(shape=(T, 3))
    h = F.Concatenate()([ys, zs])
    if form == 'normal_diag_cov':
        o = [F.Dense(D, name='x1')(h), F.Dense(D, name='x2')(h)]
    else:
        o = F.Dense(D, activation='softmax' if form == 'categorical' else 'sigmoid', name='x1')(h)
    px = F.Model([ys, zs], o, name='px')
    return V.TiedSupVAE_QYQZgY(px, qy, qz, ptn, px_form=form, **p)


def fmts(cls, fi, fo, b=0.2, pen=1):
    p = dict(frame_corr_penalty=pen)
    if cls == DV:
        p.update(pooling_input=fi, pooling_output=fo, min_var=b)
    else:
        p.update(qy_pool_in_fmt=fi, qy_pool_out_fmt=fo, qy_min_var=b)
    return p


def cases(tier):
    q = tier == 'quick'
    C = (0, 1, 2) if q else (0, 1, 2, 3)
    for cls in (DV, SV):
        for r in ((1, 2) if q else (1, 2, 3)):
            for L in C:
                for R in C:
                    for T in range(L + R + 1, (6 if q else 9)):
                        for edge in ('default', 'none', 'more'):
                            yield dict(kind='chunks', cls=cls, r=r, L=L * r, R=R * r, S=T * r, edge=edge, T=12 if q else 24, dyn=(L + R + T) % 2)
        for fi in B.IN:
            yield dict(kind='graph', cls=cls, fi=fi, r=1)
        yield dict(kind='graph', cls=cls, fi='mean+logvar', r=2)
        yield dict(kind='files', cls=cls)
        yield dict(kind='args', cls=cls)
    for form in ('normal_diag_cov', 'categorical', 'bernoulli'):
        for pt in (False, True):
            yield dict(kind='objective', form=form, pt=pt)
        yield dict(kind='sample', form=form)
    yield dict(kind='objective_d')


def run_case(ck, c):
    setup()
    np.seterr(all='ignore')
    F.NOISE[0] = noise
    del F.CALLS[:]
    globals()['k_' + c['kind']](ck, c)
    ck.trace()


def to_mv(p1, p2, fmt):
    """mean and variance of a posterior in an output format"""
    a, b = fmt.split('+')
    v = {'logvar': np.exp(p2), 'var': p2, 'logprec': np.exp(-p2), 'prec': 1 / p2}[b]
    return (p1 if a == 'mean' else p1 * v), v


def kl(m, v):
    return 0.5 * (m ** 2 + v - np.log(v) - 1).sum(-1)


def undivided(c, x, b, e, p, fo=None):
    cls, L, R, r = c['cls'], c['L'], c['R'], c['r']
    P = len(x) // r
    w = np.zeros(P)
    w[b // r:max(P - e // r, 0)] = 1
    if not w.any():
        return None
    fi, fo2, mv = (p['pooling_input'], p['pooling_output'], p['min_var']) if cls == DV else (p['qy_pool_in_fmt'], p['qy_pool_out_fmt'], p['qy_min_var'])
    return B.post(B.frames(x, L, R, r), B.frames(x, L, R, r, 0.7), w, fi, fo or fo2, mv, p['frame_corr_penalty'])


def k_chunks(ck, c):
    cls, L, R, r, T0 = c['cls'], c['L'], c['R'], c['r'], c['S']
    p = fmts(cls, 'mean+logitvar', 'mean+var', 0.2, 0.5)
    p.update(left_context=L, right_context=R)
    b, e = L, R
    if c['edge'] == 'none':
        b, e = 0, 0
        p.update(begin_context=0, end_context=0)
    elif c['edge'] == 'more':
        b, e = L + r, R + 2 * r
        p.update(begin_context=b, end_context=e)
    m = nets(cls, L, R, r, None if c['dyn'] else T0, p)
    m.max_seq_length = T0 if c['dyn'] else None
    run = m.predict_embed if cls == DV else m.compute_qy
    for fo in (None, 'nat+logprec'):
        m.build_embed(fo) if cls == DV else m.build_qy(fo)
        for T in itertools.chain(range(1, c['T'] * r + 1), (T0 + 1, max(T0 - 1, 1), 2 * T0 + 1, T0)):
            x = B.utt(T, T)
            want = undivided(c, x, b, e, p, fo)
            if want is None:
                continue
            x0 = x.copy()
            got = run(x)
            ck.step()
            B.same_emb(ck, 'SeqQEmbed', got, want, '%s: posterior of an utterance of %d inputs in chunks of %d, contexts %d and %d, edges %d and %d, downsampling %d' % (cls, T, T0, L, R, b, e, r))
            ck.check(np.array_equal(x, x0), 'the features of the caller changed')
            ck.state(('c', cls, T, np.round(np.concatenate([B.vec(g) for g in got]), 6)))
    # the classes of the posterior
    m.build_eval() if cls == DV else m.build_pt()
    for T in (max(T0 - 1, 1), T0, 2 * T0 + 1, 3 * T0):
        x = B.utt(T, T + 1)
        want = undivided(c, x, b, e, p)
        if want is None:
            continue
        mu, v = to_mv(want[0], want[1], 'mean+var')
        y = mu + np.sqrt(v) * noise((1, 2))[0]
        got = m.predict_eval(x) if cls == DV else m.predict_pt(x)
        ck.close(B.vec(got), B.dense(y, m.pt_net.get_layer('t'), 'softmax'), '%s: posteriors of the classes of an utterance of %d inputs' % (cls, T), rtol=1e-5, atol=1e-6)
        ck.step()


def k_graph(ck, c):
    cls, r = c['cls'], c['r']
    T = 4 * r
    for fo in B.OUT:
        for pt in ((True,) if cls == DV else (True, False)):
            p = fmts(cls, c['fi'], fo, 0.2, 0.6)
            m = nets(cls, r, r, r, T if fo == 'mean+var' else None, p, pt)
            m.build(T) if fo != 'mean+var' else m.build()
            ck.eq((m.x_dim, m.in_length, m.pool_in_length, m.embed_dim, m.prepool_downsampling), (1, T, 4, 2, r), 'sizes')
            for n in range(1, T + 1):
                X = np.zeros((2, T, 1))
                X[0, :n] = B.utt(n, 1)
                X[1] = B.utt(T, 2)
                out = m.predict(X)
                nl = 2 if cls == DV else 3 + pt
                ck.check(len(out) == nl, lambda: '%d outputs' % len(out))
                ey = noise((2, 2))
                es, ez = noise((2, T, 2)), noise((2, T, 3))
                for i, k in enumerate((n, T)):
                    w = np.array([float(j * r < k) for j in range(4)])
                    y1, y2 = B.frames(X[i], r, r, r), B.frames(X[i], r, r, r, 0.7)
                    q = B.post(y1, y2, w, c['fi'], fo, 0.2, 0.6)
                    mu, v = to_mv(q[0], q[1], fo)
                    what = '%s, %s to %s: ' % (cls, c['fi'], fo)
                    if pt:
                        y = mu + np.sqrt(v) * ey[i]
                        ck.close(B.vec(out[0 if cls == DV else 1][i]), B.dense(y, m.pt_net.get_layer('t'), 'softmax'), what + 'posteriors of the classes', rtol=1e-5, atol=1e-7)
                    ck.close(B.vec(out[1 if cls == DV else -2][i]), [kl(mu, v)], what + 'divergence of y', rtol=1e-5, atol=1e-6)
                    ck.step()
                    if cls == DV:
                        continue
                    ys = mu + np.sqrt(v) * es[i]
                    h = np.concatenate((X[i], ys), -1)
                    g = lambda net, nm, h: B.dense(h, net.get_layer(nm))
                    zm, zl = g(m.qz_net, 'z1', h), g(m.qz_net, 'z2', h)
                    zv = 1 / B.to_prec(zl, 'logvar', 0.01)
                    z = zm + np.sqrt(zv) * ez[i]
                    h = np.concatenate((ys, z), -1)
                    ck.close(out[0][i], np.concatenate((g(m.px_net, 'x1', h), g(m.px_net, 'x2', h)), -1), what + 'distribution of the data', rtol=1e-5, atol=1e-6)
                    L = (zm != 0).any(-1).sum()
                    ck.close(out[-1][i], L * kl(zm, zv)[:, None], what + 'divergence of z', rtol=1e-5, atol=1e-6)
                ck.state(('g', cls, c['fi'], fo, n, np.round(B.vec(out[0]), 6)))
    if cls == SV:
        # formats of q(z)
        for zf in B.IN:
            p = fmts(cls, c['fi'], 'mean+var', 0.2, 0.6)
            m = nets(cls, r, r, r, T, dict(p, qz_fmt=zf, qz_min_var=0.3))
            m.qz_net.get_layer('z2').set_weights([np.full((3, 3), 0.1), np.array([0.5, 0.9, 2.0])])
            m.build()
            X = np.stack((B.utt(T, 1), B.utt(T, 2)))
            out = m.predict(X)
            for i in range(2):
                q = B.post(B.frames(X[i], r, r, r), B.frames(X[i], r, r, r, 0.7), np.ones(4), c['fi'], 'mean+var', 0.2, 0.6)
                ys = q[0] + np.sqrt(q[1]) * noise((2, T, 2))[i]
                h = np.concatenate((X[i], ys), -1)
                z1, z2 = B.dense(h, m.qz_net.get_layer('z1')), B.dense(h, m.qz_net.get_layer('z2'))
                v = 1 / B.to_prec(z2, zf.split('+')[1], 0.3)
                mu = z1 if zf[:4] == 'mean' else z1 * v
                ck.close(out[-1][i], T * kl(mu, v)[:, None], 'divergence of z in the format %s' % zf, rtol=1e-5, atol=1e-6)
                h = np.concatenate((ys, mu + np.sqrt(v) * noise((2, T, 3))[i]), -1)
                ck.close(out[0][i], np.concatenate((B.dense(h, m.px_net.get_layer('x1')), B.dense(h, m.px_net.get_layer('x2'))), -1), 'distribution of the data with z in the format %s' % zf, rtol=1e-5, atol=1e-6)
                ck.step()


def terms(form, x, o):
    """-log P of every frame"""
    if form == 'normal_diag_cov':
        D = x.shape[-1]
        m, l = o[..., :D], o[..., D:]
        return 0.5 * (np.log(2 * np.pi) + l + (x - m) ** 2 / np.exp(l)).sum(-1)
    if form == 'categorical':
        return -(x * np.log(np.clip(o / o.sum(-1, keepdims=True), 1e-7, 1 - 1e-7))).sum(-1)
    return -(x * np.log(o) + (1 - x) * np.log(1 - o)).sum(-1)


def k_objective(ck, c):
    """losses and their weights, in the order of the outputs; targets of fit"""
    form, pt = c['form'], c['pt']
    T, D = 4, 1 if form == 'normal_diag_cov' else 3
    for wts in ((1, 1, 1, 1), (0.5, 2, 3, 7)):
        for tform in ('categorical', 'bernoulli'):
            p = dict(zip(('px_weight', 'pt_weight', 'kl_qy_weight', 'kl_qz_weight'), wts))
            m = nets(SV, 1, 1, 1, T, dict(p, pt_form=tform), pt, form, D)
            m.build()
            m.compile(optimizer='sgd')
            k = m.model.compiled
            ck.check(len(k['loss']) == 3 + pt, lambda: '%d losses' % len(k['loss']))
            ck.eq(list(k['loss_weights']), [w for w, on in zip(wts, (1, pt, 1, 1)) if on], 'weights of the losses')
            for n in itertools.product(range(1, T + 1), repeat=2):
                X = np.zeros((2, T, D))
                for i in range(2):
                    v = B.utt(n[i] * D, i + 1).reshape(n[i], D)
                    X[i, :n[i]] = v if form == 'normal_diag_cov' else np.eye(D)[np.argmax(v, 1)] if form == 'categorical' else (v > 0.2) | (np.arange(D) == 0)
                out = m.predict(X)
                px = out[0]
                ck.close(k['loss'][0](F.ten(X), F.ten(px)), np.array(n, float)[:, None] * terms(form, X, px), 'loss of the data (%s), frames %s of %d' % (form, n, T), rtol=1e-5, atol=1e-5)
                if pt:
                    t = np.eye(3)[[i + 1 for i in range(2)]]
                    ck.close(k['loss'][1](F.ten(t), F.ten(out[1])), terms(tform, t, out[1]), 'loss of the classes', rtol=1e-5, atol=1e-5)
                for j in (-2, -1):
                    ck.close(k['loss'][j](F.ten(np.zeros_like(out[j])), F.ten(out[j])), out[j], 'loss of the divergence', rtol=1e-9)
                ck.step()
                ck.state(('o', form, pt, wts, n, np.round(B.vec(px), 5)))
            t = np.eye(3)[[1, 2]] if pt else None
            for val in (False, True):
                m.fit(X, t, *((X[:1], None if t is None else t[:1]) if val else ()), batch_size=2)
                f = m.model.fitted
                ck.check(len(f['y']) == 3 + pt and all(np.ndim(a) == np.ndim(b) and all(u == v for u, v in zip(np.shape(a), np.shape(b))) for a, b in zip([f['y'][0][..., 0]] + list(f['y'][1:]), [out[0][..., 0]] + out[1:])), lambda: 'targets of fit: %s for outputs %s' % ([np.shape(a) for a in f['y']], [np.shape(a) for a in out]))
                ck.check(f['y'][0] is X and (not pt or f['y'][1] is t), 'targets of fit are not the data and the classes')
                ck.check((f['validation_data'] is not None) == val, 'validation data of fit')
                ck.step()
            m.fit_generator('gen', 7, epochs=2)
            ck.check(m.model.fitted['generator'] == 'gen' and m.model.fitted['steps_per_epoch'] == 7 and m.model.fitted['epochs'] == 2, 'arguments of fit_generator')


def k_objective_d(ck, c):
    for loss in ('categorical_crossentropy', 'mean_squared_error'):
        for w in (0, 0.5, 3):
            m = nets(DV, 1, 1, 1, 4, dict(loss=loss, kl_weight=w))
            m.build()
            m.compile(optimizer='sgd')
            k = m.model.compiled
            ck.check(k['loss'][0] == loss and len(k['loss']) == 2, 'loss of the classes')
            ck.eq(list(k['loss_weights']), [1, w], 'weights of the losses')
            v = F.ten([[0.3], [2.]])
            ck.close(k['loss'][1](F.ten([[0.], [0.]]), v), v, 'loss of the divergence')
            X = np.stack((B.utt(4, 1), B.utt(4, 2)))
            m.fit(x=X, y=[np.eye(3)[:2], np.zeros((2, 1))])
            ck.check(m.model.fitted['x'] is X, 'data of fit')
            m.fit_generator('gen', 7, epochs=2)
            ck.check(m.model.fitted['generator'] == 'gen' and m.model.fitted['steps_per_epoch'] == 7 and m.model.fitted['epochs'] == 2, 'arguments of fit_generator')
            ck.step()
            ck.state(('od', loss, w))


def k_sample(ck, c):
    form = c['form']
    if form == 'categorical':
        # announced as not available
        m = nets(SV, 1, 1, 1, 4, {}, True, form, 3)
        m.build()
        try:
            m.sample(2, 4, 2)
        except ValueError:
            ck.state('refused')
            ck.step()
            return
        ck.fail('samples of categorical data')
    D = 2
    for T in (1, 3, 4):
        for N in (1, 2, 3):
            m = nets(SV, 1, 1, 1, T, {}, True, form, D)
            m.build()
            y, z = noise((N, 2)), noise((N, T, 3))

            def want(y, z):
                h = np.concatenate((np.repeat(y[:, None], T, 1), z), -1)
                a = B.dense(h, m.px_net.get_layer('x1'))
                if form == 'bernoulli':
                    return noise(a.shape, 'uniform') < 1 / (1 + np.exp(-a))
                l = B.dense(h, m.px_net.get_layer('x2'))
                return a + np.exp(l / 2) * noise(a.shape)
            for yy in (y, y[:, None], np.repeat(y[:, None], T, 1)):
                ck.close(np.asarray(m.sample_given_yz(yy, z, N), float), np.asarray(want(y, z), float), 'samples given y and z', rtol=1e-6, atol=1e-9)
                h = m.compute_px_given_yz(np.repeat(y[:, None], T, 1), z, N)
                if form == 'normal_diag_cov':
                    ck.close(h[0], B.dense(np.concatenate((np.repeat(y[:, None], T, 1), z), -1), m.px_net.get_layer('x1')), 'distribution given y and z', rtol=1e-6, atol=1e-9)
                ck.step()
            old = np.random.normal
            asked = []

            def rn(loc=0., scale=1., size=None):
                asked.append(tuple(size))
                return loc + scale * noise(tuple(size))
            np.random.normal = rn
            try:
                for got, yy in ((m.sample(N, T, N), noise((N, 1, 2))[:, 0]), (m.sample_given_y(y, T, N), y)):
                    ck.close(np.asarray(got, float), np.asarray(want(yy, z), float), 'samples', rtol=1e-6, atol=1e-9)
                    ck.step()
            finally:
                np.random.normal = old
            ck.check(sorted(asked) == sorted([(N, 1, 2), (N, T, 3), (N, T, 3)]), lambda: 'noise of the shapes %s' % asked)
            ck.state(('s', form, T, N))


def k_files(ck, c):
    cls = c['cls']
    C = getattr(S['V'], cls)
    d = ck.dir()
    for name in (None, 'net'):
        for pt in ((True,) if cls == DV else (True, False)):
            for i, (b, e) in enumerate(((None, None), (0, 0), (4, 2))):
                p = fmts(cls, B.IN[i + 1], B.OUT[i + 2], 0.3, 0.4)
                p.update(left_context=1, right_context=2, begin_context=b, end_context=e)
                p.update(dict(kl_weight=2, loss='mean_squared_error') if cls == DV else dict(px_weight=2, pt_weight=3, kl_qy_weight=4, kl_qz_weight=5, qz_fmt='nat+logprec', qz_min_var=0.4, pt_form='bernoulli'))
                if name:
                    p['name'] = name
                m = nets(cls, 1, 2, 1, 6, p, pt)
                m.build()
                for n in [x for x in (m.qy_net, m.pt_net, getattr(m, 'qz_net', None), getattr(m, 'px_net', None)) if x is not None]:
                    n.set_weights([w * 0.5 + 0.3 + 0.1 * j for j, w in enumerate(n.get_weights())])
                # another directory: without classes no file of classes may be found
                f = os.path.join(d, 'm%s%s' % (pt, i))
                m.save(f)
                for how in (C.load, B._S['L'].load):
                    k = how(f)
                    ck.check(type(k) is C, lambda: 'loaded as %s' % type(k))
                    ck.eq(k.get_config(), m.get_config(), 'configuration of a loaded model')
                    k.build()
                    k.compile(optimizer='sgd')
                    m.compile(optimizer='sgd')
                    ck.eq(list(k.model.compiled['loss_weights']), list(m.model.compiled['loss_weights']), 'weights of the losses of a loaded model')
                    X = np.stack((B.utt(6, 1), B.utt(6, 2)))
                    for u, v in zip(m.predict(X), k.predict(X)):
                        ck.close(u, v, 'output of a loaded model', rtol=1e-9)
                    x = B.utt(11, 6)
                    r = []
                    for q in (m, k):
                        q.build_embed() if cls == DV else q.build_qy()
                        r.append(q.predict_embed(x) if cls == DV else q.compute_qy(x))
                    for u, v in zip(*r):
                        ck.close(B.vec(u), B.vec(v), 'posterior of a loaded model', rtol=1e-9)
                    ck.step()
                    ck.state(('f', cls, name, b, pt))


def k_args(ck, c):
    cls = c['cls']
    C = getattr(S['V'], cls)
    for prefix in (None, 'net'):
        ap = argparse.ArgumentParser(allow_abbrev=False)
        C.add_argparse_args(ap, prefix=prefix)
        h = '--' + (prefix + '-' if prefix else '')
        opts = [(['left-context', '2'], dict(left_context=2)), (['right-context', '4'], dict(right_context=4)), (['begin-context', '0'], dict(begin_context=0)), (['end-context', '6'], dict(end_context=6)), (['frame-corr-penalty', '0.5'], dict(frame_corr_penalty=0.5))]
        n1, n2 = ('pooling', 'pooling') if cls == DV else ('qy-pool-in-fmt', 'qy-pool-out-fmt')
        a, b = ('pooling-input', 'pooling-output') if cls == DV else ('qy-pool-in-fmt', 'qy-pool-out-fmt')
        opts += [([a, f], {a.replace('-', '_'): f}) for f in B.IN] + [([b, f], {b.replace('-', '_'): f}) for f in B.OUT]
        if cls == DV:
            opts += [(['min-var', '0.3'], dict(min_var=0.3)), (['kl-weight', '2'], dict(kl_weight=2.)), (['post-pdf', 'diag_normal'], dict(post_pdf='diag_normal'))]
        else:
            opts += [(['qz-fmt', f], dict(qz_fmt=f)) for f in B.IN]
            opts += [(['px-form', f], dict(px_form=f)) for f in ('normal_diag_cov', 'categorical', 'bernoulli')] + [(['pt-form', f], dict(pt_form=f)) for f in ('categorical', 'bernoulli')]
            opts += [([w.replace('_', '-'), '2.5'], {w: 2.5}) for w in ('px_weight', 'pt_weight', 'kl_qy_weight', 'kl_qz_weight', 'qy_min_var', 'qz_min_var')]
        for n in (0, 1, 2):
            for s in itertools.combinations(opts, n):
                if len({o[0][0] for o in s}) < n:
                    continue
                av, want = [], {}
                for o, v in s:
                    av += [h + o[0], o[1]]
                    want.update(v)
                try:
                    a2 = vars(ap.parse_args(av))
                except SystemExit:
                    ck.fail('%s: the options %s are rejected' % (cls, av))
                kw = C.filter_args(prefix=prefix, **a2)
                full = dict(kw)
                for k, v in want.items():
                    ck.check(full.get(k) == v, lambda: '%s: options %s give %s=%s' % (cls, av, k, full.get(k)))
                m = C(None, None, **kw) if cls == DV else C(None, None, None, None, **kw)
                for k, v in want.items():
                    ck.check(getattr(m, k) == v, lambda: '%s: options %s give a model with %s=%s' % (cls, av, k, getattr(m, k)))
                ck.eq(m.begin_context, want.get('begin_context', want.get('left_context', 0)), 'context at the beginning')
                ck.eq(m.end_context, want.get('end_context', want.get('right_context', 0)), 'context at the end')
                ck.step()
        ck.state(('a', cls, prefix))
