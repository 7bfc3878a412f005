"""E01: embeddings of sequences: chunks, contexts, padding, saved models."""
import argparse
import itertools
import math
import os
import numpy as np
from mc import fakekeras as F

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of utterance lengths, chunk lengths, contexts, downsampling factors and poolings on the real embedding extractors, over a stand-in for Keras on numpy, against the embedding of the undivided utterance'
BOUND = {
    'quick': 'chunks of 1-6 frames after downsampling by 1 or 2, left and right contexts of 0-2 frames, all utterance lengths of up to 14 frames (and rests), 3 kinds of edges, 3 extractors, 4 poolings; 14 x 8 formats of posteriors; networks saved and loaded',
    'thorough': 'chunks of up to 8 frames, contexts of 0-3, utterances of up to 24 frames, downsampling by 3'}
ASSUMPTIONS = ['Keras is a stand-in on numpy with the semantics of its documentation (it is not installed)',
               'the encoder keeps the length (padding with zeros) except for an integer downsampling factor that divides chunks and contexts', 'at least one frame is left after the edges']
CHUNK = 4

_S = {}


def setup():
    if _S:
        return
    F.install('tensorflow')
    from hyperion.keras import embed, keras_utils
    from hyperion.keras.keras_model_loader import KerasModelLoader
    _S.update(E=embed, U=keras_utils, L=KerasModelLoader)
    F.BUILTIN['Ctx'] = Ctx


class Ctx(F.Layer):
    """frames of 2 values that depend on L inputs at the left and R at the right, one frame for every r inputs"""

    def __init__(self, L, R, r, g=1.0, **kw):
        F.Layer.__init__(self, **kw)
        self.L, self.R, self.r, self.g = L, R, r, g

    def call(self, x, mask=None):
        return F.ten(np.stack([frames(np.asarray(v), self.L, self.R, self.r, self.g) for v in x]))

    def compute_output_shape(self, s):
        return (s[0], None if s[1] is None else s[1] // self.r, 2)

    def get_config(self):
        return dict(F.Layer.get_config(self), L=self.L, R=self.R, r=self.r, g=self.g)


def frames(x, L, R, r, g=1.0):
    T = len(x)
    P = T // r
    y = np.zeros((P, 2))
    pad = np.concatenate((np.zeros(L), x[:, 0], np.zeros(R + r)))
    c = [math.sqrt(2 + j) * (1 if j % 2 else -1) for j in range(L + R + r)]
    for p in range(P):
        w = pad[p * r:p * r + L + R + r]
        v = g * sum(a * b for a, b in zip(c, w)) * 0.2
        y[p] = v, math.tanh(v) + 0.3 * v
    return y


def utt(n, k=0):
    return np.array([[0.25 + ((i * 0.61803 + k * 0.37) % 1.0) * (1 if (i + k) % 3 else -1)] for i in range(n)])


def nets(cls, L, R, r, S, p, **kw):
    """the extractor with its networks: p for the parameters of the extractor"""
    E = _S['E']
    x = F.Input(shape=(S, 1))
    if cls == 'SeqQEmbed':
        enc = F.Model(x, [Ctx(L, R, r, name='a')(x), Ctx(L, R, r, 0.7, name='b')(x)])
        return E.SeqQEmbed(enc, 3, **p)
    enc = F.Model(x, Ctx(L, R, r, name='a')(x))
    d = 2 * {'mean': 1, 'lde': 2}.get(p.get('pooling'), 2)
    z = F.Input(shape=(d,))
    h = F.Dense(3, activation='tanh', name='e1')(z)
    h = F.Dense(2, name='e2')(h)
    h = F.Dense(4, activation='softmax', name='out')(h)
    pt = F.Model(z, h)
    return getattr(E, cls)(enc, pt, **p)


def mean_std(y, w, how):
    W = w.sum()
    m = (y * w[:, None]).sum(0) / W
    v = ((y - m) ** 2 * w[:, None]).sum(0) / W
    if how == 'mean':
        return m
    return np.concatenate((m, np.sqrt(v) if how == 'mean+std' else np.log(v + 1e-10)))


def lde(y, w, mu, s, order):
    out = []
    d = np.array([[-s[k] * (np.abs(f - mu[k]).sum() if order == 1 else ((f - mu[k]) ** 2).sum()) for k in range(len(mu))] for f in y])
    d = np.exp(d - d.max(1, keepdims=True))
    d = d / d.sum(1, keepdims=True) * w[:, None]
    for k in range(len(mu)):
        out.append((y * d[:, k:k + 1]).sum(0) / d[:, k].sum() - mu[k])
    return np.concatenate(out)


def to_prec(p, fmt, b):
    if fmt in ('logitvar', 'logprec-1'):
        z = np.clip(p, -7, 7)
        e = np.exp(-z if fmt == 'logitvar' else z)
        return (1 + e) / (1 + b * e)
    q = {'logvar': lambda: np.exp(-p), 'logprec': lambda: np.exp(p), 'var': lambda: 1 / p, 'prec': lambda: p, 'prec-1': lambda: p + 1}[fmt]()
    return np.clip(q, 1, 1 / b)


def post(p1, p2, w, fi, fo, b, pen):
    a, c = fi.split('+', 1)
    prec = to_prec(p2, c, b)
    eta = p1 * prec if a == 'mean' else p1
    eta = pen * (eta * w[:, None]).sum(0)
    P = np.clip(1 + pen * ((prec - 1) * w[:, None]).sum(0), 1, 1e5)
    a, c = fo.split('+', 1)
    return (eta / P if a == 'mean' else eta), {'logvar': -np.log(P), 'var': 1 / P, 'logprec': np.log(P), 'prec': P}[c]


def dense(v, layer, act=None):
    k, b = layer.get_weights()
    z = v @ k + b
    if act == 'tanh':
        return np.tanh(z)
    if act == 'softmax':
        e = np.exp(z - z.max())
        return e / e.sum()
    return z


CLS = ('SeqEmbed', 'SeqEmbedLDE', 'SeqQEmbed')
IN = [a + '+' + b for a in ('nat', 'mean') for b in ('logitvar', 'logprec-1', 'logvar', 'logprec', 'var', 'prec', 'prec-1')]
OUT = [a + '+' + b for a in ('nat', 'mean') for b in ('logvar', 'logprec', 'var', 'prec')]


def cases(tier):
    q = tier == 'quick'
    C = (0, 1, 2) if q else (0, 1, 2, 3)
    for cls in CLS:
        for r in ((1, 2) if q else (1, 2, 3)):
            for L in C:
                for R in C:
                    for S in range(L + R + 1, (7 if q else 9)):
                        for edge in ('default', 'none', 'more'):
                            yield dict(kind='chunks', cls=cls, r=r, L=L * r, R=R * r, S=S * r, edge=edge, T=14 if q else 24, dyn=(L + R + S) % 2)
    for cls in CLS:
        for r in (1, 2):
            for pool in (('mean+std', 'mean+logvar', 'mean') + (('lde',) if cls == 'SeqEmbedLDE' else ()) if cls != 'SeqQEmbed' else ('q',)):
                yield dict(kind='graph', cls=cls, r=r, pool=pool)
                yield dict(kind='files', cls=cls, r=r, pool=pool)
    for fi in IN:
        yield dict(kind='posts', fi=fi)
    for cls in CLS:
        yield dict(kind='args', cls=cls)
    yield dict(kind='loader')
    yield dict(kind='meta')


def run_case(ck, c):
    setup()
    np.seterr(all='ignore')
    globals()['k_' + c['kind']](ck, c)
    ck.trace()


def expect(m, cls, y, w, layers, p):
    """embedding of frames y with weights w"""
    if cls == 'SeqQEmbed':
        return post(y[0], y[1], w, p.get('pooling_input', 'mean+logvar'), p.get('pooling_output', 'nat+prec'), p.get('min_var', 0.1), p.get('frame_corr_penalty', 1))
    if p.get('pooling', 'mean+std') == 'lde':
        mu, s = m.lde_net.get_weights()
        v = lde(y, w, mu, s, p.get('lde_order', 2))
    else:
        v = mean_std(y, w, p.get('pooling', 'mean+std'))
    h1 = dense(v, m.pt_net.get_layer('e1'), 'tanh')
    h2 = dense(h1, m.pt_net.get_layer('e2'))
    o = {'e1': h1, 'e2': h2, 'out': dense(h2, m.pt_net.get_layer('out'), 'softmax')}
    return np.concatenate([o[l] for l in layers])


def vec(e):
    return np.asarray(e).reshape(-1)


def same_emb(ck, cls, got, want, what):
    if cls == 'SeqQEmbed':
        ck.check(len(got) == 2, lambda: '%s: %d outputs' % (what, len(got)))
        for g, w, n in zip(got, want, ('first', 'second')):
            ck.close(vec(g), w, '%s: %s parameter' % (what, n), rtol=2e-5, atol=1e-6)
    else:
        ck.close(vec(got), want, what, rtol=2e-5, atol=1e-6)


def k_chunks(ck, c):
    cls, L, R, r, S = c['cls'], c['L'], c['R'], c['r'], c['S']
    p = dict(left_context=L, right_context=R)
    b, e = L, R
    if c['edge'] == 'none':
        b, e = 0, 0
        p.update(begin_context=0, end_context=0)
    elif c['edge'] == 'more':
        b, e = L + r, R + 2 * r
        p.update(begin_context=b, end_context=e)
    if cls == 'SeqEmbed':
        p['pooling'] = 'mean+logvar' if (L + R) % 2 else 'mean+std'
    elif cls == 'SeqEmbedLDE':
        p.update(pooling='lde', num_comp=2, lde_order=1 + (L + R) // r % 2)
    else:
        p.update(pooling_input='nat+logitvar', pooling_output='mean+var', frame_corr_penalty=0.5, min_var=0.2)
    m = nets(cls, L, R, r, None if c['dyn'] else S, p)
    m.build(S if c['dyn'] else None)
    layers = ['e1', 'out']
    m.build_embed() if cls == 'SeqQEmbed' else m.build_embed(layers)
    for T in range(1, c['T'] * r + 1):
        P = T // r
        w = np.zeros(P)
        w[b // r:max(P - e // r, 0)] = 1
        if not w.any():
            continue
        x = utt(T, T)
        y = (frames(x, L, R, r), frames(x, L, R, r, 0.7)) if cls == 'SeqQEmbed' else frames(x, L, R, r)
        want = expect(m, cls, y, w, layers, p)
        x0 = x.copy()
        got = m.predict_embed(x)
        ck.step()
        same_emb(ck, cls, got, want, '%s: utterance of %d inputs in chunks of %d, contexts %d and %d, edges %d and %d, downsampling %d' % (cls, T, S, L, R, b, e, r))
        ck.check(np.array_equal(x, x0), 'the features of the caller changed')
        ck.state(('c', cls, T, np.round(np.concatenate([vec(g) for g in got] if cls == 'SeqQEmbed' else [vec(got)]), 6)))
    # again, after longer ones: nothing is left of other utterances
    for T in (S + 1, max(S - 1, 1), 2 * S + 1, S):
        P = T // r
        w = np.zeros(P)
        w[b // r:max(P - e // r, 0)] = 1
        if not w.any():
            continue
        x = utt(T, 3)
        y = (frames(x, L, R, r), frames(x, L, R, r, 0.7)) if cls == 'SeqQEmbed' else frames(x, L, R, r)
        same_emb(ck, cls, m.predict_embed(x), expect(m, cls, y, w, layers, p), '%s: utterance of %d inputs after others' % (cls, T))
        ck.step()


def parm(cls, pool):
    if cls == 'SeqQEmbed':
        return dict(pooling_input='mean+logitvar', pooling_output='nat+prec', frame_corr_penalty=0.3, min_var=0.2, kl_weight=0.5)
    p = dict(pooling=pool)
    if pool == 'lde':
        p.update(num_comp=2, lde_order=1)
    return p


def build(cls, r, pool, L=1, R=1, S=6):
    p = parm(cls, pool)
    p.update(left_context=L * r, right_context=R * r)
    m = nets(cls, L * r, R * r, r, S * r, p)
    m.build()
    return m, p


def score(m, pr, pi):
    """log posterior ratios of CatQScoringDiagNormalHomoPostStdPrior before the softmax, from the definition"""
    mu, L = m.score_net.get_layer('scoring').get_weights()
    eta, Lt = pr
    out = []
    for k in range(len(mu)):
        ee, Le = L * mu[k], L
        Let = Lt + Le - 1
        out.append(0.5 * np.sum(-np.log(Let) + (eta + ee) ** 2 / Let + np.log(Le) - ee ** 2 / Le + np.log(Lt) - eta ** 2 / Lt))
    return np.array(out)


def k_graph(ck, c):
    """the network for training, on sequences padded with zeros, agrees with the extractor's pooling"""
    cls, r = c['cls'], c['r']
    m, p = build(cls, r, c['pool'])
    S = 6 * r
    if cls == 'SeqQEmbed':
        ck.eq(m.num_classes, 3, 'number of classes')
    else:
        ck.eq((m.num_classes, m.pool_in_dim, m.x_dim), (4, 2, 1), 'sizes')
        ck.eq(m.embed_dim, None, 'dimension before the extractor is built')
    ck.eq((m.in_length, m.pool_in_length), (S, 6), 'lengths')
    for T in range(1, S + 1):
        X = np.zeros((2, S, 1))
        X[0, :T] = utt(T, 1)
        X[1] = utt(S, 2)
        out = m.model.predict(X)
        for i, n in enumerate((T, S)):
            w = np.array([float(k * r < n) for k in range(6)])
            y = frames(X[i], r, r, r)
            if cls == 'SeqQEmbed':
                pr = expect(m, cls, (y, frames(X[i], r, r, r, 0.7)), w, None, p)
                z = score(m, pr, p)
                e = np.exp(z - z.max())
                ck.close(out[0][i], e / e.sum(), 'class posteriors', rtol=1e-5, atol=1e-7)
                eta, P = pr
                kl = 0.5 * np.sum(np.log(P) - 1 + 1 / P + (eta / P) ** 2)
                ck.close(np.ravel(out[1][i]), [kl], 'divergence to the prior', rtol=1e-5, atol=1e-6)
            else:
                ck.close(out[i], expect(m, cls, y, w, ['out'], p), '%s: output for a sequence of %d of %d inputs' % (cls, n, S), rtol=1e-5, atol=1e-7)
            ck.step()
            ck.state(('g', cls, T, i, np.round(np.ravel(out[0]), 6)))
    # the extractor
    m.build_eval()
    for T in range(3 * r, 2 * S + 2):
        x = utt(T, 4)
        P = T // r
        w = np.zeros(P)
        w[1:P - 1] = 1
        y = frames(x, r, r, r)
        got = m.predict_eval(x)
        if cls == 'SeqQEmbed':
            z = score(m, expect(m, cls, (y, frames(x, r, r, r, 0.7)), w, None, p), p)
            ck.close(np.ravel(got), z, 'scores of the classes of an utterance of %d inputs' % T, rtol=1e-5, atol=1e-5)
        else:
            ck.close(np.ravel(got), np.log(expect(m, cls, y, w, ['out'], p) + 1e-10), 'log posteriors of the classes of an utterance of %d inputs' % T, rtol=1e-5, atol=1e-6)
        ck.step()
    if cls != 'SeqQEmbed':
        dims = {'e1': 3, 'e2': 2, 'out': 4}
        for n in (1, 2, 3):
            for layers in itertools.permutations(('e1', 'e2', 'out'), n):
                m.build_embed(list(layers))
                ck.eq(m.embed_dim, sum(dims[l] for l in layers), 'dimension of the embedding of layers %s' % (layers,))
                x = utt(9 * r, 5)
                w = np.array([0.] + [1.] * 7 + [0.])
                got = vec(m.predict_embed(x))
                ck.close(got, expect(m, cls, frames(x, r, r, r), w, list(layers), p), 'embedding of layers %s' % (layers,), rtol=2e-5, atol=1e-6)
                ck.step()
    else:
        for fo in OUT:
            m.build_embed(fo)
            x = utt(9 * r, 5)
            w = np.array([0.] + [1.] * 7 + [0.])
            same_emb(ck, cls, m.predict_embed(x), expect(m, cls, (frames(x, r, r, r), frames(x, r, r, r, 0.7)), w, None, dict(p, pooling_output=fo)), 'posterior in the format %s' % fo)
            ck.step()


def k_files(ck, c):
    cls, r = c['cls'], c['r']
    d = ck.dir()
    E = getattr(_S['E'], cls)
    for name in (None, 'net'):
        for b, e in ((None, None), (0, 0), (2 * r, r)):
            p = parm(cls, c['pool'])
            p.update(left_context=r, right_context=2 * r, begin_context=b, end_context=e)
            if name:
                p['name'] = name
            m = nets(cls, r, 2 * r, r, 6 * r, p)
            m.build()
            if cls != 'SeqQEmbed':
                m.compile(optimizer='sgd')
            # weights that no initializer gives
            nn = [m.score_net, m.prepool_net] if cls == 'SeqQEmbed' else [m.pt_net, m.enc_net] + ([m.lde_net] if c['pool'] == 'lde' else [])
            for n in nn:
                n.set_weights([w * 0.5 + 0.3 + 0.1 * i for i, w in enumerate(n.get_weights())])
            f = os.path.join(d, 'm')
            m.save(f)
            for how in (E.load, _S['L'].load):
                k = how(f)
                ck.check(type(k) is E, lambda: 'loaded as %s' % type(k))
                ck.eq(k.get_config(), m.get_config(), 'configuration of a loaded model')
                k.build()
                X = np.stack((utt(6 * r, 1), utt(6 * r, 2)))
                A, B = m.model.predict(X), k.model.predict(X)
                for u, v in zip(A if isinstance(A, list) else [A], B if isinstance(B, list) else [B]):
                    ck.close(u, v, 'output of a loaded model', rtol=1e-9)
                for q in (m, k):
                    q.build_embed() if cls == 'SeqQEmbed' else q.build_embed(['e2'])
                x = utt(11 * r, 6)
                for u, v in zip(m.predict_embed(x), k.predict_embed(x)):
                    ck.close(vec(u), vec(v), 'embedding of a loaded model', rtol=1e-9)
                ck.step()
                ck.state(('f', cls, name, b, c['pool'], r))


def k_posts(ck, c):
    """every pair of formats that the command line offers"""
    U = _S['U']
    y1 = np.array([[0.5, -1.5], [2.0, 0.25], [-3.0, 1.0]])
    for fo in OUT:
        for b in (0.001, 0.2, 0.9):
            for pen in (1, 0.25):
                for ws in itertools.product((0.0, 0.5, 1.0), repeat=3):
                    w = np.array(ws)
                    y2 = np.array([[0.3, 2.5], [1.5, 0.1], [9.0, 0.7]])
                    if 'log' in c['fi']:
                        y2 = y2 - 1
                        y2[1, 1] = -8.5
                    l = U.GlobalDiagNormalPostStdPriorPooling1D(in_fmt=c['fi'], out_fmt=fo, min_var=b, frame_corr_penalty=pen)
                    want = post(y1, y2, w, c['fi'], fo, b, pen)
                    for ww in (w[None], w[None, :, None]):
                        got = l([y1[None], y2[None], ww])
                        for g, v, n in zip(got, want, ('first', 'second')):
                            ck.close(np.asarray(g)[0], v, '%s to %s: %s parameter' % (c['fi'], fo, n), rtol=1e-6, atol=1e-9)
                        ck.step()
        ck.state(('p', c['fi'], fo))


def k_args(ck, c):
    E = getattr(_S['E'], c['cls'])
    for prefix in (None, 'net'):
        ap = argparse.ArgumentParser(allow_abbrev=False)
        E.add_argparse_args(ap, prefix=prefix)
        h = '--' + (prefix + '-' if prefix else '')
        opts = [(['left-context', '2'], dict(left_context=2)), (['right-context', '4'], dict(right_context=4)), (['begin-context', '0'], dict(begin_context=0)), (['end-context', '6'], dict(end_context=6))]
        if c['cls'] == 'SeqQEmbed':
            opts += [(['pooling-input', f], dict(pooling_input=f)) for f in IN] + [(['pooling-output', f], dict(pooling_output=f)) for f in OUT]
            opts += [(['min-var', '0.3'], dict(min_var=0.3)), (['kl-weight', '2'], dict(kl_weight=2.)), (['frame-corr-penalty', '0.5'], dict(frame_corr_penalty=0.5))]
        else:
            opts += [(['pooling', f], dict(pooling=f)) for f in ('mean+std', 'mean+logvar', 'mean') + (('lde',) if c['cls'] == 'SeqEmbedLDE' else ())]
            if c['cls'] == 'SeqEmbedLDE':
                opts += [(['lde-num-comp', '8'], dict(num_comp=8)), (['lde-order', '1'], dict(lde_order=1))]
        for n in (0, 1, 2):
            for s in itertools.combinations(opts, n):
                if len({o[0][0] for o in s}) < n:
                    continue
                av, want = [], {}
                for o, v in s:
                    av += [h + o[0], o[1]]
                    want.update(v)
                try:
                    a = vars(ap.parse_args(av))
                except SystemExit:
                    ck.fail('%s: the options %s are rejected' % (c['cls'], av))
                kw = E.filter_args(prefix=prefix, **a)
                for k, v in want.items():
                    ck.check(kw.get(k) == v, lambda: '%s: options %s give %s=%s' % (c['cls'], av, k, kw.get(k)))
                m = nets(c['cls'], 0, 0, 1, 4, kw)
                for k, v in want.items():
                    ck.check(getattr(m, k) == v, lambda: '%s: options %s give a model with %s=%s' % (c['cls'], av, k, getattr(m, k)))
                if n < 2:
                    ck.eq(m.begin_context, want.get('begin_context', want.get('left_context', 0)), 'context at the beginning')
                    ck.eq(m.end_context, want.get('end_context', want.get('right_context', 0)), 'context at the end')
                ck.step()
        # choices that lead nowhere
        for act in ap._actions:
            if act.choices and 'pooling' in act.dest and c['cls'] == 'SeqQEmbed':
                ck.eq(set(act.choices), set(IN if act.dest.endswith('input') else OUT), 'choices of %s' % act.dest)
        ck.state(('a', c['cls'], prefix))


def k_loader(ck, c):
    """the last checkpoint wins, then the best model"""
    K = _S['L']
    for have in itertools.product((0, 1), repeat=4):
        d = ck.dir()
        names = ['model.0000', 'model.0001', 'model.0002', 'model.best']
        for i, (h, n) in enumerate(zip(have, names)):
            if h:
                p = dict(left_context=i)
                m = nets('SeqEmbed', 1, 1, 1, 6, p)
                m.save(os.path.join(d, n))
        for epochs in (0, 1, 2, 3):
            m, cur = K.load_checkpoint(d, epochs)
            ck.step()
            e = [i for i in range(3) if have[i] and i <= epochs]
            want = e[-1] if e else 3 if have[3] else None
            ck.check((m is None) == (want is None), lambda: 'files %s, up to epoch %d: %s' % (have, epochs, m))
            if m is not None:
                ck.eq(m.left_context, want, 'model that is loaded')
            ck.eq(cur, e[-1] if e else 0, 'epoch of the checkpoint')
            ck.state(('l', have, epochs))


def k_meta(ck, c):
    """the meta-embedding network for training"""
    E = _S['E']
    for fi in IN:
        p = dict(pooling_input=fi, pooling_output='nat+prec', min_var=0.2)
        x = F.Input(shape=(5, 1))
        enc = F.Model(x, [Ctx(1, 1, 1, name='a')(x), F.Activation('sigmoid')(Ctx(1, 1, 1, 0.7, name='b')(x))])
        m = E.SeqMetaEmbed(enc, 3, **p)
        m.build()
        X = np.zeros((2, 5, 1))
        X[0, :3] = utt(3, 1)
        X[1] = utt(5, 2)
        out = m.model.predict(X)
        for i, n in enumerate((3, 5)):
            w = np.array([float(k < n) for k in range(5)])
            y2 = 1 / (1 + np.exp(-frames(X[i], 1, 1, 1, 0.7)))
            z = score(m, post(frames(X[i], 1, 1, 1), y2, w, fi, 'nat+prec', 0.2, 1), p)
            e = np.exp(z - z.max())
            ck.close(out[i], e / e.sum(), 'class posteriors of the network of meta-embeddings', rtol=1e-5, atol=1e-7)
            ck.step()
        d = os.path.join(ck.dir(), 'm')
        m.save(d)
        k = E.SeqMetaEmbed.load(d)
        k.build()
        ck.close(k.model.predict(X), out, 'output of a loaded model', rtol=1e-9)
        ck.state(('m', fi))
