"""K02: networks of hyperion.keras.archs."""
import itertools
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the options of the network builders on the real code (layers of keras replaced by stand-ins on numpy), against networks written out as sequences of operations'
BOUND = {
    'quick': 'feed-forward, time-delay (plain, residual, with embedding, transposed x 2, both) , convolutional, VGG and residual networks: 1-3 layers or blocks x sizes given once or by layer x kernels 1-3 x dilation given once, by layer or growing x padding; and for networks of up to 2 layers all combinations of activations, normalisation, dropout, kinds of dropout, one or several outputs; evaluation and training phase; '
             'context of every time-delay network of up to 3 layers by perturbing every frame; layer tables of the named networks, each of their options, and the default of every option',
    'thorough': 'kernels 1-4, all combinations at up to 3 layers'}
ASSUMPTIONS = ['Keras is a stand-in on numpy with the padding rules of TensorFlow (it is not installed)', 'layers with parameters are named as in the code (they are loaded and frozen by name)', 'AlexNetV1 and inception are unfinished and not part of the package', 'the embedding is not added again at the last layer of a network of several layers']
CHUNK = 1

B, T = 2, 7


def setup():
    from mc import fakekeras
    fakekeras.install()


def mods():
    setup()
    from mc import fakeconv
    import hyperion.keras.archs as A
    from hyperion.keras.archs import tdnn, vgg, resnet, convnet, ffnet
    return fakeconv, dict(ff=ffnet.FFNetV1, tdnn=tdnn.TDNNV1, tdnn2=tdnn.TDNNV2, res=tdnn.ResTDNNV1, emb=tdnn.TDNNV1WithEmbedInputV1, t1=tdnn.TDNNV1Transpose, t2=tdnn.TDNNV2Transpose,
                          t1e=tdnn.TDNNV1TransposeWithEmbedInputV1, t2e=tdnn.TDNNV2TransposeWithEmbedInputV1, zhang=convnet.ConvNetZhang17V1, tdconv=convnet.TDConv2DNetV1,
                          vgg=vgg.VGGNetV1, tdvgg=vgg.TDVGGNetV1, resnet=resnet.ResNetV1, A=A, vggm=vgg, resm=resnet)


# ---- parameters by the name of the layer ----

def val(name, j, shape):
    n = int(np.prod(shape))
    s = sum((i + 1) * ord(c) for i, c in enumerate(name)) % 97
    v = np.sin(0.37 * s + 1.7 * j + 0.9 * np.arange(n)).reshape(shape)
    if name == 'bn':
        return (1 + 0.3 * v, 0.4 * v, 0.3 * v, 0.6 + v * v)[j]
    return v * (1.5 / np.sqrt(max(np.prod(shape[:-1]), 1))) if len(shape) > 1 else 0.3 * v


def fill(m):
    for l in m.layers:
        ws = l.get_weights()
        if ws:
            name = l.layer.name if hasattr(l, 'layer') else l.name
            if type(l).__name__ == 'BatchNormalization':
                name = 'bn'
            l.set_weights([val(name, j, w.shape) for j, w in enumerate(ws)])


# ---- operations ----

def softmax(x):
    e = np.exp(x - x.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


ACT = {None: lambda x: x, 'linear': lambda x: x, 'relu': lambda x: np.maximum(x, 0), 'tanh': np.tanh, 'sigmoid': lambda x: 1 / (1 + np.exp(-x)), 'softmax': softmax}


def bn(x):
    g, b, m, v = (val('bn', j, (x.shape[-1],)) for j in range(4))
    return g * (x - m) / np.sqrt(v + 1e-3) + b


def dense(x, name, n):
    return x @ val(name, 0, (x.shape[-1], n)) + val(name, 1, (n,))


def pads(n, k, s, d, pad):
    """output size, left padding"""
    e = (k - 1) * d + 1
    if pad == 'valid':
        return (n - e) // s + 1, 0
    o = (n + s - 1) // s
    return o, (k - 1) * d if pad == 'causal' else max((o - 1) * s + e - n, 0) // 2


def conv(x, name, f, k, s=(1, 1), d=(1, 1), pad='same', one=False):
    """x: (B, H, W, C)"""
    W = val(name, 0, ((k[0],) if one else tuple(k)) + (x.shape[-1], f))
    if one:
        W = W[:, None]
    (h, a), (w, b) = pads(x.shape[1], k[0], s[0], d[0], pad), pads(x.shape[2], k[1], s[1], d[1], pad)
    y = np.zeros((len(x), h, w, f)) + val(name, 1, (f,))
    for i in range(h):
        for j in range(w):
            for p in range(k[0]):
                for q in range(k[1]):
                    u, v = i * s[0] + p * d[0] - a, j * s[1] + q * d[1] - b
                    if 0 <= u < x.shape[1] and 0 <= v < x.shape[2]:
                        y[:, i, j] += x[:, u, v] @ W[p, q]
    return y


def conv1(x, name, f, k, d, pad):
    return conv(x[:, :, None], name, f, (k, 1), d=(d, 1), pad=pad, one=True)[:, :, 0]


def tconv1(x, name, f, k, d, pad):
    W = val(name, 0, (k, 1, f, x.shape[-1]))
    n = x.shape[1]
    e = (k - 1) * d
    o, off = (n, e // 2) if pad == 'same' else (n + e, 0)
    y = np.zeros((len(x), o, f)) + val(name, 1, (f,))
    for i in range(n):
        for p in range(k):
            if 0 <= i + p * d - off < o:
                y[:, i + p * d - off] += x[:, i] @ W[p, 0].T
    return y


def pool(x, k, s, pad):
    (h, a), (w, b) = pads(x.shape[1], k[0], s[0], 1, pad), pads(x.shape[2], k[1], s[1], 1, pad)
    y = np.empty((len(x), h, w, x.shape[-1]))
    for i in range(h):
        for j in range(w):
            u, v = i * s[0] - a, j * s[1] - b
            y[:, i, j] = x[:, max(u, 0):u + k[0], max(v, 0):v + k[1]].max(axis=(1, 2))
    return y


def two(v):
    return (v, v) if np.ndim(v) == 0 else tuple(v)


class O(object):
    """options of a network with their defaults, and the steps common to all"""

    def __init__(self, kw, **dflt):
        self.__dict__.update(dict(hidden_activation='relu', output_activation=None, use_batchnorm=True, spatial_dropout=False, padding='same', train=0), **dflt)
        self.__dict__.update(kw)

    def bn(self, x):
        return bn(x) if self.use_batchnorm else x

    def act(self, x, rate=0):
        x = ACT[self.hidden_activation](x)
        return x * (1 + (3 if self.spatial_dropout else 1) * rate) if self.train else x

    def out(self, x, name, f):
        """f(x, name, units): the last layer, one or several"""
        x = self.bn(x)
        if not isinstance(self.output_units, list):
            return ACT[self.output_activation](f(x, name, self.output_units))
        a = self.output_activation if isinstance(self.output_activation, list) else [self.output_activation] * len(self.output_units)
        return [ACT[a[i]](f(x, '%s-%d' % (name, i), u)) for i, u in enumerate(self.output_units)]


def lst(v, n, f=lambda i, v: v):
    return v if isinstance(v, list) else [f(i, v) for i in range(n)]


# ---- the networks ----

def ff(o, x):
    h = lst(o.hidden_units, o.num_layers - 1)
    for i in range(o.num_layers - 1):
        x = o.act(dense(o.bn(x), 'fc-%d' % i, h[i]), o.dropout_rate)
    return o.out(x, 'fc-%d' % (o.num_layers - 1), dense)


def tdnn(o, x, e=None):
    k, d = lst(o.kernel_size, o.num_td_layers), lst(o.dilation_rate, o.num_td_layers, lambda i, v: v + o.dilation_rate_factor * i)
    h = lst(o.hidden_fc_units, o.num_fc_layers)
    for i in range(o.num_td_layers):
        x = o.act(conv1(o.bn(x), 'td-%d' % i, o.hidden_td_units, k[i], d[i], o.padding), o.td_dropout_rate)
    for i in range(o.num_fc_layers - 1):
        if e is not None and (i == 0 or o.cat_embed_to_all_fc_layers):
            x = np.concatenate([x, e], axis=-1)
        x = o.act(dense(o.bn(x), 'fc-%d' % i, h[i]), o.fc_dropout_rate)
    if e is not None and o.num_fc_layers == 1:
        x = np.concatenate([x, e], axis=-1)
    return o.out(x, 'fc-%d' % (o.num_fc_layers - 1), dense)


def res(o, x):
    n = 2 * o.num_td_blocks
    k, d = lst(o.kernel_size, n), lst(o.dilation_rate, n, lambda i, v: v + o.dilation_rate_factor * i)
    for i in range(o.num_td_blocks):
        x = o.bn(x)
        s = conv1(x, 'res-td-%d' % i, o.hidden_td_units, 1, 1, 'same') if i == 0 else x
        for j in (0, 1):
            x = o.act(conv1(x, 'td-%d-%d' % (i, j + 1), o.hidden_td_units, k[2 * i + j], d[2 * i + j], o.padding), o.td_dropout_rate)
        x = x + s
    for i in range(o.num_fc_blocks):
        x = o.bn(x)
        s = conv1(x, 'res-fc-%d' % i, o.hidden_fc_units, 1, 1, 'same') if i == 0 and o.hidden_fc_units != o.hidden_td_units else x
        for j in (0, 1):
            x = o.act(conv1(x, 'fc-%d-%d' % (i, j + 1), o.hidden_fc_units, 1, 1, 'same'), o.fc_dropout_rate)
        x = x + s
    return o.out(x, 'fc-%d' % (2 * o.num_fc_blocks), dense)


def trans(f):
    def net(o, x, e=None):
        n = o.num_td_layers
        k, d = lst(o.kernel_size, n), lst(o.dilation_rate, n, lambda i, v: v + o.dilation_rate_factor * (n - i))
        h = lst(o.hidden_fc_units, o.num_fc_layers)
        for i in range(o.num_fc_layers):
            if e is not None and (i == 0 or o.cat_embed_to_all_fc_layers):
                x = np.concatenate([x, e], axis=-1)
            x = o.act(dense(o.bn(x), 'fc-%d' % i, h[i]), o.fc_dropout_rate)
        for i in range(n - 1):
            x = o.act(f(o.bn(x), 'td-%d' % i, o.hidden_td_units, k[i], d[i], o.padding), o.td_dropout_rate)
        return o.out(x, 'td-%d' % (n - 1), lambda x, name, u: f(x, name, u, k[-1], d[-1], o.padding))
    return net


def convs(o, x, layers, fc, seq):
    """layers: (name, filters, kernel, dilation, pool after or None)"""
    if seq:
        n = x.shape[1]
        x = x[..., None]
    for name, f, k, d, p in layers:
        if name is None:
            x = pool(x, p[0], p[1], o.padding)
            continue
        x = ACT[o.hidden_activation](conv(o.bn(x), name, f, k, d=d, pad=o.padding))
        if p:
            x = pool(x, p[0], p[1], o.padding)
        if o.train:
            x = x * (1 + o.conv_dropout_rate)
    x = x.reshape((B, n, -1) if seq else (B, -1))
    for i, h in enumerate(fc):
        x = o.act(dense(o.bn(x), 'fc-%d' % i, h), o.fc_dropout_rate)
    return o.out(x, 'fc-%d' % len(fc), dense)


def convnet(o, x):
    n = o.num_conv_layers
    f, k = lst(o.conv_filters, n), lst(o.kernel_size, n)
    d = [v if isinstance(v, tuple) else (v, 1) for v in lst(o.dilation_rate, n, lambda i, v: v + o.dilation_rate_factor * i)]
    p = (two(o.pool_size), two(o.pool_size))
    return convs(o, x, [('conv-%d' % i, f[i], two(k[i]), d[i], p if i < o.num_poolings else None) for i in range(n)], [o.hidden_fc_units] * (o.num_fc_layers - 1), True)


def vgg(seq):
    def net(o, x):
        n = o.num_conv_blocks
        f = lst(o.conv_filters, n, lambda i, v: min(o.max_conv_filters, v * o.conv_filters_factor ** i))
        l = lst(o.num_block_layers, n)
        d = [v if isinstance(v, tuple) else (v, 1) for v in lst(o.dilation_rate, n, lambda i, v: v + o.dilation_rate_factor * i)]
        L = []
        for b in range(n):
            L += [('conv-%d-%d' % (b, i), f[b], two(o.kernel_size), d[b], None) for i in range(l[b])] + [(None, 0, 0, 0, (two(o.pool_size), two(o.pool_strides)))]
        return convs(o, x, L, lst(o.hidden_fc_units, o.num_fc_layers - 1), seq)
    return net


def resnet(o, x):
    n = o.num_blocks
    f = lst(o.conv_filters, n, lambda i, v: min(o.max_conv_filters, v * o.conv_filters_factor ** i))
    g = [min(o.max_bottleneck_filters, o.bottleneck_filter_factor * v) for v in f] if o.bottleneck_blocks else f
    l = lst(o.num_subblocks, n)
    drop = lambda x: ACT[o.hidden_activation](x) * (1 + (o.conv_dropout_rate if o.train else 0))
    if o.is_sequence:
        x = x[..., None]
    x = drop(conv(o.bn(x), 'conv-0', f[0], two(o.input_kernel_size), two(o.input_strides), pad=o.padding))
    x = pool(x, two(o.input_pool_size), two(o.input_pool_strides), o.padding)
    for b in range(n):
        for i in range(l[b]):
            s = two(o.interblock_strides if b > 0 and i == 0 else 1)
            name = 'conv-%d-%d' % (b + 1, i)
            x = o.bn(x)
            k = two(o.kernel_size)
            if o.bottleneck_blocks:
                L = [(f[b], (1, 1), s), (f[b], k, (1, 1)), (g[b], (1, 1), (1, 1))]
            else:
                L = [(f[b], k, s), (f[b], k, (1, 1))]
            h = x
            for j, (c, kk, ss) in enumerate(L):
                h = conv(h if j == 0 else o.bn(h), '%s-%d' % (name, j + 1), c, kk, ss, pad=o.padding)
                if j < len(L) - 1:
                    h = drop(h)
            if s != (1, 1) or x.shape != h.shape:
                x = conv(x, name + '-s', g[b], (1, 1), s, pad=o.padding)
            x = drop(h + x)
    x = x.reshape((B, x.shape[1], -1) if o.is_sequence else (B, -1))
    for i, h in enumerate(lst(o.hidden_fc_units, o.num_fc_layers - 1)):
        x = o.act(dense(o.bn(x), 'fc-%d' % i, h), o.fc_dropout_rate)
    return o.out(x, 'fc-%d' % (o.num_fc_layers - 1), dense)


DROP = dict(td_dropout_rate=0, fc_dropout_rate=0)
TD = dict(DROP, spatial_dropout=True, dilation_rate=1, dilation_rate_factor=1, cat_embed_to_all_fc_layers=False)
CN = dict(conv_dropout_rate=0.3, fc_dropout_rate=0.3, dilation_rate=1)
VG = dict(conv_filters_factor=2, max_conv_filters=512, kernel_size=3, conv_dropout_rate=0, fc_dropout_rate=0.5, dilation_rate=1, dilation_rate_factor=0)
NET = {
    'ff': (ff, dict(dropout_rate=0)),
    'tdnn': (tdnn, TD), 'tdnn2': (tdnn, TD), 'emb': (tdnn, TD), 'res': (res, TD),
    't1': (trans(conv1), TD), 't1e': (trans(conv1), TD), 't2': (trans(tconv1), TD), 't2e': (trans(tconv1), TD),
    'zhang': (convnet, dict(CN, dilation_rate_factor=0, num_poolings=1, kernel_size=(5, 3), pool_size=(1, 3))),
    'tdconv': (convnet, dict(CN, dilation_rate_factor=1, num_poolings=3, kernel_size=(5, 3), pool_size=(1, 3))),
    'vgg': (vgg(False), dict(VG, pool_size=2, pool_strides=2)), 'tdvgg': (vgg(True), dict(VG, pool_size=(1, 2), pool_strides=(1, 2))),
    'resnet': (resnet, dict(num_fc_layers=1, conv_filters_factor=2, max_conv_filters=512, kernel_size=3, interblock_strides=2, input_kernel_size=7, input_strides=2, input_pool_size=(3, 3),
                            input_pool_strides=2, bottleneck_blocks=True, bottleneck_filter_factor=4, max_bottleneck_filters=2048, conv_dropout_rate=0, fc_dropout_rate=0.5, is_sequence=False, hidden_fc_units=2048)),
}


def inputs(shapes):
    return [np.cos(0.7 * i + 0.31 * np.arange(B * int(np.prod(s))) ** 1.1).reshape((B,) + tuple(s)) for i, s in enumerate(shapes)]


def build(ck, net, kw, **more):
    F, N = mods()
    m = N[net](**dict(kw, **more))
    return F, m


def shapes(net, kw):
    if net == 'ff':
        return [(kw['input_units'],)]
    if 'input_shape' in kw:
        return [kw['input_shape']]
    s = [(T if kw.get('padding') != 'valid' else 13, kw['input_units'])]
    if 'embed_units' in kw:
        v = dict(TD, **kw)
        n = s[0][0]
        if net == 'emb' and v.get('padding') == 'valid':
            k, d = lst(v['kernel_size'], v['num_td_layers']), lst(v['dilation_rate'], v['num_td_layers'], lambda i, x: x + v['dilation_rate_factor'] * i)
            n -= sum((a - 1) * b for a, b in zip(k, d))
        s.append((n, kw['embed_units']))
    return s


def one(ck, net, kw):
    f, dflt = NET[net]
    F, m = build(ck, net, kw)
    fill(m)
    what = '%s(%s)' % (net, ', '.join('%s=%r' % x for x in sorted(kw.items())))
    ins = inputs(shapes(net, kw))
    ck.eq([tuple(x._keras_shape[1:]) for x in m.inputs], [tuple(s) if net == 'ff' or 'input_shape' in kw else (None, s[1]) for s in shapes(net, kw)], what + ': input shapes')
    for tr in (0, 1):
        F.PHASE[0] = tr
        try:
            got = m(ins if len(ins) > 1 else ins[0])
        finally:
            F.PHASE[0] = 0
        want = f(O(dict(kw, train=tr), **dflt), *ins)
        got, want = (v if isinstance(v, list) else [v] for v in (got, want))
        ck.eq(len(got), len(want), what + ': number of outputs')
        for i, (a, b) in enumerate(zip(got, want)):
            ck.check(np.shape(a) == b.shape, what + ': output %d of shape %s, want %s' % (i, np.shape(a), b.shape))
            ck.close(np.asarray(a), b, what + ': output %d%s' % (i, ' in training' if tr else ''), rtol=1e-3, atol=1e-4)
        ck.step()
    ck.state((net, repr(sorted(kw.items()))))
    return m


def prod(**kw):
    ks = sorted(kw)
    for v in itertools.product(*[kw[k] for k in ks]):
        yield dict(zip(ks, v))


ACTS = [dict(hidden_activation=h, output_activation=a) for h in ('relu', 'tanh', None) for a in (None, 'softmax')]
OUTS = [dict(output_units=u, output_activation=a) for u, a in ((3, None), (3, 'softmax'), ([2], 'tanh'), ([2, 3], None), ([2, 3], 'softmax'), ([3, 2], ['tanh', 'softmax']), ([2, 2], [None, 'sigmoid']))]


def pick(full, i):
    """an element of a list that takes its turn"""
    return full[i % len(full)]


def g_ff(q):
    for n in (1, 2, 3):
        for h in (3, [3, 2][:n - 1] if n > 1 else [], [1, 4][:n - 1]):
            for o in prod(use_batchnorm=(True, False), dropout_rate=(0, 0.3)):
                for a in ACTS:
                    yield dict(o, num_layers=n, hidden_units=h, output_units=2, input_units=3, **a)


def td_struct(net, q):
    """sizes of time-delay networks"""
    tr = net[0] == 't' and net[1] in '12'
    K = (1, 2, 3) if q else (1, 2, 3, 4)
    for td in (1, 2, 3):
        for fc in (1, 2, 3):
            n, m = (2 * td, fc - 1) if net == 'res' else (td, fc)
            for k in list(K) + [[3, 1, 2, 3, 1, 2][:n]]:
                for d in (dict(), dict(dilation_rate=2), dict(dilation_rate=1, dilation_rate_factor=0), dict(dilation_rate=2, dilation_rate_factor=2), dict(dilation_rate=[1, 3, 2, 1, 2, 1][:n])):
                    for h in ((3,) if net == 'res' else (3, [4, 2, 3][:fc - (net in ('tdnn', 'tdnn2'))])):
                        o = dict(kernel_size=k, hidden_td_units=2, hidden_fc_units=h, input_units=2, output_units=3, **d)
                        o.update(dict(num_td_blocks=td, num_fc_blocks=m) if net == 'res' else dict(num_td_layers=td, num_fc_layers=fc))
                        yield o


def td_opts(net, q):
    L = (1, 2) if q else (1, 2, 3)
    i = 0
    for td, fc in itertools.product(L, L):
        for o in prod(use_batchnorm=(True, False), td_dropout_rate=(0, 0.2), fc_dropout_rate=(0, 0.3), spatial_dropout=(True, False), hidden_activation=('relu', 'tanh', None)):
            for u in ([pick(OUTS, i), pick(OUTS, i + 3)] if q else OUTS):
                i += 1
                o = dict(o, kernel_size=3, hidden_td_units=2, hidden_fc_units=(3, 2)[i % 2], input_units=2, **u)
                o.update(dict(num_td_blocks=td, num_fc_blocks=fc - 1) if net == 'res' else dict(num_td_layers=td, num_fc_layers=fc))
                yield o


def g_td(net, q, part):
    i = 0
    for o in (td_struct if part == 's' else td_opts)(net, q):
        i += 1
        if net in ('emb', 't1e', 't2e'):
            o['embed_units'] = 1 + i % 2
            o['cat_embed_to_all_fc_layers'] = bool(i // 2 % 2)
        if part == 's' and net != 'res':
            n = o['num_td_layers']
            k = lst(o['kernel_size'], n)
            tr = net[0] == 't' and net[1] in '12'
            d = lst(o.get('dilation_rate', 1), n, lambda j, v: v + o.get('dilation_rate_factor', 1) * ((n - j) if tr else j))
            if sum((a - 1) * b for a, b in zip(k, d)) < 12 and i % 2:
                o['padding'] = 'valid'
            elif net in ('tdnn', 'tdnn2', 'emb', 't1') and i % 4 == 0:
                o['padding'] = 'causal'
        yield o


def g_zhang(q):
    for n in (1, 2, 3):
        for f in (2, [2, 3, 1][:n]):
            for k in ((3, 2), 2, [(2, 3), 1, (1, 2)][:n]):
                for i, o in enumerate(prod(num_fc_layers=(1, 2, 3), use_batchnorm=(True, False), conv_dropout_rate=(0, 0.2), fc_dropout_rate=(0, 0.4))):
                    yield dict(o, output_units=2, input_shape=(4, 5 + i % 2), num_conv_layers=n, conv_filters=f, hidden_fc_units=2, kernel_size=k, pool_size=((1, 3), (1, 2))[i // 2 % 2], **pick(ACTS, i))


def g_tdconv(q):
    for n in (1, 2, 3):
        for f in (2, [2, 3, 1][:n]):
            for k in ((3, 2), [(2, 3), 1, (1, 2)][:n]):
                for d in (dict(), dict(dilation_rate=2, dilation_rate_factor=0), dict(dilation_rate=[2, (1, 2), (3, 1)][:n])):
                    for i, o in enumerate(prod(num_fc_layers=(1, 2), num_poolings=(0, 1, 2, 3), use_batchnorm=(True, False))):
                        yield dict(o, output_units=2, input_shape=(4, 5 + i % 2), num_conv_layers=n, conv_filters=f, hidden_fc_units=2, kernel_size=k, pool_size=((1, 3), (1, 2))[i // 2 % 2],
                                   conv_dropout_rate=(0, 0.2)[i % 2], fc_dropout_rate=(0.4, 0)[i % 3 % 2], **dict(d, **pick(ACTS, i)))


def g_vgg(net, q):
    for n in (1, 2, 3):
        for l in (1, 2, [2, 1, 2][:n]):
            for f in (dict(conv_filters=2), dict(conv_filters=1, conv_filters_factor=3, max_conv_filters=4), dict(conv_filters=[2, 1, 3][:n])):
                for i, o in enumerate(prod(num_fc_layers=(1, 2, 3), use_batchnorm=(True, False), kernel_size=(2, 3))):
                    p = ((2, 2), (3, 2), (2, 1), (1, 1))[i % 4]
                    o = dict(o, output_units=2, num_conv_blocks=n, num_block_layers=l, hidden_fc_units=[[3, 2][:o['num_fc_layers'] - 1], 2][i % 2], conv_dropout_rate=(0, 0.2)[i % 2], **dict(f, **pick(ACTS, i)))
                    if i % 3:
                        o['fc_dropout_rate'] = 0.25 * (i % 3 - 1)
                    if net == 'vgg':
                        o.update(input_shape=(6, 5, 1 + i % 2), pool_size=p[0], pool_strides=p[1])
                        if n == 1 and i % 2 and l == 1:
                            o['padding'] = 'valid'
                    else:
                        o.update(input_shape=(4, 6), pool_size=(1, p[0]), pool_strides=(1, p[1]), **(dict(), dict(dilation_rate=2), dict(dilation_rate_factor=1), dict(dilation_rate=[(1, 2), 2, 3][:n]))[i % 4])
                    yield o


def g_resnet(q):
    i = 0
    for n in (2, 3):
        for l in (1, 2, [2, 1, 1][:n]):
            for f in (dict(conv_filters=2), dict(conv_filters=1, conv_filters_factor=2, max_conv_filters=2), dict(conv_filters=[2, 2, 3][:n]), dict(conv_filters=2, conv_filters_factor=1)):
                for o in prod(bottleneck_blocks=(True, False), is_sequence=(True, False), interblock_strides=(1, 2), use_batchnorm=(True, False)):
                    i += 1
                    o = dict(o, output_units=2, num_blocks=n, num_subblocks=l, num_fc_layers=1 + i % 3, hidden_fc_units=[2, [3, 2][:i % 3]][i // 3 % 2], kernel_size=(3, 3, 1)[i % 3], conv_dropout_rate=(0, 0.2)[i // 2 % 2],
                             input_kernel_size=(3, 5, 2)[i % 3], input_strides=1 + i // 2 % 2, input_pool_strides=1 + i // 4 % 2, **dict(f, **pick(ACTS, i)))
                    if o['bottleneck_blocks']:
                        o.update(bottleneck_filter_factor=(1, 2, 4)[i % 3], max_bottleneck_filters=(2048, 4)[i // 3 % 2])
                    o['input_shape'] = (8, 6) if o['is_sequence'] else (8, 6, 1 + i % 2)
                    if i % 4 == 0:
                        o['fc_dropout_rate'] = 0
                    yield o


TDN = ('tdnn', 'tdnn2', 'res', 'emb', 't1', 't2', 't1e', 't2e')


def gen(net, part, q):
    if net == 'ff':
        return g_ff(q)
    if net in TDN:
        return g_td(net, q, part)
    return dict(zhang=lambda: g_zhang(q), tdconv=lambda: g_tdconv(q), vgg=lambda: g_vgg('vgg', q), tdvgg=lambda: g_vgg('tdvgg', q), resnet=lambda: g_resnet(q))[net]()


def cases(tier):
    q = tier == 'quick'
    for net in NET:
        for part in ('so' if net in TDN else 's'):
            n = len(list(gen(net, part, q)))
            size = 12
            for a in range(0, n, size):
                yield dict(kind='net', net=net, part=part, a=a, b=min(a + size, n))
    for net in TDN:
        for td in (1, 2, 3):
            yield dict(kind='context', net=net, td=td)
    yield dict(kind='rescontext')
    for net in NET:
        yield dict(kind='config', net=net)
    for i in range(len(PRESETS)):
        yield dict(kind='preset', i=i)
    for net in NET:
        yield dict(kind='defaults', net=net)
    for i in range(len(NAMED)):
        for opt in POPTS:
            yield dict(kind='presetopt', i=i, opt=opt)


def run_case(ck, c):
    globals()['k_' + c['kind']](ck, c)
    ck.trace()


def k_net(ck, c):
    for kw in itertools.islice(gen(c['net'], c['part'], ck.tier == 'quick'), c['a'], c['b']):
        one(ck, c['net'], kw)


def k_context(ck, c):
    """the context that is returned is the number of frames at each side that an output depends on"""
    net, td = c['net'], c['td']
    n = 2 * td if net == 'res' else td
    for k in (1, 3, 5, [3, 1, 5, 3, 1, 3][:n], [1, 5, 3, 1, 3, 1][:n]):
        for d in (dict(), dict(dilation_rate=2), dict(dilation_rate=1, dilation_rate_factor=0), dict(dilation_rate=[2, 1, 3, 1, 2, 1][:n])):
            kw = dict(kernel_size=k, hidden_td_units=2, hidden_fc_units=2, input_units=1, output_units=2, hidden_activation='tanh', use_batchnorm=False, return_context=True, **d)
            kw.update(dict(num_td_blocks=td, num_fc_blocks=1) if net == 'res' else dict(num_td_layers=td, num_fc_layers=2))
            if net in ('emb', 't1e', 't2e'):
                kw['embed_units'] = 1
            F, (m, ctx) = build(ck, net, kw)
            fill(m)
            v = dict(TD, **kw)
            kk = lst(k, n)
            tr = net[0] == 't' and net[1] in '12'
            dd = lst(v['dilation_rate'], n, lambda i, x: x + v['dilation_rate_factor'] * ((n - i) if tr else i))
            W = sum((a - 1) * b for a, b in zip(kk, dd)) // 2
            L = 2 * W + 7
            x = np.cos(np.arange(L) * 0.9)[:, None]
            X = np.stack([x] + [x + (np.arange(L) == f)[:, None] * 3. for f in range(L)])
            ins = [X] + ([np.ones((L + 1, L, 1))] if 'embed_units' in kw else [])
            y = np.asarray(m(ins if len(ins) > 1 else X))[:, L // 2]
            dep = np.flatnonzero(np.abs(y[1:] - y[0]).max(axis=1) > 0)
            what = 'context of %s(%s)' % (net, ', '.join('%s=%r' % z for z in sorted(kw.items())))
            ck.eq(ctx, W, what)
            ck.eq((int(dep.min()), int(dep.max())), (L // 2 - W, L // 2 + W), what + ': first and last frame that the middle output depends on')
            ck.step()
            ck.state((net, repr(sorted(kw.items()))))


def k_rescontext(ck, c):
    for o in prod(bottleneck_blocks=(True, False), num_subblocks=(1, 2), interblock_strides=(1, 2), input_strides=(1, 2), input_pool_strides=(1, 2), kernel_size=(1, 3, 5), input_kernel_size=(3, 7), num_blocks=(2, 3)):
        kw = dict(o, output_units=2, input_shape=(64, 4), conv_filters=1, is_sequence=True, bottleneck_filter_factor=2, return_context=True)
        F, (m, ctx) = build(ck, 'resnet', kw)
        w = (o['input_kernel_size'] - 1) // 2
        j = o['input_strides']
        w += j
        j *= o['input_pool_strides']
        for b in range(o['num_blocks']):
            for i in range(o['num_subblocks']):
                s = o['interblock_strides'] if b and not i else 1
                if o['bottleneck_blocks']:
                    j *= s
                    w += j * (o['kernel_size'] - 1) // 2
                else:
                    w += j * (o['kernel_size'] - 1) // 2
                    j *= s
                    w += j * (o['kernel_size'] - 1) // 2
        ck.eq(ctx, w, 'context of resnet(%s)' % ', '.join('%s=%r' % z for z in sorted(kw.items())))
        ck.step()
        ck.state(repr(sorted(o.items())))


SMALL = {
    'ff': dict(num_layers=3, output_units=2, hidden_units=3, input_units=2),
    'zhang': dict(output_units=2, input_shape=(3, 5), num_conv_layers=2, conv_filters=2, hidden_fc_units=2, num_fc_layers=2),
    'tdconv': dict(output_units=2, input_shape=(3, 5), num_conv_layers=2, conv_filters=2, hidden_fc_units=2, num_fc_layers=2),
    'vgg': dict(output_units=2, input_shape=(4, 4, 1), num_conv_blocks=2, num_block_layers=1, conv_filters=2, hidden_fc_units=2, num_fc_layers=2),
    'tdvgg': dict(output_units=2, input_shape=(4, 4), num_conv_blocks=2, num_block_layers=1, conv_filters=2, hidden_fc_units=2, num_fc_layers=2),
    'resnet': dict(output_units=2, input_shape=(8, 8, 1), num_blocks=2, num_subblocks=2, conv_filters=2, hidden_fc_units=2, num_fc_layers=2),
}


def k_config(ck, c):
    """initializers, regularizers and constraints reach every layer with parameters, each in its place"""
    net = c['net']
    kw = SMALL.get(net) or dict(kernel_size=3, hidden_td_units=2, hidden_fc_units=3, input_units=2, output_units=2, **(dict(num_td_blocks=2, num_fc_blocks=1) if net == 'res' else dict(num_td_layers=2, num_fc_layers=2)))
    if net in ('emb', 't1e', 't2e'):
        kw['embed_units'] = 1
    setup()
    import keras
    opts = dict(kernel_initializer='ones', bias_initializer='ones', kernel_regularizer=keras.regularizers.l2(0.25), bias_regularizer=keras.regularizers.l2(0.125), kernel_constraint='non_neg', bias_constraint='non_neg')
    for bneck in ((True, False) if net == 'resnet' else (None,)):
        for outs in ((2, [2, 2]) if net in TDN else (2,)):
            for name in [None] + sorted(opts):
                o = dict(kw, output_units=outs, **({} if name is None else {name: opts[name]}))
                if bneck is not None:
                    o['bottleneck_blocks'] = bneck
                F, m = build(ck, net, dict(o, name='abc'))
                ck.eq(m.name, 'abc', net + ': name of the network')
                k = 0
                for l in m.layers:
                    l = getattr(l, 'layer', l)
                    if not hasattr(l, 'kernel_constraint'):
                        continue
                    k += 1
                    ws = l.get_weights()
                    for q, j in (('kernel', 0), ('bias', 1)):
                        want = 'ones' if name == q + '_initializer' else 'other'
                        one_ = bool((np.asarray(ws[j]) == 1).all())
                        ck.eq('ones' if one_ else 'other', want, '%s with %s: first %s of %s' % (net, name, q, l.name))
                        r = getattr(l, q + '_regularizer')
                        ck.eq(None if r is None else r.get_config()['l2'], None if name != q + '_regularizer' else (0.25, 0.125)[j], '%s with %s: %s regularizer of %s' % (net, name, q, l.name))
                        ck.eq(getattr(l, q + '_constraint') is not None, name == q + '_constraint', '%s with %s: %s constraint of %s' % (net, name, q, l.name))
                ck.check(k >= 3, net + ': layers with parameters')
                ck.step()


def k_defaults(ck, c):
    """networks with the default of every option but the sizes and the amounts of dropout"""
    net = c['net']
    if net in ('vgg', 'tdvgg', 'resnet'):
        for kw in (dict(SMALL[net]), dict(SMALL[net], conv_dropout_rate=0.1, fc_dropout_rate=0.2)):
            one(ck, net, dict(kw, input_shape=(8, 8, 1) if net != 'tdvgg' else (4, 8)))
        return
    if net in SMALL:
        kw = SMALL[net]
        one(ck, net, dict(kw))
        if net == 'ff':
            one(ck, net, dict(kw, dropout_rate=0.2))
        else:
            one(ck, net, dict(kw, input_shape=(6, 12), num_conv_layers=4))
        return
    kw = dict(kernel_size=2, hidden_td_units=2, hidden_fc_units=3, input_units=2, output_units=2, **(dict(num_td_blocks=1, num_fc_blocks=1) if net == 'res' else dict(num_td_layers=2, num_fc_layers=3)))
    if net in ('emb', 't1e', 't2e'):
        kw['embed_units'] = 1
    for d in (dict(), dict(td_dropout_rate=0.1), dict(fc_dropout_rate=0.2)):
        one(ck, net, dict(kw, **d))


def vggt(b, f=64, d=1):
    L = [(min(512, f * 2 ** i), 3, 1) for i, n in enumerate(b) for _ in range(n)]
    return L, [4096, 4096, 5]


def rest(b, bneck, f=64, mx=512, mb=2048):
    L = [(f, 7, 2)]
    c = f
    for i, n in enumerate(b):
        v = min(mx, f * 2 ** i)
        w = min(mb, 4 * v) if bneck else v
        for j in range(n):
            s = 2 if i and not j else 1
            L += [(v, 1, s), (v, 3, 1), (w, 1, 1)] if bneck else [(v, 3, s), (v, 3, 1)]
            if c != w or s > 1:
                L.append((w, 1, s))
            c = w
    return L, [5]


IM, SQ = dict(input_shape=(32, 48, 3)), dict(input_shape=(32, 40))
PRESETS = [
    ('resm', 'ResNetV1', IM, rest([3, 4, 6, 3], True)), ('vggm', 'VGGNetV1', IM, vggt([2, 2, 3, 3, 3])), ('vggm', 'TDVGGNetV1', SQ, vggt([2, 2, 3, 3, 3])),
    ('vggm', 'VGG16', IM, vggt([2, 2, 3, 3, 3])), ('vggm', 'VGG19', IM, vggt([2, 2, 4, 4, 4])),
    ('vggm', 'TDVGG16', SQ, vggt([2, 2, 3, 3, 3])), ('vggm', 'TDVGG19', SQ, vggt([2, 2, 4, 4, 4])), ('vggm', 'TDVGG16', dict(SQ, conv_filters=16), vggt([2, 2, 3, 3, 3], 16)),
    ('vggm', 'TDVGG19', dict(SQ, conv_filters=16), vggt([2, 2, 4, 4, 4], 16)),
    ('resm', 'ResNet18V1', IM, rest([2, 2, 2, 2], False)), ('resm', 'ResNet34V1', IM, rest([3, 4, 6, 3], False)), ('resm', 'ResNet50V1', IM, rest([3, 4, 6, 3], True)),
    ('resm', 'ResNet101V1', IM, rest([3, 4, 23, 3], True)), ('resm', 'ResNet152V1', IM, rest([3, 8, 36, 3], True)),
    ('resm', 'ResNet18V1', dict(IM, conv_filters=8, max_conv_filters=16), rest([2, 2, 2, 2], False, 8, 16)), ('resm', 'ResNet18V1', dict(SQ, is_sequence=True), rest([2, 2, 2, 2], False)),
    ('resm', 'ResNet34V1', dict(IM, conv_filters=8, max_conv_filters=16), rest([3, 4, 6, 3], False, 8, 16)),
    ('resm', 'ResNet50V1', dict(IM, conv_filters=8, max_conv_filters=16, max_bottleneck_filters=32), rest([3, 4, 6, 3], True, 8, 16, 32)),
    ('resm', 'ResNet101V1', dict(IM, conv_filters=8, max_conv_filters=32), rest([3, 4, 23, 3], True, 8, 32)), ('resm', 'ResNet152V1', dict(IM, conv_filters=8, max_conv_filters=32), rest([3, 8, 36, 3], True, 8, 32)),
]


def k_preset(ck, c):
    mod, name, kw, (convs_, fcs) = PRESETS[c['i']]
    F, N = mods()
    from mc import fakekeras
    fakekeras.NO_WEIGHTS[0] = True
    try:
        m = getattr(N[mod], name)(5, **kw)
    finally:
        fakekeras.NO_WEIGHTS[0] = False
    what = '%s(%s)' % (name, kw)
    ck.eq([tuple(x._keras_shape[1:]) for x in m.inputs], [kw['input_shape']], what + ': input shape')
    ls = [getattr(l, 'layer', l) for l in m.layers]
    cv = [(l.filters, l.kernel_size[0], l.strides[0]) for l in ls if hasattr(l, 'filters')]
    fc = [l.units for l in ls if hasattr(l, 'units')]
    ck.check(all(l.kernel_size[0] == l.kernel_size[1] and l.strides[0] == l.strides[1] for l in ls if hasattr(l, 'filters')), what + ': square kernels')
    ck.eq(sorted(cv), sorted(convs_), what + ': filters, kernels and strides of the convolutions')
    ck.eq(fc, fcs, what + ': dense layers')
    po = [(l.pool_size, l.strides) for l in ls if hasattr(l, 'pool_size')]
    ck.eq([(tuple(a), tuple(b)) for a, b in po], [((3, 3), (2, 2))] if mod == 'resm' else [((1 if 'TD' in name else 2, 2),) * 2] * 5, what + ': pooling')
    ck.step()
    ck.state(repr((name, sorted(kw.items()))))


# name, builder, convolutions by block, bottleneck, arguments
NAMED = [('vgg16', 'VGG16', [2, 2, 3, 3, 3], None, IM), ('vgg19', 'VGG19', [2, 2, 4, 4, 4], None, IM), ('tdvgg16', 'TDVGG16', [2, 2, 3, 3, 3], None, SQ), ('tdvgg19', 'TDVGG19', [2, 2, 4, 4, 4], None, SQ),
         ('resnet18-v1', 'ResNet18V1', [2, 2, 2, 2], False, IM), ('resnet34-v1', 'ResNet34V1', [3, 4, 6, 3], False, IM), ('resnet50-v1', 'ResNet50V1', [3, 4, 6, 3], True, IM),
         ('resnet101-v1', 'ResNet101V1', [3, 4, 23, 3], True, IM), ('resnet152-v1', 'ResNet152V1', [3, 8, 36, 3], True, IM)]
POPTS = ['default', 'acts', 'nobn', 'drop', 'nodrop', 'valid', 'dilation', 'name', 'kernel_initializer', 'bias_initializer', 'kernel_regularizer', 'bias_regularizer', 'kernel_constraint', 'bias_constraint', 'noshape']


def k_presetopt(ck, c):
    """the options of the named networks reach the layers; those left out have their documented defaults"""
    name, f, blocks, bneck, kw = NAMED[c['i']]
    opt = c['opt']
    v, td = bneck is None, f[:2] == 'TD'
    if opt == 'valid' and (not v or td) or opt == 'dilation' and not td or opt == 'noshape' and td:
        return
    F, N = mods()
    import keras
    from mc import fakekeras
    kw = dict(kw)
    hid, out, bn_, pad, dil, size = 'relu', 'softmax' if v else 'linear', True, 'same', [1] * 5, kw['input_shape']
    cd, fd = 0, (0.5 if v else 0)
    if opt == 'acts':
        hid, out = 'tanh', 'sigmoid'
        kw.update(hidden_activation=hid, output_activation=out)
    if opt == 'nobn':
        bn_ = kw['use_batchnorm'] = False
    if opt == 'drop':
        if v:
            kw.update(conv_dropout_rate=0.1, fc_dropout_rate=0.2)
            cd, fd = 0.1, 0.2
        else:
            cd = kw['dropout_rate'] = 0.1
    if opt == 'nodrop' and v:
        fd = kw['fc_dropout_rate'] = 0
    if opt == 'valid':
        pad = 'valid'
        size = (300, 300, 3)
        kw.update(padding='valid', input_shape=size)
    if opt == 'dilation':
        kw.update(dilation_rate=2, dilation_rate_factor=3)
        dil = [2 + 3 * i for i in range(5)]
    if opt == 'noshape':
        size = (224, 224, 3)
        del kw['input_shape']
    if opt == 'name':
        name = kw['name'] = 'abc'
    cfg = dict(kernel_initializer='ones', bias_initializer='ones', kernel_regularizer=keras.regularizers.l2(0.25), bias_regularizer=keras.regularizers.l2(0.125), kernel_constraint='non_neg', bias_constraint='non_neg')
    if opt in cfg:
        kw[opt] = cfg[opt]
    fakekeras.NO_WEIGHTS[0] = True
    try:
        m = getattr(N['vggm' if v else 'resm'], f)(5, **kw)
    finally:
        fakekeras.NO_WEIGHTS[0] = False
    what = '%s with %s' % (f, opt)
    ls = [getattr(l, 'layer', l) for l in m.layers]
    kind = lambda l: type(l).__name__
    ck.eq(m.name, name, what + ': name')
    ck.eq([tuple(x._keras_shape[1:]) for x in m.inputs], [size], what + ': input shape')
    ck.eq(sorted(set(l.activation.__name__ for l in ls if kind(l) == 'Activation')), sorted({hid, out}), what + ': activations')
    ck.eq(m.outputs[0]._keras_shape[-1], 5, what + ': outputs')
    ck.eq(any(kind(l) == 'BatchNormalization' for l in ls), bn_, what + ': normalization')
    n = sum(blocks) if v else 1 + sum(blocks) * (3 if bneck else 2)
    ck.eq(sorted(l.rate for l in ls if kind(l) == 'Dropout'), sorted(([cd] * n if cd else []) + ([fd] * 2 if fd and v else [])), what + ': dropout')
    cv = [l for l in ls if hasattr(l, 'filters')]
    ck.eq(sorted(set(l.padding for l in cv)), [pad], what + ': padding')
    ck.eq(sorted(l.dilation_rate for l in cv), sorted((d, 1) for d, b in zip(dil, blocks) for _ in range(b)) if v else [(1, 1)] * len(cv), what + ': dilation')
    import mc.fakekeras as K
    for l in ls:
        if not hasattr(l, 'kernel_constraint'):
            continue
        for q in ('kernel', 'bias'):
            i = getattr(l, q + '_initializer')
            ck.eq(kind(i) == kind(K._registry(K.INIT)[0]('ones')) , opt == q + '_initializer', '%s: first %s of %s' % (what, q, l.name))
            r = getattr(l, q + '_regularizer')
            ck.eq(None if r is None else r.get_config()['l2'], None if opt != q + '_regularizer' else (0.25 if q == 'kernel' else 0.125), '%s: %s regularizer of %s' % (what, q, l.name))
            ck.eq(getattr(l, q + '_constraint') is not None, opt == q + '_constraint', '%s: %s constraint of %s' % (what, q, l.name))
    ck.step()
    ck.state((f, opt))
