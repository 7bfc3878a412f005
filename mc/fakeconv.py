"""Stand-ins (numpy) for the convolutional layers of Keras, with the padding rules of its TensorFlow backend.

Dropout is made visible: in the training phase it multiplies by a factor that depends on its rate and kind."""
import numpy as np
from mc import fakekeras as F
from mc.fakekeras import Layer, InputSpec, ten, act_get, _registry, INIT, REG, CON

PHASE = [0]


def _two(v): return (v, v) if np.ndim(v) == 0 else tuple(v)


def out_len(n, k, s, d, pad):
    if n is None:
        return None
    e = (k - 1) * d + 1
    if pad in ('same', 'causal'):
        return -(-n // s)
    if n < e:
        raise ValueError('Negative dimension size: kernel %d on %d' % (e, n))
    return (n - e) // s + 1


def taps(n, k, s, d, pad):
    """indices (out, k) of the input taps; -1 for padding"""
    o = out_len(n, k, s, d, pad)
    left = 0
    if pad == 'same':
        left = max((o - 1) * s + (k - 1) * d + 1 - n, 0) // 2
    elif pad == 'causal':
        left = (k - 1) * d
    i = np.arange(o)[:, None] * s + np.arange(k)[None] * d - left
    return np.where((i < 0) | (i >= n), -1, i)


class _Conv(Layer):
    nd = 1

    def __init__(self, filters, kernel_size, strides=1, padding='valid', data_format=None, dilation_rate=1, activation=None, use_bias=True,
                 kernel_initializer='glorot_uniform', bias_initializer='zeros', kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None,
                 kernel_constraint=None, bias_constraint=None, **kw):
        Layer.__init__(self, **kw)
        up = (lambda v: ((v if np.ndim(v) == 0 else tuple(v)[0]), 1)) if self.nd == 1 else _two
        self.filters = int(filters)
        self.kernel_size, self.strides, self.dilation_rate = up(kernel_size), up(strides), up(dilation_rate)
        assert len(self.kernel_size) == len(self.strides) == len(self.dilation_rate) == 2
        if max(self.strides) > 1 and max(self.dilation_rate) > 1:
            raise ValueError('strides > 1 not supported in conjunction with dilation_rate > 1')
        if padding not in (('valid', 'same', 'causal') if self.nd == 1 else ('valid', 'same')):
            raise ValueError('bad padding %s' % padding)
        self.padding = padding
        self.activation = act_get(activation)
        self.use_bias = use_bias
        gi, gr, gc = (_registry(t)[0] for t in (INIT, REG, CON))
        self.kernel_initializer, self.bias_initializer = gi(kernel_initializer), gi(bias_initializer)
        self.kernel_regularizer, self.bias_regularizer = gr(kernel_regularizer), gr(bias_regularizer)
        self.kernel_constraint, self.bias_constraint = gc(kernel_constraint), gc(bias_constraint)
        self.input_spec = InputSpec(ndim=self.nd + 2)

    def kshape(self, c):
        return (self.kernel_size[:1] if self.nd == 1 else self.kernel_size) + (c, self.filters)

    def build(self, s):
        if s[-1] is None:
            raise ValueError('The channel dimension should be defined')
        self.kernel = self.add_weight(shape=self.kshape(s[-1]), initializer=self.kernel_initializer, name='kernel')
        self.bias = self.add_weight(shape=(self.filters,), initializer=self.bias_initializer, name='bias') if self.use_bias else None
        self.input_spec = InputSpec(ndim=self.nd + 2, axes={-1: s[-1]})
        self.built = True

    def call(self, x, mask=None):
        x = np.asarray(x)
        W = np.asarray(self.kernel)
        if self.nd == 1:
            x, W = x[:, :, None], W[:, None]
        pads = (self.padding, 'valid' if self.nd == 1 else self.padding)
        for a in (1, 2):
            t = taps(x.shape[a], self.kernel_size[a - 1], self.strides[a - 1], self.dilation_rate[a - 1], pads[a - 1])
            z = np.zeros([1 if i == a else n for i, n in enumerate(x.shape)], x.dtype)
            x = np.take(np.concatenate([x, z], axis=a), t, axis=a)   # B, O1, K1, O2, K2, C after both
            if a == 1:
                x = np.moveaxis(x, 2, -1)                            # B, O1, N2, C, K1
        x = np.moveaxis(x, -1, 2)                                    # B, O1, K1, O2, K2, C
        y = np.einsum('bikjlc,klco->bijo', x, W)
        if self.use_bias:
            y = y + np.asarray(self.bias)
        if self.nd == 1:
            y = y[:, :, 0]
        return ten(self.activation(ten(y)))

    def compute_output_shape(self, s):
        return (s[0],) + tuple(out_len(n, k, st, d, self.padding) for n, k, st, d in zip(s[1:-1], self.kernel_size, self.strides, self.dilation_rate)) + (self.filters,)


class Conv1D(_Conv):
    pass


class Conv2D(_Conv):
    nd = 2


class Conv2DTranspose(_Conv):
    """strides of one"""
    nd = 2

    def kshape(self, c): return self.kernel_size + (self.filters, c)

    def _geo(self, n, k, d):
        e = (k - 1) * d
        return (n, e // 2) if self.padding == 'same' else (n + e, 0)

    def call(self, x, mask=None):
        assert self.strides == (1, 1)
        x, W = np.asarray(x), np.asarray(self.kernel)
        (o1, p1), (o2, p2) = (self._geo(x.shape[a + 1], self.kernel_size[a], self.dilation_rate[a]) for a in (0, 1))
        y = np.zeros((len(x), o1, o2, self.filters), x.dtype)
        for k in range(W.shape[0]):
            for l in range(W.shape[1]):
                for i in range(x.shape[1]):
                    for j in range(x.shape[2]):
                        a, b = i + k * self.dilation_rate[0] - p1, j + l * self.dilation_rate[1] - p2
                        if 0 <= a < o1 and 0 <= b < o2:
                            y[:, a, b] += np.dot(x[:, i, j], W[k, l].T)
        if self.use_bias:
            y = y + np.asarray(self.bias)
        return ten(self.activation(ten(y)))

    def compute_output_shape(self, s):
        return (s[0],) + tuple(None if s[a + 1] is None else self._geo(s[a + 1], self.kernel_size[a], self.dilation_rate[a])[0] for a in (0, 1)) + (self.filters,)


class MaxPooling2D(Layer):
    def __init__(self, pool_size=(2, 2), strides=None, padding='valid', data_format=None, **kw):
        Layer.__init__(self, **kw)
        self.pool_size = _two(pool_size)
        self.strides = self.pool_size if strides is None else _two(strides)
        self.padding = padding
        self.input_spec = InputSpec(ndim=4)

    def call(self, x, mask=None):
        x = np.asarray(x)
        for a in (1, 2):
            t = taps(x.shape[a], self.pool_size[a - 1], self.strides[a - 1], 1, self.padding)
            z = np.full([1 if i == a else n for i, n in enumerate(x.shape)], -np.inf, x.dtype)
            x = np.take(np.concatenate([x, z], axis=a), t, axis=a).max(axis=a + 1)
        return ten(x)

    def compute_output_shape(self, s):
        return (s[0],) + tuple(out_len(n, k, st, 1, self.padding) for n, k, st in zip(s[1:-1], self.pool_size, self.strides)) + (s[-1],)


class GlobalAveragePooling2D(Layer):
    def call(self, x, mask=None): return ten(np.asarray(x).mean(axis=(1, 2)))

    def compute_output_shape(self, s): return (s[0], s[-1])


class BatchNormalization(Layer):
    def __init__(self, axis=-1, momentum=0.99, epsilon=1e-3, center=True, scale=True, **kw):
        Layer.__init__(self, **kw)
        assert axis == -1
        self.epsilon, self.center, self.scale = epsilon, center, scale

    def build(self, s):
        n = (s[-1],)
        self.gamma = self.add_weight(shape=n, initializer='ones', name='gamma') if self.scale else 1.
        self.beta = self.add_weight(shape=n, initializer='zeros', name='beta') if self.center else 0.
        self.mean = self.add_weight(shape=n, initializer='zeros', name='moving_mean')
        self.var = self.add_weight(shape=n, initializer='ones', name='moving_variance')
        self.built = True

    def call(self, x, mask=None):
        return ten((np.asarray(x) - self.mean) / np.sqrt(np.asarray(self.var) + self.epsilon) * self.gamma + self.beta)


class Dropout(Layer):
    factor = 1.

    def __init__(self, rate, noise_shape=None, seed=None, **kw):
        Layer.__init__(self, **kw)
        self.rate = rate

    def call(self, x, mask=None):
        return ten(np.asarray(x) * (1 + self.factor * self.rate)) if PHASE[0] else ten(x)


class SpatialDropout1D(Dropout):
    factor = 3.

    def __init__(self, rate, **kw):
        Dropout.__init__(self, rate, **kw)
        self.input_spec = InputSpec(ndim=3)


class TimeDistributed(Layer):
    def __init__(self, layer, **kw):
        Layer.__init__(self, **kw)
        self.layer = layer
        self.input_spec = InputSpec(min_ndim=3)

    def build(self, s):
        s = (s[0],) + tuple(s[2:])
        if not self.layer.built:
            self.layer.build(s)
            self.layer.built = True
        self.built = True

    def get_weights(self): return self.layer.get_weights()

    def set_weights(self, w): self.layer.set_weights(w)

    def call(self, x, mask=None):
        x = np.asarray(x)
        y = np.asarray(self.layer.call(ten(x.reshape((-1,) + x.shape[2:]))))
        return ten(y.reshape(x.shape[:2] + y.shape[1:]))

    def compute_output_shape(self, s):
        o = self.layer.compute_output_shape((s[0],) + tuple(s[2:]))
        return (o[0], s[1]) + tuple(o[1:])


NAMES = 'Conv1D Conv2D Conv2DTranspose MaxPooling2D GlobalAveragePooling2D BatchNormalization Dropout SpatialDropout1D TimeDistributed'.split()
