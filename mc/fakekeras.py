"""A stand-in for Keras 2 on numpy (Keras is not installed): the backend functions, the functional API
(symbolic tensors, layers, models, saved models) and the few stock layers that the networks of the repository use.
The backend follows the reference semantics of the documentation (Keras itself ships such a numpy backend for its
tests).  Everything is evaluated in float64."""
import json
import math
import pickle
import sys
import types
import numpy as np

EPS = 1e-7
NOISE = [None]            # function(shape, kind) -> array, set by the checks
CALLS = []                # requests of noise


class T(np.ndarray):
    """a tensor: an array that, like a tensor of TensorFlow, is indexed with lists of slices too"""

    def __getitem__(self, i):
        if isinstance(i, list) and any(isinstance(j, slice) for j in i):
            i = tuple(i)
        r = np.ndarray.__getitem__(self, i)
        return r


def ten(x, dtype=None):
    x = np.asarray(x)
    if x.dtype.kind == 'f':
        x = x.astype(np.float64)
    return x.view(T)


def build_backend(kind='tensorflow'):
    K = types.ModuleType('keras.backend')
    K.backend = lambda: kind
    K.floatx = lambda: 'float32'
    K.epsilon = lambda: EPS
    K.cast_to_floatx = lambda x: np.float64(x)
    K.ndim = lambda x: len(shp(x))
    K.shape = lambda x: shp(x)
    K.int_shape = lambda x: shp(x)

    def ax(a):
        return tuple(a) if isinstance(a, list) else a

    def red(f):
        def g(x, axis=None, keepdims=False):
            return ten(f(np.asarray(x), axis=ax(axis), keepdims=keepdims))
        return g
    for n, f in (('mean', np.mean), ('sum', np.sum), ('max', np.max), ('min', np.min), ('any', np.any), ('all', np.all), ('prod', np.prod)):
        setattr(K, n, red(f))
    for n, f in (('sqrt', lambda x: np.sqrt(np.clip(x, 0, np.inf))), ('log', np.log), ('exp', np.exp), ('abs', np.abs), ('square', np.square), ('transpose', np.transpose),
                 ('sigmoid', lambda x: 1 / (1 + np.exp(-np.asarray(x)))), ('relu', lambda x: np.maximum(x, 0)), ('tanh', np.tanh)):
        setattr(K, n, (lambda f: lambda x: ten(f(np.asarray(x))))(f))

    def softmax(x, axis=-1):
        x = np.asarray(x)
        y = np.exp(x - np.max(x, axis=axis, keepdims=True))
        return ten(y / np.sum(y, axis=axis, keepdims=True))
    K.softmax = softmax

    def clip(x, lo, hi):
        if hi is not None and lo is not None and np.ndim(hi) == 0 and np.ndim(lo) == 0 and hi < lo:
            hi = lo
        return ten(np.clip(np.asarray(x), -np.inf if lo is None else lo, np.inf if hi is None else hi))
    K.clip = clip
    K.not_equal = lambda x, y: ten(np.not_equal(x, y))
    K.equal = lambda x, y: ten(np.equal(x, y))
    K.maximum = lambda x, y: ten(np.maximum(x, y))
    K.cast = lambda x, d: ten(np.asarray(x).astype(np.float64 if str(d).startswith('float') else d))
    K.expand_dims = lambda x, axis=-1: ten(np.expand_dims(x, axis))
    K.squeeze = lambda x, axis: ten(np.squeeze(x, axis))
    K.repeat_elements = lambda x, rep, axis: ten(np.repeat(x, rep, axis))
    K.concatenate = lambda xs, axis=-1: ten(np.concatenate([np.asarray(x) for x in xs], axis))
    K.stack = lambda xs, axis=0: ten(np.stack(xs, axis))
    K.reshape = lambda x, s: ten(np.reshape(x, tuple(int(i) for i in s)))
    K.permute_dimensions = lambda x, p: ten(np.transpose(x, p))
    K.eye = lambda n, dtype=None, name=None: ten(np.eye(n))
    K.dot = lambda x, y: ten(np.dot(x, y))
    K.bias_add = lambda x, b: ten(np.asarray(x) + np.asarray(b).reshape((1,) * (np.ndim(x) - 1) + (-1,)))
    K.variable = lambda v, dtype=None, name=None, constraint=None: ten(v)
    K.constant = lambda v, dtype=None, shape=None, name=None: ten(v)
    K.zeros_like = lambda x: ten(np.zeros_like(x))
    K.ones_like = lambda x: ten(np.ones_like(x))

    def tile(x, n):
        n = (n,) if isinstance(n, int) else tuple(n)
        if len(n) < np.ndim(x):
            raise ValueError('tile: %d repetitions for %d axes' % (len(n), np.ndim(x)))
        return ten(np.tile(x, n))
    K.tile = tile

    def batch_dot(x, y, axes=None):
        x, y = np.asarray(x), np.asarray(y)
        if isinstance(axes, int):
            axes = (axes, axes)
        if axes is None:
            axes = (x.ndim - 1, y.ndim - 2) if y.ndim > 2 else (x.ndim - 1, y.ndim - 1)
        if 0 in axes:
            raise ValueError('axis 0 is the batch')
        assert len(x) == len(y), 'batch_dot of different batches'
        r = [np.tensordot(a, b, axes=([axes[0] - 1], [axes[1] - 1])) for a, b in zip(x, y)]
        r = np.asarray(r)
        return ten(r[:, None] if r.ndim == 1 else r)
    K.batch_dot = batch_dot
    K.map_fn = lambda f, xs, name=None, dtype=None: ten(np.stack([np.asarray(f(ten(x))) for x in np.asarray(xs)]))

    def noise(kind):
        def g(shape, mean=0., stddev=1., minval=0., maxval=1., dtype=None, seed=None):
            CALLS.append((kind, tuple(shape)))
            e = np.asarray(NOISE[0](tuple(shape), kind), float)
            assert e.shape == tuple(shape)
            return ten(mean + stddev * e if kind == 'normal' else minval + (maxval - minval) * e)
        return g
    K.random_normal, K.random_uniform = noise('normal'), noise('uniform')

    def cce(target, output, from_logits=False):
        t, o = np.asarray(target, float), np.asarray(output, float)
        if from_logits:
            o = np.asarray(softmax(o))
        o = np.clip(o / np.sum(o, axis=-1, keepdims=True), EPS, 1 - EPS)
        return ten(-np.sum(t * np.log(o), axis=-1))
    K.categorical_crossentropy = cce

    def bce(target, output, from_logits=False):
        t, o = np.asarray(target, float), np.asarray(output, float)
        if from_logits:
            o = 1 / (1 + np.exp(-o))
        o = np.clip(o, EPS, 1 - EPS)
        return ten(-(t * np.log(o) + (1 - t) * np.log(1 - o)))
    K.binary_crossentropy = bce
    K.learning_phase = lambda: 0
    more(K)
    return K


def more(K):
    """the rest of the backend, for rewritten layers"""
    A = np.asarray
    for n in 'minimum greater greater_equal less less_equal'.split():
        setattr(K, n, (lambda f: lambda x, y: ten(f(A(x), A(y))))(getattr(np, n)))
    for n, f in (('sign', np.sign), ('round', np.round), ('sin', np.sin), ('cos', np.cos), ('softplus', lambda x: np.logaddexp(0, x)), ('softsign', lambda x: x / (1 + np.abs(x))),
                 ('hard_sigmoid', lambda x: np.clip(0.2 * x + 0.5, 0, 1)), ('identity', np.copy), ('stop_gradient', np.copy), ('flatten', np.ravel),
                 ('batch_flatten', lambda x: x.reshape(len(x), -1))):
        setattr(K, n, (lambda f: lambda x, *a, **k: ten(f(A(x))))(f))
    for n in ('var', 'std'):
        setattr(K, n, (lambda f: lambda x, axis=None, keepdims=False: ten(f(A(x), axis=tuple(axis) if isinstance(axis, list) else axis, keepdims=keepdims)))(getattr(np, n)))
    for n in ('argmax', 'argmin'):
        setattr(K, n, (lambda f: lambda x, axis=-1: ten(f(A(x), axis=axis)))(getattr(np, n)))
    for n in ('cumsum', 'cumprod'):
        setattr(K, n, (lambda f: lambda x, axis=0: ten(f(A(x), axis=axis)))(getattr(np, n)))

    def logsumexp(x, axis=None, keepdims=False):
        x = A(x)
        a = tuple(axis) if isinstance(axis, list) else axis
        m = np.max(x, axis=a, keepdims=True)
        r = m + np.log(np.sum(np.exp(x - m), axis=a, keepdims=True))
        return ten(r if keepdims else np.squeeze(r, axis=a))
    K.logsumexp = logsumexp
    K.pow = lambda x, a: ten(A(x) ** a)
    K.elu = lambda x, alpha=1.0: ten(np.where(A(x) > 0, x, alpha * (np.exp(A(x)) - 1)))
    K.zeros = lambda shape, dtype=None, name=None: ten(np.zeros(shape))
    K.ones = lambda shape, dtype=None, name=None: ten(np.ones(shape))
    K.arange = lambda start, stop=None, step=1, dtype='int32': ten(np.arange(start, stop, step) if stop is not None else np.arange(0, start, step))
    K.one_hot = lambda i, n: ten(np.eye(n)[A(i).astype(int)])
    K.l2_normalize = lambda x, axis=None: ten(A(x) / np.sqrt(np.maximum(np.sum(A(x) ** 2, axis=axis, keepdims=True), 1e-12)))
    K.gather = lambda x, i: ten(A(x)[A(i).astype(int)])
    K.reverse = lambda x, axes: ten(np.flip(A(x), axes))
    K.repeat = lambda x, n: ten(np.repeat(A(x)[:, None], n, axis=1))
    K.temporal_padding = lambda x, padding=(1, 1): ten(np.pad(A(x), ((0, 0), tuple(padding), (0, 0)), 'constant'))
    K.switch = lambda c, a, b: ten(np.where(A(c).reshape(np.shape(c) + (1,) * (max(np.ndim(a() if callable(a) else a), np.ndim(c)) - np.ndim(c))), a() if callable(a) else a, b() if callable(b) else b))
    K.dtype = lambda x: 'float32'
    K.eval = lambda x: A(x)
    K.count_params = lambda x: int(np.size(x))
    K.in_train_phase = lambda x, alt, training=None: (x if training else alt)() if callable(x if training else alt) else (x if training else alt)
    K.in_test_phase = lambda x, alt, training=None: (alt if training else x)() if callable(alt if training else x) else (alt if training else x)
    K.print_tensor = lambda x, message='': x
    K.set_epsilon = lambda e: None
    K.image_data_format = lambda: 'channels_last'
    K.is_sparse = lambda x: False
    K.foldl = lambda f, xs, initializer=None, name=None: _fold(f, list(xs), initializer)
    K.foldr = lambda f, xs, initializer=None, name=None: _fold(f, list(xs)[::-1], initializer)


def _fold(f, xs, acc):
    if acc is None:
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = f(acc, x)
    return acc


# ---------------------------------------------------------------- objects by name

class _Obj(object):
    def __init__(self, **kw):
        self.kw = kw

    def get_config(self):
        return dict(self.kw)

    @classmethod
    def from_config(cls, c):
        return cls(**c)


def _det(shape, name):
    """deterministic values between -1 and 1"""
    n = int(np.prod(shape)) if shape else 1
    return ((np.arange(n) * 0.6180339887 + 0.37 + len(name) * 0.11) % 1.0 * 2 - 1).reshape(shape)


class Zeros(_Obj):
    def __call__(self, shape): return np.zeros(shape)


class Ones(_Obj):
    def __call__(self, shape): return np.ones(shape)


class Identity(_Obj):
    def __init__(self, gain=1.):
        _Obj.__init__(self, gain=gain)

    def __call__(self, shape): return self.kw['gain'] * np.eye(shape[0])


class Constant(_Obj):
    def __init__(self, value=0):
        _Obj.__init__(self, value=value)

    def __call__(self, shape): return np.full(shape, float(self.kw['value']))


class RandomNormal(_Obj):
    def __init__(self, mean=0., stddev=0.05, seed=None):
        _Obj.__init__(self, mean=mean, stddev=stddev, seed=seed)

    def __call__(self, shape): return self.kw['mean'] + self.kw['stddev'] * _det(shape, 'rn')


class TruncatedNormal(RandomNormal):
    pass


class VarianceScaling(_Obj):
    def __init__(self, scale=1., mode='fan_in', distribution='normal', seed=None):
        _Obj.__init__(self, scale=scale, mode=mode, distribution=distribution, seed=seed)

    def __call__(self, shape): return _det(shape, 'vs')


def _glorot(): return VarianceScaling(1., 'fan_avg', 'uniform')


class L1L2(_Obj):
    def __init__(self, l1=0., l2=0.):
        _Obj.__init__(self, l1=float(l1), l2=float(l2))


class Constraint(object):
    def __call__(self, w): return w

    def get_config(self): return {}


class NonNeg(Constraint):
    def __call__(self, w): return w * (np.asarray(w) >= 0)


class MaxNorm(Constraint):
    def __init__(self, max_value=2, axis=0):
        self.max_value, self.axis = max_value, axis

    def get_config(self): return dict(max_value=self.max_value, axis=self.axis)


def _registry(table):
    def serialize(o):
        if o is None:
            return None
        if hasattr(o, 'get_config'):
            return {'class_name': type(o).__name__, 'config': o.get_config()}
        return o.__name__

    def get(o):
        if o is None:
            return None
        if isinstance(o, dict):
            return table[o['class_name']](**o['config'])
        if isinstance(o, str):
            if o not in table:
                raise ValueError('Unknown: %s' % o)
            return table[o]()
        if callable(o) or isinstance(o, L1L2):
            return o
        raise ValueError('Could not interpret %s' % (o,))
    return get, serialize


INIT = dict(Zeros=Zeros, zeros=Zeros, zero=Zeros, Ones=Ones, ones=Ones, Identity=Identity, identity=Identity, Constant=Constant, RandomNormal=RandomNormal, normal=RandomNormal,
            TruncatedNormal=TruncatedNormal, VarianceScaling=VarianceScaling, glorot_uniform=_glorot)
REG = dict(L1L2=L1L2, l2=lambda: L1L2(l2=0.01), l1=lambda: L1L2(l1=0.01))
CON = dict(NonNeg=NonNeg, non_neg=NonNeg, nonneg=NonNeg, MaxNorm=MaxNorm, max_norm=MaxNorm)


def _linear(x): return x
def _relu(x): return ten(np.maximum(x, 0))
def _sigmoid(x): return ten(1 / (1 + np.exp(-np.asarray(x))))
def _tanh(x): return ten(np.tanh(x))


def _softmax(x):
    x = np.asarray(x)
    y = np.exp(x - np.max(x, axis=-1, keepdims=True))
    return ten(y / np.sum(y, axis=-1, keepdims=True))


ACT = {}
for _n, _f in (('linear', _linear), ('relu', _relu), ('sigmoid', _sigmoid), ('tanh', _tanh), ('softmax', _softmax)):
    _f.__name__ = _n
    ACT[_n] = _f


def act_get(o):
    if o is None:
        return ACT['linear']
    if isinstance(o, str):
        return ACT[o]
    assert callable(o)
    return o


# ---------------------------------------------------------------- layers

class InputSpec(object):
    def __init__(self, dtype=None, shape=None, ndim=None, max_ndim=None, min_ndim=None, axes=None):
        self.dtype, self.shape, self.max_ndim, self.min_ndim, self.axes = dtype, shape, max_ndim, min_ndim, axes or {}
        self.ndim = len(shape) if shape is not None else ndim


class Sym(object):
    def __init__(self, layer, node, index, shape):
        self.layer, self.node, self.index = layer, node, index
        self._keras_shape = tuple(shape)

    def get_shape(self):
        return self._keras_shape


class Node(object):
    def __init__(self, layer, inputs, single, outputs, single_out):
        self.layer, self.inputs, self.single, self.outputs, self.single_out = layer, inputs, single, outputs, single_out


_UID = {}
KW = {'input_shape', 'batch_input_shape', 'batch_size', 'dtype', 'name', 'trainable', 'weights', 'input_dtype'}


def tolist(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def shp(x):
    return x._keras_shape if isinstance(x, Sym) else tuple(np.shape(x))


NO_WEIGHTS = [False]     # layers without memory for their weights: only shapes


class Layer(object):
    def __init__(self, **kwargs):
        self.input_spec = None
        self.supports_masking = False
        self.stateful = False
        self._trainable_weights = []
        self._weights = []
        self._inbound_nodes = []
        self._outbound_nodes = []
        self.built = False
        for k in kwargs:
            if k not in KW:
                raise TypeError('Keyword argument not understood:', k)
        name = kwargs.get('name')
        if not name:
            p = type(self).__name__.lower()
            _UID[p] = _UID.get(p, 0) + 1
            name = '%s_%d' % (p, _UID[p])
        self.name = name
        self.trainable = kwargs.get('trainable', True)
        if 'batch_input_shape' in kwargs:
            self.batch_input_shape = tuple(kwargs['batch_input_shape'])
        elif 'input_shape' in kwargs:
            self.batch_input_shape = (kwargs.get('batch_size'),) + tuple(kwargs['input_shape'])
        self._initial_weights = kwargs.get('weights')

    def add_weight(self, *args, **kw):
        # Keras 2 with its support of the old signature (shape, initializer=, name=)
        args = list(args)
        if args and isinstance(args[0], (tuple, list)):
            kw['shape'] = args.pop(0)
            if args:
                kw['initializer'] = args.pop(0)
        elif args:
            kw['name'] = args.pop(0)
            if args:
                kw['shape'] = args.pop(0)
        assert not args, 'unsupported use of add_weight'
        extra = set(kw) - {'name', 'shape', 'dtype', 'initializer', 'regularizer', 'trainable', 'constraint'}
        if extra:
            raise TypeError('add_weight: %s' % extra)
        ini = _registry(INIT)[0](kw.get('initializer'))
        if NO_WEIGHTS[0]:
            w = np.broadcast_to(np.float32(0), tuple(kw['shape']))
        else:
            w = ten(ini(tuple(kw['shape'])))
        self._weights.append(w)
        return w

    def get_weights(self):
        return [np.array(w) for w in self._weights]

    def set_weights(self, ws):
        if len(ws) != len(self._weights):
            raise ValueError('set_weights: %d weights for %d' % (len(ws), len(self._weights)))
        for w, v in zip(self._weights, ws):
            if w.shape != np.shape(v):
                raise ValueError('set_weights: shape %s for %s' % (np.shape(v), w.shape))
            w[...] = v

    def build(self, input_shape):
        self.built = True

    def call(self, inputs, **kw):
        return inputs

    def compute_output_shape(self, input_shape):
        return input_shape

    def compute_mask(self, inputs, mask=None):
        return mask

    def get_config(self):
        c = {'name': self.name, 'trainable': self.trainable}
        if hasattr(self, 'batch_input_shape'):
            c['batch_input_shape'] = self.batch_input_shape
        return c

    @classmethod
    def from_config(cls, config):
        return cls(**config)

    def assert_input_compatibility(self, inputs):
        if not self.input_spec:
            return
        spec, ins = tolist(self.input_spec), tolist(inputs)
        if len(ins) != len(spec):
            raise ValueError('Layer %s expects %d inputs, but it received %d input tensors' % (self.name, len(spec), len(ins)))
        for x, s in zip(ins, spec):
            if s is None:
                continue
            sh = shp(x)
            if s.ndim is not None and len(sh) != s.ndim:
                raise ValueError('%s: expected ndim=%d, found %s' % (self.name, s.ndim, sh))
            if s.max_ndim is not None and len(sh) > s.max_ndim or s.min_ndim is not None and len(sh) < s.min_ndim:
                raise ValueError('%s: bad ndim, found %s' % (self.name, sh))
            for a, v in s.axes.items():
                if v is not None and sh[int(a)] not in (v, None):
                    raise ValueError('%s: axis %d should be %s, found %s' % (self.name, a, v, sh))
            if s.shape is not None:
                for v, d in zip(s.shape, sh):
                    if v is not None and d is not None and v != d:
                        raise ValueError('%s: expected shape %s, found %s' % (self.name, s.shape, sh))

    def _prepare(self, inputs):
        self.assert_input_compatibility(inputs)
        if not self.built:
            s = [shp(x) for x in tolist(inputs)]
            self.build(s if isinstance(inputs, (list, tuple)) else s[0])
            self.built = True
            if getattr(self, '_initial_weights', None) is not None:
                self.set_weights(self._initial_weights)
                self._initial_weights = None

    def __call__(self, inputs, **kw):
        ins = tolist(inputs)
        self._prepare(inputs)
        if not any(isinstance(x, Sym) for x in ins):
            v = [ten(x) for x in ins]
            return self.call(v if isinstance(inputs, (list, tuple)) else v[0], **kw)
        assert all(isinstance(x, Sym) for x in ins) and not kw
        s = [shp(x) for x in ins]
        single = not isinstance(inputs, (list, tuple))
        o = self.compute_output_shape(s[0] if single else s)
        many = isinstance(o, list)
        node = Node(self, ins, single, [], not many)
        node.outputs = [Sym(self, node, i, q) for i, q in enumerate(o if many else [o])]
        self._inbound_nodes.append(node)
        return node.outputs if many else node.outputs[0]

    # nodes
    def _at(self, i, what):
        n = self._inbound_nodes[i]
        xs, single = (n.inputs, n.single) if what == 'in' else (n.outputs, n.single_out)
        return xs[0] if single or len(xs) == 1 else list(xs)

    def get_input_at(self, i): return self._at(i, 'in')
    def get_output_at(self, i): return self._at(i, 'out')

    def get_input_shape_at(self, i):
        x = self._at(i, 'in')
        return [y._keras_shape for y in x] if isinstance(x, list) else x._keras_shape

    def get_output_shape_at(self, i):
        x = self._at(i, 'out')
        return [y._keras_shape for y in x] if isinstance(x, list) else x._keras_shape

    @property
    def input(self): return self.get_input_at(0)

    @property
    def output(self): return self.get_output_at(0)


class InputLayer(Layer):
    def __init__(self, batch_input_shape=None, name=None, dtype=None, sparse=False, trainable=False):
        Layer.__init__(self, name=name)
        self.batch_input_shape = tuple(batch_input_shape)
        self.built = True
        node = Node(self, [], True, [], True)
        node.outputs = [Sym(self, node, 0, self.batch_input_shape)]
        node.inputs = node.outputs
        self._inbound_nodes.append(node)

    def get_config(self):
        return {'batch_input_shape': self.batch_input_shape, 'name': self.name}


def Input(shape=None, batch_shape=None, name=None, dtype=None, sparse=False, tensor=None):
    if batch_shape is None:
        batch_shape = (None,) + tuple(shape)
    return InputLayer(batch_shape, name=name or None).get_output_at(0)


class ShapeMismatch(Exception):
    pass


def fits(shape, value):
    return len(shape) == np.ndim(value) and all(a is None or a == b for a, b in zip(shape, np.shape(value)))


class Model(Layer):
    def __init__(self, inputs=None, outputs=None, name=None, **legacy):
        if 'input' in legacy:
            inputs = legacy.pop('input')
        if 'output' in legacy:
            outputs = legacy.pop('output')
        if legacy:
            raise TypeError('Model: %s' % legacy)
        Layer.__init__(self, name=name)
        self.inputs, self.outputs = tolist(inputs), tolist(outputs)
        assert all(isinstance(x, Sym) for x in self.inputs + self.outputs), 'tensors of the graph expected'
        self._single_in, self._single_out = not isinstance(inputs, (list, tuple)), not isinstance(outputs, (list, tuple))
        self.nodes = []          # topological order
        self.layers = []
        seen = set()

        def walk(s):
            if id(s.node) in seen:
                return
            if any(s is x for x in self.inputs):
                if s.layer not in self.layers:
                    self.layers.append(s.layer)
                return
            if isinstance(s.layer, InputLayer):
                raise ValueError('Graph disconnected: %s' % s.layer.name)
            for x in s.node.inputs:
                walk(x)
            if id(s.node) not in seen:
                seen.add(id(s.node))
                self.nodes.append(s.node)
                if s.layer not in self.layers:
                    self.layers.append(s.layer)
        for o in self.outputs:
            walk(o)
        names = [l.name for l in self.layers]
        if len(set(names)) != len(names):
            raise ValueError('The name is used twice: %s' % names)
        self.built = True
        node = Node(self, self.inputs, self._single_in and len(self.inputs) == 1, self.outputs, self._single_out and len(self.outputs) == 1)
        self._inbound_nodes.append(node)
        self.compiled = None

    @property
    def output_names(self): return [o.layer.name for o in self.outputs]

    def get_layer(self, name=None, index=None):
        if index is not None:
            return self.layers[index]
        for l in self.layers:
            if l.name == name:
                return l
        raise ValueError('No such layer: %s' % name)

    def _run(self, vals, fn):
        env = {id(x): v for x, v in zip(self.inputs, vals)}
        for n in self.nodes:
            ins = [env[id(x)] for x in n.inputs]
            outs = fn(n, ins[0] if n.single else ins)
            outs = list(outs) if isinstance(outs, list) else [outs]
            if len(outs) != len(n.outputs):
                raise ShapeMismatch('%s: %d outputs, %d announced' % (n.layer.name, len(outs), len(n.outputs)))
            for s, v in zip(n.outputs, outs):
                env[id(s)] = v
        return [env[id(o)] for o in self.outputs]

    def compute_output_shape(self, input_shape):
        ins = input_shape if isinstance(input_shape, list) else [input_shape]
        r = self._run([tuple(s) for s in ins], lambda n, x: n.layer.compute_output_shape(x))
        return r[0] if len(r) == 1 else r

    def call(self, inputs, mask=None):
        vals = tolist(inputs) if isinstance(inputs, (list, tuple)) else [inputs]

        def f(n, x):
            out = n.layer.call(x)
            for s, v in zip(n.outputs, out if isinstance(out, list) else [out]):
                sh = n.layer.compute_output_shape([np.shape(y) for y in x] if isinstance(x, list) else np.shape(x))
                sh = sh[s.index] if isinstance(sh, list) else sh
                if not fits(sh, v):
                    raise ShapeMismatch('%s: output of shape %s, announced %s' % (n.layer.name, np.shape(v), sh))
            return out
        r = self._run(vals, f)
        return r[0] if len(r) == 1 else r

    def predict(self, x, batch_size=32, verbose=0, steps=None):
        xs = tolist(x) if isinstance(x, (list, tuple)) else [x]
        if len(xs) != len(self.inputs):
            raise ValueError('Error when checking model: expected %d arrays, got %d' % (len(self.inputs), len(xs)))
        for s, v in zip(self.inputs, xs):
            if not fits((None,) + s._keras_shape[1:], v):
                raise ValueError('Error when checking input: expected %s to have shape %s but got %s' % (s.layer.name, s._keras_shape, np.shape(v)))
        n = len(xs[0])
        if any(len(v) != n for v in xs):
            raise ValueError('All input arrays should have the same number of samples')
        parts = []
        for i in range(0, n, batch_size):
            parts.append(tolist(self.call([ten(v[i:i + batch_size]) for v in xs])))
        outs = [np.concatenate([np.asarray(p[j]) for p in parts]) for j in range(len(self.outputs))]
        return outs[0] if len(outs) == 1 else outs

    def summary(self, *a, **k):
        pass

    def fit(self, x=None, y=None, batch_size=None, epochs=1, validation_data=None, **kw):
        assert self.compiled is not None, 'You must compile a model before training'
        for a, b in ((x, y),) + ((tuple(validation_data[:2]),) if validation_data is not None else ()):
            p, b = tolist(self.predict(a)), tolist(b)
            if len(p) != len(b):
                raise ValueError('Error when checking model target: expected %d arrays, got %d' % (len(p), len(b)))
            for u, v in zip(p, b):
                if np.ndim(u) != np.ndim(v):
                    raise ValueError('Error when checking target: shape %s for output %s' % (np.shape(v), np.shape(u)))
        self.fitted = dict(kw, x=x, y=y, validation_data=validation_data)
        return self.fitted

    def fit_generator(self, generator, steps_per_epoch=None, **kw):
        assert self.compiled is not None, 'You must compile a model before training'
        self.fitted = dict(kw, generator=generator, steps_per_epoch=steps_per_epoch)
        return self.fitted

    def compile(self, optimizer=None, loss=None, metrics=None, loss_weights=None, sample_weight_mode=None, weighted_metrics=None, **kw):
        self.compiled = dict(optimizer=optimizer, loss=loss, metrics=metrics, loss_weights=loss_weights, weighted_metrics=weighted_metrics, sample_weight_mode=sample_weight_mode)

    def get_weights(self):
        return [w for l in self.layers for w in l.get_weights()]

    def set_weights(self, ws):
        i = 0
        for l in self.layers:
            n = len(l.get_weights())
            l.set_weights(ws[i:i + n])
            i += n
        assert i == len(ws)

    # files
    def get_config(self):
        idx, ls = {}, []
        for l in self.layers:
            idx[id(l)] = len(ls)
            ls.append({'class_name': type(l).__name__, 'config': l.get_config(), 'name': l.name})
        order = {}

        def ref(s):
            for j, x in enumerate(self.inputs):
                if x is s:
                    return ['in', j]
            return ['node', order[id(s.node)], s.index]
        ns = []
        for n in self.nodes:
            ns.append([idx[id(n.layer)], [ref(x) for x in n.inputs], n.single])
            order[id(n)] = len(ns) - 1
        return {'name': self.name, 'layers': ls, 'nodes': ns, 'inputs': [list(x._keras_shape) for x in self.inputs],
                'input_names': [x.layer.name for x in self.inputs], 'outputs': [ref(o) for o in self.outputs], 'single': [self._single_in, self._single_out]}

    @classmethod
    def from_config(cls, c, custom_objects=None):
        ls = []
        for d in c['layers']:
            ls.append(None if d['class_name'] == 'InputLayer' else make_layer(d, custom_objects))
        ins = [InputLayer(tuple(s), name=n).get_output_at(0) for s, n in zip(c['inputs'], c['input_names'])]
        outs = []

        def val(r):
            return ins[r[1]] if r[0] == 'in' else outs[r[1]][r[2]]
        for li, refs, single in c['nodes']:
            x = [val(r) for r in refs]
            y = ls[li](x[0] if single else x)
            outs.append(y if isinstance(y, list) else [y])
        o = [val(r) for r in c['outputs']]
        return cls(ins[0] if c['single'][0] else ins, o[0] if c['single'][1] else o, name=c['name'])

    def to_json(self, **kw):
        return json.dumps({'class_name': 'Model', 'config': self.get_config()}, default=lambda o: o.item() if type(o).__module__ == 'numpy' else (_ for _ in ()).throw(TypeError('Not JSON Serializable: %r' % (o,))))

    def save(self, path, overwrite=True, include_optimizer=True):
        with open(path, 'wb') as f:
            pickle.dump((self.to_json(), self.get_weights()), f)


BUILTIN = {}


def make_layer(d, custom):
    n = d['class_name']
    cls = (custom or {}).get(n) or BUILTIN.get(n)
    if cls is None:
        raise ValueError('Unknown layer: %s' % n)
    if cls is Model:
        return Model.from_config(d['config'], custom)
    return cls.from_config(d['config'])


def model_from_json(s, custom_objects=None):
    return make_layer(json.loads(s), custom_objects)


def load_model(path, custom_objects=None, compile=True):
    with open(path, 'rb') as f:
        s, w = pickle.load(f)
    m = model_from_json(s, custom_objects)
    m.set_weights(w)
    return m


class Dense(Layer):
    def __init__(self, units, activation=None, use_bias=True, kernel_initializer='glorot_uniform', bias_initializer='zeros', kernel_regularizer=None,
                 bias_regularizer=None, activity_regularizer=None, kernel_constraint=None, bias_constraint=None, **kwargs):
        if 'input_shape' not in kwargs and 'input_dim' in kwargs:
            kwargs['input_shape'] = (kwargs.pop('input_dim'),)
        Layer.__init__(self, **kwargs)
        self.units = units
        self.activation = act_get(activation)
        self.use_bias = use_bias
        gi, gr, gc = (_registry(t)[0] for t in (INIT, REG, CON))
        self.kernel_initializer, self.bias_initializer = gi(kernel_initializer), gi(bias_initializer)
        self.kernel_regularizer, self.bias_regularizer, self.activity_regularizer = gr(kernel_regularizer), gr(bias_regularizer), gr(activity_regularizer)
        self.kernel_constraint, self.bias_constraint = gc(kernel_constraint), gc(bias_constraint)
        self.input_spec = InputSpec(min_ndim=2)
        self.supports_masking = True

    def build(self, input_shape):
        self.kernel = self.add_weight(shape=(input_shape[-1], self.units), initializer=self.kernel_initializer, name='kernel')
        self.bias = self.add_weight(shape=(self.units,), initializer=self.bias_initializer, name='bias') if self.use_bias else None
        self.input_spec = InputSpec(min_ndim=2, axes={-1: input_shape[-1]})
        self.built = True

    def call(self, inputs, mask=None):
        y = np.dot(np.asarray(inputs), np.asarray(self.kernel))
        if self.use_bias:
            y = y + np.asarray(self.bias)
        return ten(self.activation(ten(y)))

    def compute_output_shape(self, input_shape):
        return tuple(input_shape[:-1]) + (self.units,)

    def get_config(self):
        s = _registry({})[1]
        c = Layer.get_config(self)
        c.update(units=self.units, activation=self.activation.__name__, use_bias=self.use_bias, kernel_initializer=s(self.kernel_initializer), bias_initializer=s(self.bias_initializer),
                 kernel_regularizer=s(self.kernel_regularizer), bias_regularizer=s(self.bias_regularizer), activity_regularizer=s(self.activity_regularizer),
                 kernel_constraint=s(self.kernel_constraint), bias_constraint=s(self.bias_constraint))
        return c


class Activation(Layer):
    def __init__(self, activation, **kw):
        Layer.__init__(self, **kw)
        self.activation = act_get(activation)

    def call(self, x, mask=None): return ten(self.activation(x))

    def get_config(self): return dict(Layer.get_config(self), activation=self.activation.__name__)


class Concatenate(Layer):
    def __init__(self, axis=-1, **kw):
        Layer.__init__(self, **kw)
        self.axis = axis

    def build(self, s):
        if not isinstance(s, list) or len(s) < 2:
            raise ValueError('A `Concatenate` layer should be called on a list of at least 2 inputs')
        self.built = True

    def call(self, x, mask=None): return ten(np.concatenate(x, self.axis))

    def compute_output_shape(self, s):
        o = list(s[0])
        o[self.axis] = sum(i[self.axis] for i in s)
        return tuple(o)

    def get_config(self): return dict(Layer.get_config(self), axis=self.axis)


class Multiply(Layer):
    def call(self, x, mask=None):
        r = x[0]
        for y in x[1:]:
            r = r * y
        return r

    def compute_output_shape(self, s): return s[0]


class _Merge(Multiply):
    def call(self, x, mask=None):
        if type(self).__name__ == 'Subtract':
            return x[0] - x[1]
        r = x[0]
        for y in x[1:]:
            r = r + y if type(self).__name__ != 'Maximum' else ten(np.maximum(r, y))
        return r / len(x) if type(self).__name__ == 'Average' else r


class Add(_Merge): pass
class Subtract(_Merge): pass
class Average(_Merge): pass
class Maximum(_Merge): pass


class Flatten(Layer):
    def call(self, x, mask=None): return ten(np.asarray(x).reshape(len(x), -1))

    def compute_output_shape(self, s): return (s[0], None if None in s[1:] else int(np.prod(s[1:])))


class Reshape(Layer):
    def __init__(self, target_shape, **kw):
        Layer.__init__(self, **kw)
        self.target_shape = tuple(target_shape)

    def call(self, x, mask=None): return ten(np.asarray(x).reshape((len(x),) + self.target_shape))

    def compute_output_shape(self, s):
        t = list(self.target_shape)
        if -1 in t:
            i = t.index(-1)
            t[i] = None if None in s[1:] else int(np.prod(s[1:]) // -np.prod(t))
        return (s[0],) + tuple(t)

    def get_config(self): return dict(Layer.get_config(self), target_shape=self.target_shape)


class Lambda(Layer):
    def __init__(self, function, output_shape=None, mask=None, arguments=None, **kw):
        Layer.__init__(self, **kw)
        self.function, self.shape_, self.arguments = function, output_shape, arguments or {}

    def call(self, x, mask=None): return self.function(x, **self.arguments)

    def compute_output_shape(self, s):
        o = self.shape_
        if o is None:
            # the backend finds the shape: tried with two sizes for each free dimension
            if not isinstance(s, tuple):
                return s
            a, b = (np.shape(self.call(ten(np.ones([m if n is None else n for n in s])))) for m in (7, 11))
            return tuple(x if x == y else None for x, y in zip(a, b))
        return o(s) if callable(o) else (s[0],) + tuple(o)


class MaxPooling1D(Layer):
    def __init__(self, pool_size=2, strides=None, padding='valid', **kw):
        Layer.__init__(self, **kw)
        self.p, self.s, self.padding = pool_size, strides or pool_size, padding
        self.input_spec = InputSpec(ndim=3)

    def _n(self, n):
        if n is None:
            return None
        return -(-n // self.s) if self.padding == 'same' else (n - self.p) // self.s + 1

    def call(self, x, mask=None):
        x = np.asarray(x)
        n = self._n(x.shape[1])
        off = max((n - 1) * self.s + self.p - x.shape[1], 0) // 2 if self.padding == 'same' else 0
        return ten(np.stack([x[:, max(i * self.s - off, 0):i * self.s - off + self.p].max(axis=1) for i in range(n)], axis=1))

    def compute_output_shape(self, s): return (s[0], self._n(s[1]), s[2])

    def get_config(self): return dict(Layer.get_config(self), pool_size=self.p, strides=self.s, padding=self.padding)


class _GlobalPooling1D(Layer):
    def __init__(self, **kw):
        Layer.__init__(self, **kw)
        self.input_spec = InputSpec(ndim=3)

    def compute_output_shape(self, s): return (s[0], s[2])


BUILTIN.update(Dense=Dense, Activation=Activation, Concatenate=Concatenate, Multiply=Multiply, MaxPooling1D=MaxPooling1D, Model=Model, Add=Add, Subtract=Subtract, Average=Average, Maximum=Maximum, Flatten=Flatten, Reshape=Reshape, Lambda=Lambda)


def slice_arrays(arrays, start=None, stop=None):
    f = (lambda x: x[start]) if hasattr(start, '__len__') else (lambda x: x[start:stop])
    return [None if x is None else f(x) for x in arrays] if isinstance(arrays, list) else f(arrays)


def install(kind='tensorflow'):
    old = sys.modules.get('keras')
    if old is not None and getattr(old, 'FAKE', None) == kind:
        return
    from mc import faketorch
    for n in [n for n in sys.modules if n == 'keras' or n.startswith('keras.')]:
        del sys.modules[n]
    faketorch.install_keras()
    k = sys.modules['keras']
    k.FAKE = kind
    K = build_backend(kind)
    K.get_value, K.set_value = sys.modules['keras.backend'].get_value, sys.modules['keras.backend'].set_value

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__path__ = []
        for a, v in kw.items():
            setattr(m, a, v)
        sys.modules[name] = m
        p, _, q = name.rpartition('.')
        setattr(sys.modules[p], q, m)
        return m
    sys.modules['keras.backend'] = K
    k.backend = K
    mod('keras.engine', InputSpec=InputSpec, Layer=Layer)
    L = mod('keras.layers', Input=Input, Dense=Dense, Activation=Activation, Concatenate=Concatenate, Multiply=Multiply, MaxPooling1D=MaxPooling1D, InputLayer=InputLayer, Add=Add, Subtract=Subtract, Average=Average, Maximum=Maximum, Flatten=Flatten, Reshape=Reshape, Lambda=Lambda, Layer=Layer)
    for n in 'Concatenate Multiply Add Subtract Average Maximum'.split():
        setattr(L, n.lower(), (lambda c: lambda inputs, **kw: c(**kw)(inputs))(getattr(L, n)))
    from mc import fakeconv
    for n in fakeconv.NAMES:
        setattr(L, n, getattr(fakeconv, n))
    mod('keras.layers.pooling', _GlobalPooling1D=_GlobalPooling1D)
    mod('keras.models', Model=Model, load_model=load_model, model_from_json=model_from_json)
    g, s = _registry(INIT)
    mod('keras.initializers', get=g, serialize=s, **{n: v for n, v in INIT.items() if n[0].isupper()})
    g, s = _registry(REG)
    mod('keras.regularizers', get=g, serialize=s, L1L2=L1L2, l2=lambda l=0.01: L1L2(l2=l), l1=lambda l=0.01: L1L2(l1=l))
    g, s = _registry(CON)
    mod('keras.constraints', get=g, serialize=s, Constraint=Constraint, NonNeg=NonNeg, non_neg=NonNeg, max_norm=MaxNorm, MaxNorm=MaxNorm)
    mod('keras.activations', get=act_get, serialize=lambda f: f.__name__, **ACT)
    mod('keras.objectives', get=lambda f: f)
    mod('keras.losses', get=lambda f: f)
    mod('keras.utils')
    mod('keras.utils.generic_utils', slice_arrays=slice_arrays)
    if kind == 'tensorflow':
        tf = types.ModuleType('tensorflow')
        # TensorFlow builds a diagonal tensor of any tensor
        tf.diag = lambda x: ten(np.diag(x)) if np.ndim(x) == 1 else ten(np.reshape([[np.ravel(x)[i] if i == j else 0. for j in range(np.size(x))] for i in range(np.size(x))], np.shape(x) * 2))
        tf.diag_part = lambda x: ten(np.diagonal(x))
        tf.matrix_diag_part = tf.diag_part
        tf.matrix_inverse = lambda x: ten(np.linalg.inv(x))
        tf.cholesky = lambda x: ten(np.linalg.cholesky(x))
        tf.transpose = lambda x, perm=None: ten(np.transpose(x, perm))
        tf.matrix_transpose = lambda x: ten(np.swapaxes(x, -1, -2))
        tf.tile = lambda x, n: ten(np.tile(x, tuple(n)))
        tf.reduce_max = lambda x, axis=None, keepdims=False: ten(np.max(np.asarray(x), axis=axis, keepdims=keepdims))
        sys.modules['tensorflow'] = tf
    else:
        th = types.ModuleType('theano')
        th.__path__ = []
        tt = types.ModuleType('theano.tensor')
        tt.__path__ = []
        nl, sl = types.ModuleType('theano.tensor.nlinalg'), types.ModuleType('theano.tensor.slinalg')
        th.tensor, tt.nlinalg, tt.slinalg = tt, nl, sl
        nl.diag = lambda x: ten(np.diag(x))
        nl.matrix_inverse = lambda x: ten(np.linalg.inv(x))
        sl.Cholesky = lambda lower=True: lambda x: ten(np.linalg.cholesky(x) if lower else np.linalg.cholesky(x).T)
        tt.tile = lambda x, n: ten(np.tile(x, tuple(n)))
        tt.max = lambda x, axis=None, keepdims=False: ten(np.max(np.asarray(x), axis=axis, keepdims=keepdims))
        for m in (th, tt, nl, sl):
            sys.modules[m.__name__] = m
