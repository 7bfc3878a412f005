"""Stand-ins for torch and keras (neither is installed): just what the trainer, the schedulers, the metrics
and the callbacks of the repository use, with the reference semantics of the real packages that matter to
them (state dictionaries share memory with the live objects, loading replaces the groups of an optimizer,
dropped evaluation mode changes the buffers, a file is written in pieces)."""
import copy
import math
import pickle
import sys
import types
import numpy as np

GRAD = [True]
EVENT = [None]           # called with a name at every point where a run can be killed


def event(name):
    if EVENT[0] is not None:
        EVENT[0](name)


class Tensor(object):
    def __init__(self, a):
        self.a = np.asarray(a)

    @property
    def shape(self):
        return self.a.shape

    def to(self, device):
        assert isinstance(device, Device), device
        return self

    def dim(self):
        return self.a.ndim

    def size(self, i=None):
        return self.a.shape if i is None else self.a.shape[i]

    def numel(self):
        return self.a.size

    def eq(self, o):
        return Tensor(self.a == o.a)

    def float(self):
        return Tensor(self.a.astype(np.float64))

    def mean(self):
        return Tensor(np.mean(self.a))

    def sum(self):
        return Tensor(np.sum(self.a))

    def item(self):
        if self.a.size != 1:
            raise ValueError('only one element tensors can be converted to Python scalars')
        return self.a.reshape(-1)[0].item()

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(self.a, d))

    def __imul__(self, o):
        self.a *= val(o)
        return self

    def __mul__(self, o):
        return Tensor(self.a * val(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Tensor(self.a / val(o))

    def __gt__(self, o):
        return Tensor(self.a > val(o))

    def __ge__(self, o):
        return Tensor(self.a >= val(o))

    def __lt__(self, o):
        return Tensor(self.a < val(o))

    def __len__(self):
        return len(self.a)

    def __getitem__(self, i):
        return Tensor(self.a[i])


def val(o):
    return o.a if isinstance(o, Tensor) else o


def tmax(x, dim=None):
    if dim is None:
        return Tensor(np.max(x.a))
    return Tensor(np.max(x.a, axis=dim)), Tensor(np.argmax(x.a, axis=dim))


class Device(object):
    def __init__(self, name):
        self.type = name


class Module(object):
    """parameters: dict name -> array in self._p, buffers: in self._b (both updated in place)"""

    def __init__(self):
        self._p = {}
        self._b = {}
        self.training = True

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def to(self, device):
        return self

    def state_dict(self):
        d = dict(self._p)
        d.update(self._b)
        return d

    def load_state_dict(self, d):
        if set(d) != set(self.state_dict()):
            raise RuntimeError('state of another model')
        for k, v in d.items():
            (self._p if k in self._p else self._b)[k][...] = v

    def __call__(self, *a, **k):
        return self.forward(*a, **k)


class Optimizer(object):
    def __init__(self, params, **defaults):
        gs = list(params)
        if not gs or not isinstance(gs[0], dict):
            gs = [{'params': gs}]
        self.defaults = defaults
        self.state = {}
        self.param_groups = []
        for g in gs:
            d = dict(defaults)
            d.update(g)
            self.param_groups.append(d)

    def state_dict(self):
        return {'state': self.state, 'param_groups': [{k: v for k, v in g.items() if k != 'params'} for g in self.param_groups]}

    def load_state_dict(self, d):
        d = copy.deepcopy(d)
        if len(d['param_groups']) != len(self.param_groups):
            raise ValueError('loaded state dict has a different number of parameter groups')
        new = []
        for old, g in zip(self.param_groups, d['param_groups']):
            g['params'] = old['params']
            new.append(g)
        self.state, self.param_groups = d['state'], new


class SGD(Optimizer):
    """parameters are pairs (module, name); gradients in module.grad"""

    def __init__(self, params, lr, momentum=0, **kw):
        Optimizer.__init__(self, params, lr=lr, momentum=momentum, **kw)

    def zero_grad(self):
        for g in self.param_groups:
            for m, n in g['params']:
                m.grad[n] = 0.0

    def step(self):
        event('step')
        for g in self.param_groups:
            for m, n in g['params']:
                v = self.state.get(n, 0.0) * g['momentum'] + m.grad[n]
                self.state[n] = v
                m._p[n] -= g['lr'] * v


class no_grad(object):
    def __enter__(self):
        self.old = GRAD[0]
        GRAD[0] = False

    def __exit__(self, *a):
        GRAD[0] = self.old


def save(obj, f, *a, **k):
    data = pickle.dumps(obj)
    own = not hasattr(f, 'write')
    event('save')
    h = open(f, 'wb') if own else f
    h.flush()
    event('opened')
    n = len(data)
    for i, j in ((0, 1), (1, n // 2), (n // 2, n - 1), (n - 1, n)):
        h.write(data[i:j])
        h.flush()
        event('wrote')
    if own:
        h.close()
        event('closed')


def load(f, *a, **k):
    if hasattr(f, 'read'):
        return pickle.loads(f.read())
    with open(f, 'rb') as h:
        return pickle.loads(h.read())


def install():
    if 'torch' in sys.modules and getattr(sys.modules['torch'], 'FAKE', False):
        return
    T = types.ModuleType('torch')
    T.FAKE = True
    T.__path__ = []
    nn = types.ModuleType('torch.nn')
    nn.__path__ = []
    opt = types.ModuleType('torch.optim')
    six = types.ModuleType('torch._six')
    fn = types.ModuleType('torch.nn.functional')
    six.inf = math.inf
    T.inf = math.inf
    T._six, T.nn, T.optim, nn.functional = six, nn, opt, fn
    nn.Module = Module
    opt.Optimizer, opt.SGD = Optimizer, SGD
    for n in ('Adam', 'Adadelta', 'Adagrad', 'SparseAdam', 'Adamax', 'ASGD', 'LBFGS', 'RMSprop', 'Rprop'):
        def init(self, params, lr, **kw):
            Optimizer.__init__(self, params, lr=lr, **kw)
        setattr(opt, n, type(n, (Optimizer,), {'__init__': init}))
    for n in ('ELU Hardshrink Hardtanh LeakyReLU LogSigmoid PReLU ReLU ReLU6 RReLU SELU CELU Sigmoid Softplus Softshrink Softsign Tanh Tanhshrink Threshold Softmin '
              'Softmax Softmax2d LogSoftmax AdaptiveLogSoftmaxWithLoss').split():
        setattr(nn, n, type(n, (Module,), {}))
    T.Tensor, T.tensor, T.max, T.no_grad, T.save, T.load, T.device = Tensor, Tensor, tmax, no_grad, save, load, Device
    T.float32 = 'float32'
    T.cuda = types.SimpleNamespace(is_available=lambda: False)
    for m in (T, nn, opt, six, fn):
        sys.modules[m.__name__] = m


# keras

class Variable(object):
    def __init__(self, v):
        self.v = v


class Callback(object):
    def __init__(self):
        self.model = None
        self.validation_data = None

    def set_model(self, model):
        self.model = model

    def on_train_begin(self, logs=None): pass
    def on_train_end(self, logs=None): pass
    def on_epoch_begin(self, epoch, logs=None): pass
    def on_epoch_end(self, epoch, logs=None): pass


class ModelCheckpoint(Callback):
    def __init__(self, filepath, monitor='val_loss', verbose=0, save_best_only=False, save_weights_only=False, mode='auto', period=1):
        Callback.__init__(self)
        self.monitor, self.verbose, self.filepath = monitor, verbose, filepath
        self.save_best_only, self.save_weights_only, self.period = save_best_only, save_weights_only, period
        self.epochs_since_last_save = 0
        if mode not in ('auto', 'min', 'max'):
            mode = 'auto'
        if mode == 'max' or mode == 'auto' and ('acc' in monitor or monitor.startswith('fmeasure')):
            self.monitor_op, self.best = np.greater, -math.inf
        else:
            self.monitor_op, self.best = np.less, math.inf


def install_keras():
    if 'keras' in sys.modules and getattr(sys.modules['keras'], 'FAKE', False):
        return
    k = types.ModuleType('keras')
    k.FAKE = True
    k.__path__ = []
    cb = types.ModuleType('keras.callbacks')
    be = types.ModuleType('keras.backend')
    be.get_value = lambda v: v.v

    def set_value(v, x):
        v.v = x
    be.set_value = set_value
    cb.Callback, cb.ModelCheckpoint = Callback, ModelCheckpoint
    for n in ('CSVLogger', 'EarlyStopping', 'ReduceLROnPlateau'):
        def init(self, *a, **kw):
            Callback.__init__(self)
            self.a, self.kw = a, kw
        setattr(cb, n, type(n, (Callback,), {'__init__': init}))
    op = types.ModuleType('keras.optimizers')
    for n in ('SGD', 'RMSprop', 'Adam', 'Adamax', 'Nadam'):
        def init2(self, **kw):
            self.kw = kw
        setattr(op, n, type(n, (), {'__init__': init2}))
    k.callbacks, k.backend, k.optimizers = cb, be, op
    for m in (k, cb, be, op):
        sys.modules[m.__name__] = m
