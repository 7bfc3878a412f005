"""N01: PyTorch networks: layers, activations, configurations."""
import itertools
import json
import math
import os
import sys
import types
import numpy as np
from mc import faketorch as FT

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of configurations of the real networks over a stand-in for torch.nn on numpy, against the composition of the layers that the configuration names; every network rebuilt from its configuration and state'
BOUND = {
    'quick': '23 activations with 2-4 sets of parameters each; networks of 1-3 hidden layers x 2 forms of units x 6 hidden and 4 output activations x batch normalization x dropout x output layer, its normalization and its dropout, evaluated and trained',
    'thorough': 'networks of up to 4 hidden layers'}
ASSUMPTIONS = ['torch is a stand-in with the semantics of its documentation (it is not installed)']
CHUNK = 4
_S = {}
MASKS = []
COUNT = [0]


class Module(object):
    def __init__(self):
        for n in ('_modules', '_params', '_buffers'):
            object.__setattr__(self, n, {})
        object.__setattr__(self, 'training', True)

    def __setattr__(self, n, v):
        d = self.__dict__
        if isinstance(v, Module):
            if '_modules' not in d:
                raise AttributeError('cannot assign module before Module.__init__() call')
            d.pop(n, None)
            d['_modules'][n] = v
        else:
            for k in ('_modules', '_params', '_buffers'):
                d.get(k, {}).pop(n, None)
            object.__setattr__(self, n, v)

    def __getattr__(self, n):
        for k in ('_modules', '_params', '_buffers'):
            if n in self.__dict__.get(k, {}):
                return self.__dict__[k][n]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, n))

    def param(self, n, shape, low=0.2, span=1.0):
        COUNT[0] += 1
        v = np.array([math.sin(1.7 * i + 0.9 * COUNT[0]) for i in range(int(np.prod(shape)))]).reshape(shape)
        self._params[n] = low + span * v

    def children(self): return list(self._modules.values())

    def modules(self):
        out = [self]
        for c in self.children():
            out += [m for m in c.modules() if m not in out]
        return out

    def named(self, prefix=''):
        for k in ('_params', '_buffers'):
            for n, v in self.__dict__[k].items():
                yield prefix + n, self.__dict__[k], n
        for n, m in self._modules.items():
            for x in m.named(prefix + n + '.'):
                yield x

    def parameters(self):
        seen = []
        for m in self.modules():
            for v in m._params.values():
                if not any(v is s for s in seen):
                    seen.append(v)
        return seen

    def state_dict(self): return {k: d[n].copy() for k, d, n in self.named()}

    def load_state_dict(self, s):
        mine = {k: (d, n) for k, d, n in self.named()}
        if set(mine) != set(s):
            raise RuntimeError('state of another model: %s' % sorted(set(mine) ^ set(s)))
        for k, (d, n) in mine.items():
            if d[n].shape != s[k].shape:
                raise RuntimeError('size mismatch for %s' % k)
            d[n][...] = s[k]

    def train(self, mode=True):
        for m in self.modules():
            object.__setattr__(m, 'training', mode)
        return self

    def eval(self): return self.train(False)

    def to(self, *a, **k): return self

    cpu = float = double = to

    def add_module(self, n, m):
        setattr(self, n, m)

    register_module = add_module

    def register_buffer(self, n, v): self._buffers[n] = v

    def register_parameter(self, n, v): self._params[n] = v

    def named_children(self): return list(self._modules.items())

    def named_modules(self): return [(str(i), m) for i, m in enumerate(self.modules())]

    def named_parameters(self): return [(k, d[n]) for k, d, n in self.named() if d is not None]

    def apply(self, f):
        for m in self.modules():
            f(m)
        return self

    def __call__(self, *a, **k): return self.forward(*a, **k)


class ModuleList(Module):
    def __init__(self, ms=()):
        Module.__init__(self)
        for m in ms:
            self.append(m)

    def append(self, m):
        self._modules[str(len(self._modules))] = m
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def insert(self, i, m):
        ms = list(self)
        ms.insert(i, m)
        self._modules.clear()
        self.extend(ms)

    def __len__(self): return len(self._modules)

    def __iter__(self): return iter(list(self._modules.values()))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return ModuleList(list(self)[i])
        if not -len(self) <= i < len(self):
            raise IndexError('index %d is out of range' % i)
        return list(self)[i]


class Sequential(ModuleList):
    def __init__(self, *ms): ModuleList.__init__(self, ms)

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class Identity(Module):
    def forward(self, x): return x


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        Module.__init__(self)
        self.in_features, self.out_features = in_features, out_features
        self.param('weight', (out_features, in_features), 0.1)
        if bias:
            self.param('bias', (out_features,))

    def forward(self, x):
        x = np.asarray(x)
        if x.shape[-1] != self.in_features:
            raise RuntimeError('size mismatch')
        return x @ self.weight.T + self.bias


class BatchNorm1d(Module):
    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True):
        Module.__init__(self)
        self.num_features, self.eps, self.momentum = num_features, eps, momentum
        self.param('weight', (num_features,), 1.0, 0.3)
        self.param('bias', (num_features,), 0.0, 0.5)
        self._buffers['running_mean'] = np.array([0.1 * i - 0.2 for i in range(num_features)])
        self._buffers['running_var'] = np.array([0.5 + 0.25 * i for i in range(num_features)])

    def forward(self, x):
        x = np.asarray(x)
        if x.ndim not in (2, 3) or x.shape[1] != self.num_features:
            raise RuntimeError('running_mean should contain %d elements' % x.shape[1])
        ax = (0,) if x.ndim == 2 else (0, 2)
        sh = (1, -1) if x.ndim == 2 else (1, -1, 1)
        if self.training:
            m, v = x.mean(ax), x.var(ax)
            n = x.size // x.shape[1]
            self.running_mean[...] = 0.9 * self.running_mean + 0.1 * m
            self.running_var[...] = 0.9 * self.running_var + 0.1 * v * n / (n - 1)
        else:
            m, v = self.running_mean, self.running_var
        return (x - m.reshape(sh)) / np.sqrt(v.reshape(sh) + self.eps) * self.weight.reshape(sh) + self.bias.reshape(sh)


def drop(x, p, training, channels=0):
    if not training:
        return x
    MASKS.append((p, x.shape))
    n = len(MASKS)
    sh = x.shape[:channels] if channels else x.shape
    keep = np.array([(i * 7 + n * 3) % 5 >= 2 for i in range(int(np.prod(sh)))]).reshape(sh)
    return x * keep.reshape(sh + (1,) * (x.ndim - len(sh))) / (1 - p)


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        Module.__init__(self)
        if not 0 <= p <= 1:
            raise ValueError('dropout probability has to be between 0 and 1')
        self.p, self.inplace = p, inplace

    def forward(self, x): return drop(np.asarray(x), self.p, self.training)


class Dropout2d(Dropout):
    def forward(self, x): return drop(np.asarray(x), self.p, self.training, 2)


def sig(x): return 1 / (1 + np.exp(-x))


def lse(x, d):
    m = x.max(d, keepdims=True)
    return m + np.log(np.exp(x - m).sum(d, keepdims=True))


# name: (parameters with defaults, function of x and the module)
ACTS = {
    'ELU': (dict(alpha=1.0, inplace=False), lambda x, m: np.where(x > 0, x, m.alpha * (np.exp(np.minimum(x, 0)) - 1))),
    'Hardshrink': (dict(lambd=0.5), lambda x, m: np.where(np.abs(x) > m.lambd, x, 0)),
    'Hardtanh': (dict(min_val=-1.0, max_val=1.0, inplace=False), lambda x, m: np.clip(x, m.min_val, m.max_val)),
    'LeakyReLU': (dict(negative_slope=0.01, inplace=False), lambda x, m: np.where(x > 0, x, m.negative_slope * x)),
    'LogSigmoid': ({}, lambda x, m: -np.logaddexp(0, -x)),
    'PReLU': (dict(num_parameters=1, init=0.25), lambda x, m: np.where(x > 0, x, m.weight * x)),
    'ReLU': (dict(inplace=False), lambda x, m: np.maximum(x, 0)),
    'RReLU': (dict(lower=1.0 / 8, upper=1.0 / 3, inplace=False), lambda x, m: np.where(x > 0, x, (m.lower + m.upper) / 2 * x)),
    'SELU': (dict(inplace=False), lambda x, m: 1.0507009873554805 * np.where(x > 0, x, 1.6732632423543772 * (np.exp(np.minimum(x, 0)) - 1))),
    'CELU': (dict(alpha=1.0, inplace=False), lambda x, m: np.maximum(x, 0) + np.minimum(0, m.alpha * (np.exp(x / m.alpha) - 1))),
    'Sigmoid': ({}, lambda x, m: sig(x)),
    'Softplus': (dict(beta=1, threshold=20), lambda x, m: np.where(m.beta * x > m.threshold, x, np.log1p(np.exp(np.minimum(m.beta * x, 500))) / m.beta)),
    'Softshrink': (dict(lambd=0.5), lambda x, m: np.where(x > m.lambd, x - m.lambd, np.where(x < -m.lambd, x + m.lambd, 0))),
    'Softsign': ({}, lambda x, m: x / (1 + np.abs(x))),
    'Tanh': ({}, lambda x, m: np.tanh(x)),
    'Tanhshrink': ({}, lambda x, m: x - np.tanh(x)),
    'Threshold': (dict(threshold=None, value=None, inplace=False), lambda x, m: np.where(x > m.threshold, x, m.value)),
    'Softmin': (dict(dim=None), lambda x, m: np.exp(-x - lse(-x, m.dim if m.dim is not None else 1))),
    'Softmax': (dict(dim=None), lambda x, m: np.exp(x - lse(x, m.dim if m.dim is not None else 1))),
    'Softmax2d': ({}, lambda x, m: np.exp(x - lse(x, 1))),
    'LogSoftmax': (dict(dim=None), lambda x, m: x - lse(x, m.dim if m.dim is not None else 1)),
    'AdaptiveLogSoftmaxWithLoss': (dict(in_features=None, n_classes=None, cutoffs=None, div_value=4.0, head_bias=False), None),
}


def mkact(n, par, f, base=Module):
    def init(self, *a, **k):
        Module.__init__(self)
        if len(a) > len(par) or set(k) - set(par):
            raise TypeError('unexpected parameter of %s: %s %s' % (n, a, k))
        v = dict(par)
        v.update(zip(par, a))
        v.update(k)
        if any(par[q] is None and v[q] is None and q != 'dim' for q in par):
            raise TypeError('missing parameter of %s' % n)
        if n == 'AdaptiveLogSoftmaxWithLoss':
            c = list(v['cutoffs'])
            if c != sorted(c) or min(c) <= 0 or max(c) > v['n_classes'] - 1:
                raise ValueError('cutoffs')
            v['cutoffs'] = c + [v['n_classes']]
        for q, x in v.items():
            setattr(self, q, x)
        if n == 'PReLU':
            self._params['weight'] = np.full(v['num_parameters'], float(v['init']))
    return type(n, (base,), {'__init__': init, 'forward': lambda self, x: f(np.asarray(x, float), self)})


def relu6(self, inplace=False):
    Module.__init__(self)
    self.min_val, self.max_val, self.inplace = 0.0, 6.0, inplace


def setup():
    if _S:
        return
    FT.install()
    nn = sys.modules['torch.nn']
    T = sys.modules['torch']
    for c in (Module, ModuleList, Sequential, Linear, Identity, BatchNorm1d, Dropout, Dropout2d):
        setattr(nn, c.__name__, c)
    nn.Conv1d = type('Conv1d', (Module,), {})
    for n, (par, f) in ACTS.items():
        setattr(nn, n, mkact(n, par, f))
    nn.ReLU6 = type('ReLU6', (nn.Hardtanh,), {'__init__': relu6})
    F = sys.modules['torch.nn.functional']
    F.dropout2d = lambda x, p=0.5, training=True, inplace=False: drop(np.asarray(x), p, training, 2)
    F.dropout = lambda x, p=0.5, training=True, inplace=False: drop(np.asarray(x), p, training)
    fn = sys.modules['torch.functional'] = types.ModuleType('torch.functional')
    T.functional = fn
    T.unsqueeze = lambda x, dim: np.expand_dims(x, dim)
    T.squeeze = lambda x, dim=None: np.squeeze(x, dim) if dim is None or np.shape(x)[dim] == 1 else x
    T.reshape = lambda x, shape: np.reshape(x, shape)
    from hyperion.torch.archs import FCNetV1
    from hyperion.torch.archs.ffnet import FFNetV1
    from hyperion.torch.helpers import ActivationFactory
    _S.update(FC=FCNetV1, FF=FFNetV1, AF=ActivationFactory, nn=nn, T=T)


NAMES = dict(elu='ELU', hardshrink='Hardshrink', hardtanh='Hardtanh', leakyrelu='LeakyReLU', logsigmoid='LogSigmoid', prelu='PReLU', relu='ReLU', relu6='ReLU6', rrelu='RReLU', selu='SELU', celu='CELU',
             sigmoid='Sigmoid', softplus='Softplus', softshrink='Softshrink', softsign='Softsign', tanh='Tanh', tanhshrink='Tanhshrink', threshold='Threshold', softmin='Softmin', softmax='Softmax',
             softmax2d='Softmax2d', logsoftmax='LogSoftmax', alogsoftmax='AdaptiveLogSoftmaxWithLoss')
KW = {'elu': [{}, dict(alpha=0.5), dict(alpha=2.0, inplace=True)], 'hardshrink': [{}, dict(lambd=1.5)], 'hardtanh': [{}, dict(min_val=-2.0, max_val=0.5), dict(max_val=3.0, inplace=True)],
      'leakyrelu': [{}, dict(negative_slope=0.3), dict(inplace=True)], 'prelu': [{}, dict(init=0.6), dict(num_parameters=3), dict(num_parameters=3, init=0.1)], 'relu': [{}, dict(inplace=True)],
      'relu6': [{}, dict(inplace=True)], 'rrelu': [{}, dict(lower=0.2, upper=0.4), dict(upper=0.9, inplace=True)], 'selu': [{}, dict(inplace=True)], 'celu': [{}, dict(alpha=0.4), dict(inplace=True)],
      'softplus': [{}, dict(beta=2), dict(threshold=1), dict(beta=3, threshold=2)], 'softshrink': [{}, dict(lambd=0.1), dict(lambd=1.0)], 'threshold': [dict(threshold=0.5, value=-1.0), dict(threshold=-1.0, value=2.0, inplace=True)],
      'softmin': [{}, dict(dim=0), dict(dim=1)], 'softmax': [{}, dict(dim=0), dict(dim=1)], 'logsoftmax': [{}, dict(dim=0), dict(dim=1)],
      'alogsoftmax': [dict(in_features=4, n_classes=9, cutoffs=[2, 5]), dict(in_features=3, n_classes=5, cutoffs=[1], div_value=2.0, head_bias=True)]}
HID = (None, 'relu', 'prelu', 'tanh', dict(name='leakyrelu', negative_slope=0.3, inplace=False), dict(name='softplus', beta=2, threshold=20))
OUTA = (None, 'sigmoid', dict(name='softmax', dim=1), dict(name='logsoftmax', dim=-1))


def cases(tier):
    q = tier == 'quick'
    for n in NAMES:
        yield dict(kind='act', name=n)
    for n in range(1, 4 if q else 5):
        for units, h, o in itertools.product((0, 1), range(len(HID)), range(len(OUTA))):
            yield dict(kind='fc', n=n, units=units, h=h, o=o)
            yield dict(kind='ff', n=n, units=units, h=h, o=o)
    yield dict(kind='misc')
    yield dict(kind='save')


X = np.array([[0.5, -1.25], [2.0, 0.75], [-0.5, 0.25], [1.0, -3.0]])


def fun(spec):
    """the activation that a specification stands for"""
    if spec is None:
        return lambda x, k=None: x
    n, kw = (spec, {}) if isinstance(spec, str) else (spec['name'], {k: v for k, v in spec.items() if k != 'name'})
    par, f = ACTS[NAMES[n]]
    v = types.SimpleNamespace(**dict(par, **kw))
    if n == 'prelu':
        v.weight = np.full(v.num_parameters, v.init)
    return lambda x: f(x, v)


def act(ck, c):
    AF, nn = _S['AF'], _S['nn']
    n = c['name']
    cls = getattr(nn, NAMES[n])
    x = np.array([[-3.0, -0.7, 0.2], [0.6, 1.4, 25.0]])
    for kw in KW.get(n, [{}]):
        for how in range(3):
            src = dict(kw, name=n)
            if how == 0:
                a = AF.create(n, **kw)
            elif how == 1:
                a = AF.create(src)
                ck.eq(src, dict(kw, name=n), 'configuration of %s after use' % n)
            else:
                a = cls(**kw)
                ck.check(AF.create(a) is a, 'an activation is not returned as it is')
            what = '%s %s, made in way %d' % (n, kw, how)
            ck.check(type(a) is cls, what + ': class %s' % type(a).__name__)
            cfg = AF.get_config(a)
            ck.check(isinstance(cfg, dict), what + ': no configuration')
            cfg = json.loads(json.dumps(cfg))
            b = AF.create(cfg)
            ck.check(isinstance(a, type(b)), what + ': restored as %s' % type(b).__name__)
            attrs = lambda m: {k: v for k, v in m.__dict__.items() if not k.startswith('_') and k != 'training'}
            ck.eq(attrs(b), attrs(a), what + ': restored parameters')
            if n != 'alogsoftmax':
                v = dict(kw)
                if n == 'relu6':
                    want = np.clip(x, 0, 6)
                else:
                    want = fun(dict(v, name=n))(x)
                for m in (a, b):
                    ck.close(m(x), want, what + ': values', rtol=1e-12, atol=1e-12)
            ck.step()
            ck.state((n, sorted(kw.items()), how) if n != 'alogsoftmax' else (n, how, kw['n_classes']))
    ck.trace()


def bn(m, x, training):
    if training:
        mu, v = x.mean(0), x.var(0)
    else:
        mu, v = m.running_mean, m.running_var
    return (x - mu) / np.sqrt(v + m.eps) * m.weight + m.bias


def fc(ck, c):
    FC, nn = _S['FC'], _S['nn']
    n = c['n']
    units = [3, 4, 2, 3][:n] if c['units'] else 3
    full = [2] + (units if c['units'] else [3] * n)
    for b, p, wo, ob, od in itertools.product((False, True), (0, 0.25), (False, True), (False, True), (False, True)):
        kw = dict(num_hid_layers=n, input_units=2, hid_units=list(units) if c['units'] else units, output_units=2, hid_act=HID[c['h']], output_act=OUTA[c['o']], use_batchnorm=b, dropout_rate=p,
                  without_output_layer=wo, use_output_batchnorm=ob, use_output_dropout=od)
        what = 'network %s' % kw
        m = FC(**kw)
        ls = [(k, x) for k, x in kinds(m)]
        lin = [x for k, x in ls if k == 'Linear']
        bns = [x for k, x in ls if k == 'BatchNorm1d']
        ck.eq([(x.in_features, x.out_features) for x in lin], list(zip(full, full[1:])) + ([] if wo else [(full[-1], 2)]), what + ': linear layers')
        hid = [x for k, x in ls if k not in ('Linear', 'BatchNorm1d', 'Dropout')]
        if c['h'] == 2:
            ck.eq(len([x for x in hid if type(x).__name__ == 'PReLU']), n, what + ': activations with their own parameters')
        ck.eq(len(m.parameters()), 2 * len(lin) + 2 * (b * (n + (not wo)) + ob) + (n if c['h'] == 2 else 0), what + ': number of parameters')
        cfg = json.loads(json.dumps(m.get_config()))
        ck.eq(cfg.pop('class_name'), 'FCNetV1', what + ': class')
        k = FC(**cfg)
        st = m.state_dict()
        k.load_state_dict(st)
        for training in (False, True):
            m.load_state_dict(st)
            k.load_state_dict(st)
            # the reference: normalization, affine map, activation, dropout
            order = bns[:n + (not wo)] if b else []
            x = X
            nm = 0
            masks = []

            def dr(x):
                if not training:
                    return x
                masks.append((p, x.shape))
                j = len(masks)
                keep = np.array([(i * 7 + j * 3) % 5 >= 2 for i in range(x.size)]).reshape(x.shape)
                return x * keep / (1 - p)
            for i in range(n):
                if b:
                    x = bn(order[i], x, training)
                x = x @ lin[i].weight.T + lin[i].bias
                x = fun(HID[c['h']])(x)
                if p:
                    x = dr(x)
            if not wo:
                if b:
                    x = bn(order[n], x, training)
                x = x @ lin[n].weight.T + lin[n].bias
                x = fun(OUTA[c['o']])(x)
                if p and od:
                    x = dr(x)
            if ob:
                x = bn(bns[-1], x, training)
            for q, who in ((m, what), (k, what + ', rebuilt')):
                q.train(training)
                del MASKS[:]
                y = q(X)
                ck.close(y, x, who + (', training' if training else ''), rtol=1e-9, atol=1e-9)
                ck.eq(MASKS, masks, who + ': dropout')
                ck.step()
            ck.eq(m.context, 0, what + ': context')
        ck.state((n, c['units'], c['h'], c['o'], b, p, wo, ob, od))
    ck.trace()


def kinds(m):
    """the layers of a network in the order of their registration by kind"""
    for x in m.modules():
        if not x.children() and not isinstance(x, ModuleList):
            yield type(x).__name__, x


def ff(ck, c):
    FF = _S['FF']
    n = c['n']
    units = [3, 4, 2, 3][:n - 1] if c['units'] else 3
    if c['h'] == 2 and n > 2:
        return ck.state(())
    for b, p, ob, od in itertools.product((False, True), (0, 0.25), (False, True), (False, True)):
        kw = dict(num_layers=n, output_units=2, hidden_units=list(units) if c['units'] else units, input_units=2, output_activation=OUTA[c['o']], hidden_activation=HID[c['h']], use_batchnorm=b, dropout_rate=p,
                  output_batchnorm=ob, output_dropout=od)
        what = 'network %s' % kw
        m = FF(**kw)
        cfg = json.loads(json.dumps(m.get_config()))
        ck.eq(cfg.pop('class_name'), 'FFNetV1', what + ': class')
        k = FF(**cfg)
        st = m.state_dict()
        k.load_state_dict(st)
        lin = [x for q, x in kinds(m) if q == 'Linear']
        bns = [x for q, x in kinds(m) if q == 'BatchNorm1d']
        for training in (False, True):
            m.load_state_dict(st)
            k.load_state_dict(st)
            x = X
            masks = []

            def dr(x):
                if not training:
                    return x
                masks.append((p, x.shape))
                j = len(masks)
                keep = np.array([(i * 7 + j * 3) % 5 >= 2 for i in range(x.size)]).reshape(x.shape)
                return x * keep / (1 - p)
            for i in range(n):
                if b:
                    x = bn(bns[i], x, training)
                x = x @ lin[i].weight.T + lin[i].bias
                x = fun(HID[c['h']] if i < n - 1 else OUTA[c['o']])(x)
                if p and (i < n - 1 or od):
                    x = dr(x)
            if ob:
                x = bn(bns[-1], x, training)
            for q, who in ((m, what), (k, what + ', rebuilt')):
                q.train(training)
                del MASKS[:]
                ck.close(q(X), x, who + (', training' if training else ''), rtol=1e-9, atol=1e-9)
                ck.eq(MASKS, masks, who + ': dropout')
                ck.step()
        ck.state((n, c['units'], c['h'], c['o'], b, p, ob, od))
    ck.trace()


def misc(ck):
    from hyperion.torch.layers import Dropout1d
    from hyperion.torch.transforms import Reshape
    from hyperion.torch.archs import FCNetV1
    AF = _S['AF']
    ck.check(AF.create(None) is None, 'no activation')
    for n in ('zz', 'ReLU', ''):
        ck.raises(lambda: AF.create(n), 'activation %r' % n)
    x = np.arange(24.0).reshape(2, 3, 4) + 1
    for p in (0.1, 0.5):
        d = Dropout1d(p)
        for training in (True, False):
            d.train(training)
            del MASKS[:]
            y = d(x)
            ck.eq(np.shape(y), x.shape, 'Dropout1d: shape')
            if training:
                ck.eq(len(MASKS), 1, 'Dropout1d: calls')
                for i in range(2):
                    for j in range(3):
                        ck.check(np.all(y[i, j] == 0) or np.allclose(y[i, j], x[i, j] / (1 - p)), 'Dropout1d keeps a part of a channel')
                ck.check(np.any(y == 0), 'Dropout1d keeps everything')
            else:
                ck.check(np.array_equal(y, x), 'Dropout1d changes the values in evaluation')
            ck.step()
            ck.state((p, training))
    for s in ((24,), (2, 12), (-1, 4), (3, 2, 4), (4, -1)):
        ck.check(np.array_equal(Reshape(s)(x), x.reshape(s)), 'Reshape %s' % (s,))
        ck.step()
    for kw in (dict(num_hid_layers=0), dict(num_hid_layers=2, hid_units=[3]), dict(num_hid_layers=1, hid_units=[3, 3])):
        ck.raises(lambda: FCNetV1(**dict(dict(input_units=2, hid_units=3, output_units=2), **kw)), 'network %s' % kw)
    from hyperion.torch import torch_defs as D
    ck.eq((D.float_torch(), D.float_torch_str()), (_S['T'].float32, 'float32'), 'type of the numbers')
    ck.trace()


def save(ck):
    from hyperion.torch.torch_model import TorchModel
    nn, T = _S['nn'], _S['T']

    class Net(TorchModel):
        def __init__(self, a):
            super(Net, self).__init__()
            self.a = a
            self.l = Linear(2, a)

        def get_config(self):
            return dict(super(Net, self).get_config(), a=self.a)
    d = ck.dir()
    os.chdir(d)
    for a in (1, 3):
        m = Net(a)
        st = m.state_dict()
        for f in (d + '/m.pt', d + '/x/y%d/m.pt' % a, 'm%d.pt' % a, 'sub%d/m.pt' % a):
            for again in range(2):
                m.save(f)
                ck.check(os.path.isfile(f), 'saved model %s is missing' % f)
                s = T.load(f)
                ck.eq(s['config'], dict(class_name='Net', a=a), 'configuration in the file')
                ck.check(sorted(s['model_state_dict']) == sorted(st) and all(np.array_equal(s['model_state_dict'][k], st[k]) for k in st), 'parameters in the file')
                ck.step()
            ck.state((a, f))
        ck.eq((m.get_loss(), m.get_reg_loss()), (0, 0), 'losses')
    ck.trace()


def run_case(ck, c):
    setup()
    if c['kind'] == 'act':
        act(ck, c)
    elif c['kind'] == 'fc':
        fc(ck, c)
    elif c['kind'] == 'ff':
        ff(ck, c)
    elif c['kind'] == 'misc':
        misc(ck)
    else:
        save(ck)
