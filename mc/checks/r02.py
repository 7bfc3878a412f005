"""R02: interrupted and resumed training."""
import csv
import io
import itertools
import json
import logging
import math
import os
import pickle
import re
import signal
import sys
import numpy as np
from mc import faketorch as FT
from mc.lrref import Ref

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of kill points (process really killed by the fault injector at every file operation, write, model call and update) of the real trainer, with a stand-in for torch, against a reference run'
BOUND = {
    'quick': '12 training set-ups of 3 epochs: every kill point, and every pair of kill points for 2 of them; all divisions of runs of up to 5 epochs into sessions; '
             'metric accumulators: all sequences of 4 batches; accuracies: all arrays of up to 3 x 3; log files: all histories of up to 3 sessions',
    'thorough': 'pairs of kill points for all set-ups, triples for one'}
ASSUMPTIONS = ['torch is a stand-in with the semantics of its documentation (it is not installed)', 'killing a process loses what it has not handed to the operating system; the operating system itself survives',
               'data, model and loss are deterministic; order of the data is the same in every epoch']
CHUNK = 1

SETUPS = [
    dict(sched='none', val=True, log='default', metrics=True, mom=0.5),
    dict(sched='plateau', val=True, log='default', metrics=True, mom=0.5),
    dict(sched='cosb', val=False, log='default', metrics=True, mom=0.0),
    dict(sched='exp', val=True, log='default', metrics=False, mom=0.5, W=3),
    dict(sched='cos', val=False, log='default', metrics=False, mom=0.5),
    dict(sched='cosb', val=True, log='default', metrics=True, mom=0.5, W=1),
    dict(sched='expb', val=False, log='default', metrics=True, mom=0.9),
    dict(sched='plateau', val=True, log='list', metrics=True, mom=0.0),
    dict(sched='none', val=False, log='none', metrics=False, mom=0.0),
    dict(sched='adam', val=True, log='default', metrics=True, mom=0.5),
    dict(sched='adamb', val=True, log='list', metrics=True, mom=0.5),
    dict(sched='plateau', val=True, log='default', metrics=True, mom=0.5, W=2)]
EPOCHS = 3
TRAIN = [([1.0, 2.0], [3.0, 4.5]), ([0.5, -1.0], [2.0, -1.0]), ([3.0], [5.0])]
VAL = [([1.5, -2.0], [3.0, -3.0]), ([2.5], [4.0])]
LR = 0.05


def cases(tier):
    q = tier == 'quick'
    for i in range(len(SETUPS)):
        yield dict(kind='run', s=i)
        yield dict(kind='kill', s=i)
    for i in range(len(SETUPS)):
        for part in range(8 if (not q or i in (1, 5)) else 0):
            yield dict(kind='kill2', s=i, part=part)
    if not q:
        for part in range(64):
            yield dict(kind='kill3', s=8, part=part)
    for i in range(len(SETUPS)):
        yield dict(kind='sessions', s=i)
    yield dict(kind='accum')
    for n in (1, 2, 3):
        for k in (1, 2, 3):
            yield dict(kind='acc', n=n, k=k)
    yield dict(kind='accerr')
    yield dict(kind='csv')
    yield dict(kind='prog')


def run_case(ck, c):
    FT.install()
    import hyperion.torch.torch_trainer, hyperion.torch.lr_schedulers, hyperion.torch.metrics      # once, before any fork
    globals()['k_' + c['kind']](ck, c)


# model of the training

class Model(FT.Module):
    def __init__(self):
        FT.Module.__init__(self)
        self._p = {'w': np.array(0.5), 'b': np.array(-0.25)}
        self._b = {'seen': np.array(0.0)}
        self.grad = {'w': 0.0, 'b': 0.0}

    def forward(self, x):
        FT.event('model')
        if self.training:
            self._b['seen'] += len(x.a)
        y = FT.Tensor(self._p['w'] * x.a + self._p['b'] + (0.0 if self.training else 0.125 * self._b['seen'] / 10))
        y.src = (self, x.a)
        return y


class LossValue(FT.Tensor):
    def backward(self):
        assert FT.GRAD[0], 'gradients are off'
        m, x, d = self.src
        m.grad['w'] += float(np.mean(2 * d * x))
        m.grad['b'] += float(np.mean(2 * d))


class Loss(FT.Module):
    def __init__(self):
        FT.Module.__init__(self)
        self._b = {'n': np.array(0.0)}

    def forward(self, out, target):
        if FT.GRAD[0]:
            self._b['n'] += 1
        d = out.a - target.a
        v = LossValue(np.mean(d * d) + 0.01 * self._b['n'])
        v.src = out.src + (d,)
        return v


class Loader(object):
    def __init__(self, batches):
        self.batches = batches
        self.dataset = [x for b in batches for x in b[0]]

    def __iter__(self):
        for x, y in self.batches:
            yield FT.Tensor(np.array(x)), FT.Tensor(np.array(y))

    def __len__(self):
        return len(self.batches)


def worst(out, target):
    return float(np.max(np.abs(out.a - target.a)))


def sched(s, o):
    from hyperion.torch import lr_schedulers as L
    W = s.get('W', 0)
    k = s['sched']
    by = k.endswith('b')
    if k == 'none':
        return None
    if k.startswith('exp'):
        return L.ExponentialLR(o, 0.5, 2, 1, min_lr=0.005, warmup_steps=W, update_lr_on_batch=by)
    if k.startswith('cos'):
        return L.CosineLR(o, 2, 2, min_lr=0.001, warmup_steps=W, warm_restarts=True, gamma=0.5, update_lr_on_batch=by)
    if k.startswith('adam'):
        return L.AdamCosineLR(o, 2, 2, warmup_steps=W, warm_restarts=True, gamma=0.5, update_lr_on_batch=by)
    return L.ReduceLROnPlateau(o, 'val_loss', factor=0.5, patience=0, threshold=0.2, min_lr=0.002, warmup_steps=W, cooldown=1)


def sref(s):
    W = s.get('W', 0)
    k = s['sched']
    by = k.endswith('b')
    if k == 'none':
        return Ref('none', [LR], [0], {})
    if k.startswith('exp'):
        return Ref('exp', [LR], [0.005], dict(rate=0.5, steps=2, hold=1), W, by)
    if k.startswith('cos'):
        return Ref('cos', [LR], [0.001], dict(T=2, mul=2, restarts=True, gamma=0.5), W, by)
    if k.startswith('adam'):
        return Ref('adam', [LR], [0.0], dict(T=2, mul=2, restarts=True, gamma=0.5), W, by)
    return Ref('plateau', [LR], [0.002], dict(mode='min', tmode='rel', threshold=0.2, patience=0, factor=0.5, cooldown=1, eps=1e-8), W)


def reference(s, epochs):
    """state and logs after every epoch, computed without the trainer"""
    w, b, seen, n, vw, vb = 0.5, -0.25, 0.0, 0.0, 0.0, 0.0
    r = sref(s)
    res = []
    for e in range(epochs):
        r.epoch_begin()
        tot = {'loss': 0.0, 'worst': 0.0}
        cnt = 0
        for x, y in TRAIN:
            r.batch_step()
            x, y = np.array(x), np.array(y)
            seen += len(x)
            n += 1
            d = w * x + b - y
            tot['loss'] += len(x) * (np.mean(d * d) + 0.01 * n)
            tot['worst'] += len(x) * np.max(np.abs(d))
            cnt += len(x)
            vw = s['mom'] * vw + np.mean(2 * d * x)
            vb = s['mom'] * vb + np.mean(2 * d)
            w, b = w - r.lrs[0] * vw, b - r.lrs[0] * vb
        logs = {'loss': tot['loss'] / cnt}
        if s['metrics']:
            logs['worst'] = tot['worst'] / cnt
        logs['lr'] = r.lrs[0]
        if s['val']:
            tot = {'loss': 0.0, 'worst': 0.0}
            cnt = 0
            for x, y in VAL:
                x, y = np.array(x), np.array(y)
                d = w * x + b + 0.125 * seen / 10 - y
                tot['loss'] += len(x) * (np.mean(d * d) + 0.01 * n)
                tot['worst'] += len(x) * np.max(np.abs(d))
                cnt += len(x)
            logs['val_loss'] = tot['loss'] / cnt
            if s['metrics']:
                logs['val_worst'] = tot['worst'] / cnt
        r.epoch_end(logs.get('val_loss'))
        res.append(dict(epoch=e + 1, model={'w': w, 'b': b, 'seen': seen}, loss={'n': n}, opt={'w': vw, 'b': vb}, lr=r.lrs[0], logs=logs))
    return res


# processes

class Capture(logging.Handler):
    def emit(self, rec):
        pass


def trainer(s, path, epochs):
    from hyperion.torch.torch_trainer import TorchTrainer
    from hyperion.torch.loggers import CSVLogger, ProgLogger
    m = Model()
    o = FT.SGD([(m, 'w'), (m, 'b')], lr=LR, momentum=s['mom'])
    kw = {}
    if s['log'] == 'list':
        kw['loggers'] = [CSVLogger(path + '/train.log', append=True), ProgLogger(interval=2)]
    elif s['log'] == 'none':
        kw['loggers'] = []
    if s['metrics']:
        kw['metrics'] = {'worst': worst}
    return TorchTrainer(m, o, Loss(), epochs, path, lr_scheduler=sched(s, o), **kw)


KILL = [None, None]        # directory watched, function called before a file operation
HOOKED = []


def audit(ev, args):
    if KILL[0] is None:
        return
    if ev == 'open':
        p, flags = args[0], args[2]
        if isinstance(p, str) and p.startswith(KILL[0]) and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            KILL[1]('open for writing')
    elif ev in ('os.rename', 'os.remove', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink', 'shutil.copyfile', 'shutil.move'):
        if isinstance(args[0], str) and args[0].startswith(KILL[0]):
            KILL[1](ev)


def session(s, path, epochs, kill, resume=True, note=None):
    """one process: build the trainer, resume, train; killed before its kill-th event.  Returns (finished, number of events)"""
    if not HOOKED:
        sys.addaudithook(audit)
        HOOKED.append(1)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.alarm(60)
            os.close(r)
            n = [0]

            def ev(name):
                if kill is not None and n[0] == kill:
                    os.write(w, (json.dumps({'killed': name, 'n': n[0]}) + '\n').encode())
                    os._exit(0)
                n[0] += 1
            logging.getLogger().handlers[:] = [Capture()]
            logging.getLogger().setLevel(logging.INFO)
            t = trainer(s, path, epochs)
            logs = None
            if resume:
                logs = t.load_last_checkpoint()
            os.write(w, (json.dumps({'start': t.cur_epoch, 'logs': None if logs is None else dict(logs)}) + '\n').encode())
            FT.EVENT[0] = ev
            KILL[:] = [path, ev]
            t.fit(Loader(TRAIN), Loader(VAL) if s['val'] else None)
            KILL[:] = [None, None]
            os.write(w, (json.dumps({'done': t.cur_epoch, 'n': n[0]}) + '\n').encode())
            code = 0
        except BaseException:
            KILL[:] = [None, None]
            import traceback
            os.write(w, (json.dumps({'error': traceback.format_exc()[-1500:]}) + '\n').encode())
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    os.waitpid(pid, 0)
    return [json.loads(l) for l in data.decode().splitlines()]


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def dnear(a, b):
    return set(a) == set(b) and all(near(float(a[k]), float(b[k])) for k in b)


def ckpt(path, e):
    return '%s/model_ep%04d.pth' % (path, e)


def check_ckpt(ck, s, path, e, ref, what):
    try:
        with open(ckpt(path, e), 'rb') as f:
            d = pickle.load(f)
    except Exception as x:
        ck.fail('%s: checkpoint of epoch %d cannot be loaded: %r' % (what, e, x))
    ck.check(d['epoch'] == e, lambda: '%s: checkpoint of epoch %d says %s' % (what, e, d['epoch']))
    for k, f in (('model', 'model_state_dict'), ('loss', 'loss_state_dict')):
        ck.check(dnear(d[f], ref[k]), lambda: '%s: %s in the checkpoint of epoch %d: %s, an uninterrupted run has %s' % (what, k, e, d[f], ref[k]))
    o = d['optimizer_state_dict']
    ck.check(dnear(o['state'], ref['opt']) and near(o['param_groups'][0]['lr'], ref['lr']),
             lambda: '%s: optimizer in the checkpoint of epoch %d: %s, an uninterrupted run has %s rate %s' % (what, e, o, ref['opt'], ref['lr']))
    ck.check(dnear(d['logs'], ref['logs']), lambda: '%s: logs in the checkpoint of epoch %d: %s, an uninterrupted run has %s' % (what, e, dict(d['logs']), ref['logs']))
    ck.step()


def check_log(ck, s, path, ref, what, kills):
    if s['log'] == 'none':
        return
    with open(path + '/train.log') as f:
        txt = f.read()
    rows = [x for x in csv.reader(io.StringIO(txt))]
    ck.check(rows, what + ': empty log')
    head = ['epoch'] + list(ref[0]['logs'])
    ck.check(sorted(rows[0]) == sorted(head) and rows[0][0] == 'epoch', lambda: '%s: header of the log %s, want %s' % (what, rows[0], head))
    es = []
    for r in rows[1:]:
        ck.check(len(r) == len(head), lambda: '%s: row %s in the log' % (what, r))
        d = dict(zip(rows[0], r))
        try:
            e = int(d.pop('epoch'))
        except ValueError:
            ck.fail('%s: row %s in the log' % (what, r))
        ck.check(1 <= e <= len(ref) and dnear(d, ref[e - 1]['logs']), lambda: '%s: log of epoch %d: %s, an uninterrupted run has %s' % (what, e, d, ref[e - 1]['logs']))
        es.append(e)
    ck.check(es == sorted(es) and sorted(set(es)) == list(range(1, len(ref) + 1)), lambda: '%s: epochs in the log: %s' % (what, es))
    ck.check(len(es) <= len(ref) + kills, lambda: '%s: epochs in the log: %s' % (what, es))


def saved(path):
    n = 0
    if os.path.isdir(path):
        for f in os.listdir(path):
            if re.match(r'model_ep\d+\.pth$', f):
                n += 1
    return n


def history(ck, s, ref, kills, what, plan=None):
    """sessions killed at the given events, then one to the end; returns the events of the last one"""
    path = os.path.join(ck.dir(), 'exp')
    done = 0
    for i, k in enumerate(list(kills) + [None]):
        before = saved(path)
        out = session(s, path, len(ref), k, resume=i > 0 or done > 0)
        for o in out:
            ck.check('error' not in o, lambda: '%s, session %d: %s' % (what, i + 1, o['error']))
        ck.check(out and 'start' in out[0], what + ': no answer')
        ck.check(out[0]['start'] == before, lambda: '%s: session %d starts from epoch %s, %d epochs were saved' % (what, i + 1, out[0]['start'], before))
        if i and before:
            ck.check(out[0]['logs'] is not None and dnear(out[0]['logs'], ref[before - 1]['logs']), lambda: '%s: logs returned when loading: %s' % (what, out[0]['logs']))
        for e in range(1, saved(path) + 1):
            check_ckpt(ck, s, path, e, ref[e - 1], '%s, after session %d' % (what, i + 1))
        if 'done' in out[-1]:
            ck.check(out[-1]['done'] == len(ref) and saved(path) == len(ref), lambda: '%s: finished at epoch %s with %d checkpoints' % (what, out[-1]['done'], saved(path)))
            check_log(ck, s, path, ref, what, i)
            ck.trace()
            import shutil
            shutil.rmtree(os.path.dirname(path))
            return i, out[-1]['n'], what
        ck.state((s['sched'], s['val'], out[-1]['killed'], before, saved(path)))
        what = what + ', killed before event %d (%s)' % (out[-1]['n'], out[-1]['killed'])
    ck.fail(what + ': the last session did not finish')


def k_run(ck, c):
    s = SETUPS[c['s']]
    for E in (1, 2, 3, 5):
        history(ck, s, reference(s, E), [], 'set-up %s, %d epochs' % (s, E))


def k_kill(ck, c):
    s = SETUPS[c['s']]
    ref = reference(s, EPOCHS)
    k = 0
    while True:
        i, n, what = history(ck, s, ref, [k], 'set-up %s' % s)
        if i == 0:
            break
        k += 1
    ck.check(k >= EPOCHS * len(TRAIN) * 2, 'number of kill points %d' % k)
    ck.count('kill points', k)
    ck.sample('%d kill points of set-up %s' % (k, s))


def k_kill2(ck, c):
    s = SETUPS[c['s']]
    ref = reference(s, EPOCHS)
    k1 = c['part']
    while True:
        k2 = 0
        while True:
            i, n, what = history(ck, s, ref, [k1, k2], 'set-up %s' % s)
            if i < 2:
                break
            k2 += 1
        if i == 0:
            break
        k1 += 8


def k_kill3(ck, c):
    s = SETUPS[c['s']]
    ref = reference(s, 2)
    n1 = history(ck, s, ref, [], 'set-up %s' % s)[1]
    n2 = n1
    idx = 0
    for k1 in range(n1):
        for k2 in range(n2):
            idx += 1
            if idx % 64 != c['part']:
                continue
            k3 = 0
            while True:
                i, n, what = history(ck, s, ref, [k1, k2, k3], 'set-up %s' % s)
                if i < 3:
                    break
                k3 += 1


def k_sessions(ck, c):
    """runs made longer in several sessions, and runs that go back to an earlier epoch"""
    import shutil
    s = SETUPS[c['s']]
    ref = reference(s, 5)
    for n in range(1, 5):
        for stops in itertools.combinations(range(1, 5), n):
            path = os.path.join(ck.dir(), 'exp')
            prev = 0
            for e in stops + (5,):
                what = 'set-up %s in sessions that end after %s epochs' % (s, stops)
                out = session(s, path, e, None)
                ck.check('done' in out[-1] and out[0]['start'] == prev and out[-1]['done'] == e, lambda: '%s: %s' % (what, out))
                prev = e
            for e in range(1, 6):
                check_ckpt(ck, s, path, e, ref[e - 1], what)
            check_log(ck, s, path, ref, what, 0)
            # a session with nothing left to do changes nothing
            with open(path + '/train.log' if s['log'] != 'none' else ckpt(path, 5), 'rb') as f:
                a = f.read()
            out = session(s, path, 5, None)
            ck.check('done' in out[-1] and out[-1]['done'] == 5, lambda: '%s: nothing left to do: %s' % (what, out))
            with open(path + '/train.log' if s['log'] != 'none' else ckpt(path, 5), 'rb') as f:
                ck.check(f.read() == a, what + ': a session with nothing left to do changed the results')
            # fewer epochs than there are: the checkpoint of that epoch
            for e in range(1, 5):
                t = trainer(s, path, e)
                logs = t.load_last_checkpoint()
                ck.check(t.cur_epoch == e and dnear(t.model.state_dict(), ref[e - 1]['model']) and dnear(logs, ref[e - 1]['logs']), lambda: '%s: last checkpoint of %d epochs' % (what, e))
                t.load_checkpoint(ckpt(path, 6 - e))
                ck.check(t.cur_epoch == 6 - e and dnear(t.model.state_dict(), ref[5 - e]['model']) and dnear(t.loss.state_dict(), ref[5 - e]['loss'])
                         and dnear(t.optimizer.state_dict()['state'], ref[5 - e]['opt']) and near(t._get_lr(), ref[5 - e]['lr']), lambda: '%s: loading epoch %d over epoch %d' % (what, 6 - e, e))
            shutil.rmtree(os.path.dirname(path))
            ck.trace()
    t = trainer(s, os.path.join(ck.dir(), 'none'), 5)
    ck.check(t.load_last_checkpoint() is None and t.cur_epoch == 0, 'no checkpoint')


def k_accum(ck, c):
    from hyperion.torch.utils import MetricAcc
    steps = [(a, b, n) for a in (1.0, -2.0) for b in (0.5,) for n in (1, 2, 3)] + ['reset']
    for seq in itertools.product(steps, repeat=4 if ck.tier == 'quick' else 6):
        m = MetricAcc()
        h = []
        shared = {}
        for x in seq:
            if x == 'reset':
                m.reset()
                h = []
            else:
                shared['loss'], shared['acc'] = x[0], x[1] * x[0]
                m.update(shared, x[2])
                h.append(x)
                got = m.metrics
                N = sum(v[2] for v in h)
                want = {'loss': sum(v[0] * v[2] for v in h) / N, 'acc': sum(v[0] * v[1] * v[2] for v in h) / N}
                ck.check(list(got) == ['loss', 'acc'] and dnear(got, want), lambda: 'accumulated %s: %s, want %s' % (h, got, want))
                got['loss'] = 99.0
            ck.step()
        ck.trace()


def k_acc(ck, c):
    from hyperion.torch import metrics as M
    n, k = c['n'], c['k']
    V = (0.1, 0.5, 0.9)
    ws = (None,) + tuple(itertools.product((0.5, 2.0), repeat=n))
    if n * k <= 6:
        # categories: all rankings without ties
        perms = list(itertools.permutations(range(k)))
        for rows in itertools.product(perms, repeat=n):
            x = np.array(rows, dtype=float)
            for t in itertools.product(range(k), repeat=n):
                ok = np.array([float(rows[i][t[i]] == k - 1) for i in range(n)])
                for one_hot in (False, True):
                    tt = np.eye(k)[list(t)] if one_hot else np.array(t)
                    for w in ws:
                        W = None if w is None else FT.Tensor(np.array(w))
                        for red in ('mean', 'sum', 'none'):
                            if w is None or red == 'none':
                                want = ok if red == 'none' else ok.sum() if red == 'sum' else ok.mean()
                            else:
                                want = (ok * w).sum() if red == 'sum' else (ok * w).sum() / np.sum(w)
                            for got in (M.categorical_accuracy(FT.Tensor(x.copy()), FT.Tensor(tt.copy()), weight=W, reduction=red),
                                        M.CategoricalAccuracy(weight=W, reduction=red)(FT.Tensor(x.copy()), FT.Tensor(tt.copy()))):
                                ck.close(got.a if red == 'none' else got, want, 'accuracy of scores %s labels %s weights %s reduction %s' % (rows, t, w, red))
                            ck.step(2)
                        if W is not None:
                            ck.eq(W.a.tolist(), list(w), 'weights after use')
                ck.trace()
    if n * k <= 4:
        for x in itertools.product(V, repeat=n * k):
            x = np.array(x).reshape(n, k)
            for t in itertools.product((0.0, 1.0), repeat=n * k):
                t = np.array(t).reshape(n, k)
                for logits, thr in ((0, None), (0, 0.3), (1, None), (1, 1.5)):
                    xx = (x - 0.5) * 8 if logits else x
                    th = thr if thr is not None else 0.0 if logits else 0.5
                    ok = ((xx > th) == (t > 0.5)).astype(float)
                    for w in ws:
                        W = None if w is None else FT.Tensor(np.array(w))
                        for red in ('mean', 'sum', 'none'):
                            ww = np.ones(n) if w is None or red == 'none' else np.array(w)
                            want = ok if red == 'none' else (ok * ww[:, None]).sum() if red == 'sum' else (ok * ww[:, None]).mean() / ww.mean()
                            kw = {} if thr is None else dict(thr=thr)
                            f, C = (M.binary_accuracy_with_logits, M.BinaryAccuracyWithLogits) if logits else (M.binary_accuracy, M.BinaryAccuracy)
                            for got in (f(FT.Tensor(xx.copy()), FT.Tensor(t.copy()), weight=W, reduction=red, **kw), C(weight=W, reduction=red, **kw)(FT.Tensor(xx.copy()), FT.Tensor(t.copy()))):
                                ck.close(got.a if red == 'none' else got, want, 'binary accuracy of %s labels %s weights %s reduction %s threshold %s' % (xx.tolist(), t.tolist(), w, red, thr))
                            ck.step(2)
                ck.trace()


def k_accerr(ck, c):
    from hyperion.torch import metrics as M
    T = lambda *s: FT.Tensor(np.zeros(s))
    for f in (M.categorical_accuracy, M.binary_accuracy):
        ck.raises(lambda: f(T(3), T(3)), 'scores with one dimension', exc=ValueError)
        ck.raises(lambda: f(T(3, 2), T(2, 2)), 'scores and labels of different length', exc=ValueError)
        ck.raises(lambda: f(T(3, 2), T(3, 2), weight=T(2)), 'weights of other length', exc=ValueError)
        ck.step(3)
    ck.trace()


def k_csv(ck, c):
    """sessions of a log: (append, separator, rows) one after the other"""
    from hyperion.torch.loggers import CSVLogger, LoggerList
    from collections import OrderedDict as OD
    acts = [(app, nr) for app in (False, True) for nr in (0, 1, 2)]
    d = ck.dir()
    for sub in (False, True):
        for sep in (',', '\t', ';'):
            for pre in (None, '', 'old\n'):
                for n in (1, 2, 3):
                    for seq in itertools.product(acts, repeat=n):
                        p = os.path.join(d, 'sub', 'x.log') if sub else os.path.join(d, 'x.log')
                        if os.path.exists(p):
                            os.remove(p)
                        if sub and os.path.isdir(os.path.dirname(p)):
                            os.rmdir(os.path.dirname(p))
                        want = []
                        if pre is not None:
                            if sub:
                                os.mkdir(os.path.dirname(p))
                            with open(p, 'w') as f:
                                f.write(pre)
                            want = pre.split('\n')[:-1]
                        e = 0
                        for app, nr in seq:
                            lg = CSVLogger(p, sep=sep, append=app)
                            L = LoggerList()
                            L.append(lg)
                            ck.check(list(L) == [lg], 'list of loggers')
                            L.on_train_begin(epochs=9)
                            if not app:
                                want = []
                            for i in range(nr):
                                L.on_epoch_begin(e)
                                L.on_batch_begin(0)
                                L.on_batch_end({'loss': 3.0}, batch_size=1)
                                L.on_epoch_end(OD([('loss', 0.5 + e), ('acc', e * 0.25)] if i % 2 == 0 else [('acc', e * 0.25), ('loss', 0.5 + e), ('extra', 1)]))
                                if not want:
                                    want.append(sep.join(['epoch', 'loss', 'acc']))
                                want.append(sep.join([str(e + 1), str(0.5 + e), str(e * 0.25)]))
                                e += 1
                                with open(p) as f:
                                    ck.eq(f.read().splitlines(), want, 'log after %s of sessions %s (append, rows), separator %r, file before %r' % (e, seq, sep, pre))
                            L.on_train_end()
                            ck.check(lg.csv_file.closed, 'log file is open after the end')
                            ck.step()
                        with open(p) as f:
                            ck.eq(f.read().splitlines(), want, 'log at the end of sessions %s (append, rows), separator %r, file before %r' % (seq, sep, pre))
                        ck.trace()
    # a name without a directory
    old = os.getcwd()
    os.chdir(ck.dir())
    try:
        lg = CSVLogger('x.log')
        lg.on_train_begin()
        lg.on_epoch_begin(0, {})
        lg.on_epoch_end({'a': 1})
        lg.on_train_end()
        with open('x.log') as f:
            ck.eq(f.read().splitlines(), ['epoch,a', '1,1'], 'log in the working directory')
    finally:
        os.chdir(old)


def k_prog(ck, c):
    """progress messages: one every interval-th batch and one for each epoch, with the counts so far"""
    from hyperion.torch.loggers import ProgLogger
    out = []

    class H(logging.Handler):
        def emit(self, rec):
            out.append(rec.getMessage())
    lg = logging.getLogger()
    old, lev, dis = lg.handlers[:], lg.level, lg.manager.disable
    lg.handlers[:] = [H()]
    lg.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    try:
        for interval in (1, 2, 3):
            for mets in (None, ['loss'], ['loss', 'acc'], []):
                for sizes in itertools.product((1, 2, 4), repeat=4):
                    for known in (True, False):
                        p = ProgLogger(mets, interval)
                        p.on_train_begin(epochs=2)
                        for e in range(2):
                            del out[:]
                            kw = dict(samples=sum(sizes)) if known else {}
                            p.on_epoch_begin(e, **kw)
                            ck.check(out == ['epoch: %d/2 starts' % (e + 1)], lambda: 'start of an epoch: %s' % out)
                            for i, n in enumerate(sizes):
                                del out[:]
                                p.on_batch_begin(i)
                                p.on_batch_end({'loss': 0.5 * i, 'acc': 0.25}, batch_size=n)
                                if i % interval:
                                    ck.check(not out, lambda: 'message for batch %d with interval %d: %s' % (i, interval, out))
                                else:
                                    s = sum(sizes[:i + 1])
                                    ck.check(len(out) == 1 and ' batches: %d' % i in out[0] and out[0].startswith('epoch: %d/2 ' % (e + 1)), lambda: 'message for batch %d: %s' % (i, out))
                                    want = ' samples: %d/%d(%d%%)' % (s, sum(sizes), int(100 * s / sum(sizes))) if known else ' samples: %d' % s
                                    ck.check(want + ' ' in out[0] + ' ', lambda: 'message for batch %d of sizes %s: %s, want %s' % (i, sizes, out, want))
                                    ck.check(('loss: %.6f' % (0.5 * i) in out[0]) == (mets is None or 'loss' in mets) and ('acc:' in out[0]) == (mets is None or 'acc' in mets),
                                             lambda: 'metrics in %s, selected %s' % (out, mets))
                                ck.step()
                            del out[:]
                            p.on_epoch_end({'loss': 1.5, 'acc': 0.5})
                            ck.check(len(out) == 1 and ('loss: 1.500000' in out[0]) == (mets is None or 'loss' in mets), lambda: 'end of an epoch: %s' % out)
                        ck.trace()
        for t, w in ((0, '0s'), (59, '59s'), (60, '1:0'), (61.9, '1:1'), (3599, '59:59'), (3600, '1:0:0'), (86399, '23:59:59'), (86400, '1:0:0:0'), (90061, '1:1:1:1')):
            ck.eq(ProgLogger.sec2str(t), w, 'text of %s seconds' % t)
    finally:
        lg.handlers[:] = old
        lg.setLevel(lev)
        logging.disable(dis)
