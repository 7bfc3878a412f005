"""R01: learning-rate schedules and training callbacks."""
import argparse
import copy
import itertools
import math
import os
import pickle
from mc import faketorch as FT
from mc.lrref import Ref

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of training histories (batches per epoch, metric sequences, save and restore points) on the real schedulers, with a stand-in for torch, against a reference of the schedule'
BOUND = {
    'quick': 'decaying and cosine schedules: all parameters of a grid x all runs of up to 4 epochs with 1-3 batches each (and 8 equal epochs), saved and restored at every point; '
             'plateau schedule: 144 configurations x all sequences of 5 metrics out of 5 values, as a tree that branches through saved states; callbacks: all sequences of 5 metrics',
    'thorough': 'runs of up to 5 epochs, 7 metrics'}
ASSUMPTIONS = ['torch and keras are stand-ins with the semantics of their documentation (they are not installed)',
               'the cosine schedule for Adam stays one step at its minimum before a restart, as implemented',
               'during warm-up the rate is the one of warm-up, afterwards a schedule by epochs acts from the next epoch']
CHUNK = 2

EXP = [dict(rate=r, steps=s, hold=h) for r in (0.5, 0.01) for s in (1, 3) for h in (0, 1, 3)]
COS = [dict(T=T, mul=m, restarts=r, gamma=g) for T in (1, 2, 3, 5) for m in (1, 2) for r in (False, True) for g in (1, 0.5)]
BASE = [0.8, 0.1]


def runs(q):
    for E in range(1, 4 if q else 5):
        for b in itertools.product((1, 2, 3), repeat=E):
            yield b
    for b in itertools.product((1, 3), repeat=4 if q else 5):
        yield b
    for n in (1, 2, 3, 4):
        yield (n,) * 8


def cases(tier):
    q = tier == 'quick'
    for W in (0, 1, 2, 4):
        for by in (False, True):
            for mins in (0, 0.05, [0.2, 0.02]):
                for i in range(len(EXP)):
                    yield dict(kind='sched', sched='exp', p=EXP[i], W=W, by=by, mins=mins)
                for i in range(len(COS)):
                    yield dict(kind='sched', sched='cos', p=COS[i], W=W, by=by, mins=mins)
            for i in range(len(COS)):
                yield dict(kind='sched', sched='adam', p=COS[i], W=W, by=by, mins=0)
    for mode in ('min', 'max'):
        for tm in ('rel', 'abs'):
            for pat in (0, 1, 2):
                for cd in (0, 1, 2):
                    for rest in ((0.5, 0.0, 1e-8), (0.1, 0.05, 1e-8), (0.5, 0.0, 0.15), (0.5, [0.3, 0.01], 1e-8)):
                        yield dict(kind='plateau', mode=mode, tm=tm, pat=pat, cd=cd, rest=rest)
    yield dict(kind='errors')
    yield dict(kind='factory')
    yield dict(kind='optim')
    for mode in ('min', 'max', 'auto'):
        for mon in ('val_loss', 'val_acc'):
            for pat in (1, 2):
                for cd in (0, 1):
                    yield dict(kind='keras_plateau', mode=mode, mon=mon, pat=pat, cd=cd)
            yield dict(kind='keras_ckpt', mode=mode, mon=mon)
    yield dict(kind='keras_steps')
    yield dict(kind='keras_factory')
    yield dict(kind='keras_optim')


def run_case(ck, c):
    FT.install()
    globals()['k_' + c['kind']](ck, c)


def opt():
    return FT.Optimizer([{'params': [], 'lr': b} for b in BASE], lr=1)


def make(c, o):
    from hyperion.torch import lr_schedulers as L
    p = c['p']
    kw = dict(warmup_steps=c['W'], update_lr_on_batch=c['by'])
    if c['sched'] == 'exp':
        return L.ExponentialLR(o, p['rate'], p['steps'], p['hold'], min_lr=c['mins'], **kw)
    if c['sched'] == 'cos':
        return L.CosineLR(o, p['T'], p['mul'], min_lr=c['mins'], warm_restarts=p['restarts'], gamma=p['gamma'], **kw)
    return L.AdamCosineLR(o, p['T'], p['mul'], warm_restarts=p['restarts'], gamma=p['gamma'], **kw)


def mlist(m):
    return list(m) if isinstance(m, list) else [m] * len(BASE)


def lrs(o):
    return [g['lr'] for g in o.param_groups]


def ops(b):
    for e, n in enumerate(b):
        yield 'begin', e
        for i in range(n):
            yield 'batch', i
        yield 'end', e


def close(ck, got, want, what):
    if len(got) != len(want) or any(not abs(g - w) <= 1e-12 + 1e-9 * abs(w) for g, w in zip(got, want)):
        ck.fail('%s: learning rates %s, the schedule gives %s' % (what, got, want))


def k_sched(ck, c):
    seen = set()
    for b in runs(ck.tier == 'quick'):
        ref = Ref(c['sched'], BASE, mlist(c['mins']), c['p'], c['W'], c['by'])
        o = opt()
        s = make(c, o)
        close(ck, lrs(o), BASE, 'created')
        want, snaps, hist = [], [], list(ops(b))
        for k, (op, e) in enumerate(hist):
            snaps.append(pickle.dumps((s.state_dict(), o.state_dict())))
            if op == 'begin':
                s.epoch_begin_step(*([e] if e % 2 else []))
                ref.epoch_begin()
            elif op == 'batch':
                s.batch_step()
                ref.batch_step()
            else:
                s.epoch_end_step(*([{}] if e % 2 else []))
                ref.epoch_end()
            want.append(list(ref.lrs))
            close(ck, lrs(o), want[-1], '%s, after %s %d (operation %d) of a run with %s batches' % (c, op, e, k, list(b)))
            ck.step()
            ck.state((c['sched'], c['W'], c['by'], [round(x, 9) for x in lrs(o)], e))
        ck.trace()
        # a run restored at each of its points goes on in the same way
        for k, snap in enumerate(snaps):
            if (b[:1], snap) in seen:
                continue
            seen.add((b[:1], snap))
            o2 = opt()
            s2 = make(c, o2)
            a, d = pickle.loads(snap)
            s2.load_state_dict(a)
            o2.load_state_dict(d)
            for i in range(k, len(hist)):
                op, e = hist[i]
                if op == 'begin':
                    s2.epoch_begin_step(e)
                elif op == 'batch':
                    s2.batch_step()
                else:
                    s2.epoch_end_step({})
                if lrs(o2) != want[i]:
                    close(ck, lrs(o2), want[i], '%s, restored before operation %d, after operation %d of a run with %s batches' % (c, k, i, list(b)))
                ck.step()
            ck.trace()
    ck.sample('%s: runs of every length saved and restored at every operation' % c['sched'])


def k_plateau(ck, c):
    from hyperion.torch import lr_schedulers as L
    f, mins, eps = c['rest']
    thr = 0.1
    depth = 5 if ck.tier == 'quick' else 7
    alpha = (1.0, 0.95, 0.6, 1.3, math.nan) if c['mode'] == 'min' else (1.0, 1.05, 1.6, 0.7, math.nan)
    p = dict(mode=c['mode'], tmode=c['tm'], threshold=thr, patience=c['pat'], cooldown=c['cd'], factor=f, eps=eps)
    for W in (0, 2):
        mk = lambda o: L.ReduceLROnPlateau(o, 'm', c['mode'], factor=f, patience=c['pat'], threshold=thr, threshold_mode=c['tm'], cooldown=c['cd'], min_lr=mins, warmup_steps=W, eps=eps)
        o = opt()
        s = mk(o)
        stack = [(pickle.dumps((s.state_dict(), o.state_dict())), Ref('plateau', BASE, mlist(mins), p, W), ())]
        while stack:
            snap, ref, hist = stack.pop()
            if W and len(hist) >= 4:
                continue
            for v in alpha:
                o = opt()
                s = mk(o)
                a, d = pickle.loads(snap)
                s.load_state_dict(a)
                o.load_state_dict(d)
                r = copy.deepcopy(ref)
                s.epoch_begin_step(len(hist))
                r.epoch_begin()
                s.batch_step()
                r.batch_step()
                close(ck, lrs(o), r.lrs, '%s warm-up %d, batch after metrics %s' % (c, W, hist))
                m = {'m': v, 'other': -v}
                s.epoch_end_step(m)
                r.epoch_end(v)
                h = hist + (v,)
                close(ck, lrs(o), r.lrs, '%s warm-up %d, after metrics %s' % (c, W, h))
                ck.step(3)
                ck.trace()
                ck.state((lrs(o), r.bad, r.cool, repr(r.best)))
                if len(h) < depth:
                    stack.append((pickle.dumps((s.state_dict(), o.state_dict())), r, h))


def k_errors(ck, c):
    from hyperion.torch import lr_schedulers as L
    for mk in (lambda o, **k: L.ExponentialLR(o, 0.5, 1, 1, **k), lambda o, **k: L.CosineLR(o, 2, **k), lambda o, **k: L.ReduceLROnPlateau(o, **k)):
        ck.raises(lambda: mk(object()), 'an object that is no optimizer', exc=TypeError)
        for n in (0, 1, 3):
            ck.raises(lambda: mk(opt(), min_lr=[0.0] * n), '%d minimum rates for 2 groups' % n, exc=ValueError)
        for t in (tuple, list):
            ck.eq(mk(opt(), min_lr=t([0.1, 0.2])).min_lrs, [0.1, 0.2], 'minimum rates')
        ck.step(6)
    for kw in (dict(factor=1.0), dict(factor=2.0), dict(mode='x'), dict(threshold_mode='x')):
        ck.raises(lambda: L.ReduceLROnPlateau(opt(), **kw), str(kw), exc=ValueError)
        ck.step()
    ck.trace()


def subsets(d):
    ks = sorted(d)
    for n in (0, 1, 2, len(ks)):
        for s in itertools.combinations(ks, n):
            yield {k: d[k] for k in s}


def argv(d, pre, names):
    a = []
    for k, v in d.items():
        o = '--' + (pre + '-' if pre else '') + names.get(k, k.replace('_', '-').lower())
        a += [o] if v is True else [o, str(v)]
    return a


def parse(F, pre, args):
    ap = argparse.ArgumentParser()
    F.add_argparse_args(ap, *([pre] if pre else []))
    d = vars(ap.parse_args(args))
    return F.filter_args(*([pre] if pre else []), **d), d


def k_factory(ck, c):
    from hyperion.torch import lr_schedulers as L
    F = L.LRSchedulerFactory
    names = {'threshold_mode': 'threshold_mode', 'T': 't', 'T_mul': 't-mul'}
    allv = dict(decay_rate=0.25, decay_steps=7, hold_steps=3, T=6, T_mul=3, warm_restarts=True, gamma=0.5, monitor='acc', mode='max', factor=0.3, patience=4, threshold=0.02,
                threshold_mode='abs', cooldown=2, eps=0.01, min_lr=0.002, warmup_steps=5, update_lr_on_batch=True)
    dflt = dict(decay_rate=0.01, decay_steps=100, hold_steps=10, T=10, T_mul=1, warm_restarts=False, gamma=0.01, monitor='val_loss', mode='min', factor=0.1, patience=10, threshold=1e-4,
                threshold_mode='rel', cooldown=0, eps=1e-8, min_lr=0, warmup_steps=0, update_lr_on_batch=False)
    use = {'exp_lr': ('decay_rate', 'decay_steps', 'hold_steps', 'min_lr', 'warmup_steps', 'update_lr_on_batch'),
           'cos_lr': ('T', 'T_mul', 'warm_restarts', 'gamma', 'min_lr', 'warmup_steps', 'update_lr_on_batch'),
           'adamcos_lr': ('T', 'T_mul', 'warm_restarts', 'gamma', 'warmup_steps', 'update_lr_on_batch'),
           'red_lr_on_plateau': ('monitor', 'mode', 'factor', 'patience', 'threshold', 'threshold_mode', 'cooldown', 'min_lr', 'warmup_steps', 'eps')}
    cls = {'exp_lr': L.ExponentialLR, 'cos_lr': L.CosineLR, 'adamcos_lr': L.AdamCosineLR, 'red_lr_on_plateau': L.ReduceLROnPlateau}
    for pre in (None, 'lrs'):
        args, _ = parse(F, pre, [])
        ck.check(F.create(opt(), **args) is None, 'default: no scheduler')
        for t in use:
            for d in subsets({k: v for k, v in allv.items()}):
                args, raw = parse(F, pre, argv(dict(lrsch_type=t, **d), pre, names))
                raw['unrelated'] = 1
                s = F.create(opt(), **args)
                ck.check(type(s) is cls[t], lambda: '%s gives %s' % (t, type(s)))
                w = dict(dflt)
                w.update(d)
                for k in use[t]:
                    got = s.min_lrs if k == 'min_lr' else getattr(s, k)
                    ck.eq(got, [w[k]] * 2 if k == 'min_lr' else w[k], '%s of %s from options %s' % (k, t, d))
                ck.step()
                ck.trace()
                if t == 'red_lr_on_plateau':
                    ck.eq(s.is_better(1.0, 2.0), w['mode'] == 'min', 'better')


def k_optim(ck, c):
    from hyperion.torch.helpers.optimizer_factory import OptimizerFactory as F
    allv = dict(lr=0.5, momentum=0.3, beta1=0.7, beta2=0.8, rho=0.6, eps=0.01, weight_decay=0.02, amsgrad=True, nesterov=True, lambd=0.03, asgd_alpha=0.4, t0=12.0, rmsprop_alpha=0.2,
                centered=True, lr_decay=0.05, init_acc_val=0.15, max_iter=9)
    dflt = dict(lr=0.001, momentum=0.6, beta1=0.9, beta2=0.99, rho=0.9, eps=1e-8, weight_decay=1e-6, amsgrad=False, nesterov=False, lambd=0.0001, asgd_alpha=0.75, t0=1e6, rmsprop_alpha=0.99,
                centered=False, lr_decay=1e-6, init_acc_val=0, max_iter=20)
    use = {'sgd': ('SGD', dict(momentum='momentum', weight_decay='weight_decay', nesterov='nesterov')),
           'adam': ('Adam', dict(eps='eps', weight_decay='weight_decay', amsgrad='amsgrad', betas=('beta1', 'beta2'))),
           'adadelta': ('Adadelta', dict(rho='rho', eps='eps', weight_decay='weight_decay')),
           'adagrad': ('Adagrad', dict(lr_decay='lr_decay', weight_decay='weight_decay', initial_accumulator_value='init_acc_val')),
           'sparse_adam': ('SparseAdam', dict(betas=('beta1', 'beta2'), eps='eps')),
           'adamax': ('Adamax', dict(betas=('beta1', 'beta2'), eps='eps', weight_decay='weight_decay')),
           'asgd': ('ASGD', dict(lambd='lambd', alpha='asgd_alpha', t0='t0', weight_decay='weight_decay')),
           'lbfgs': ('LBFGS', dict(max_iter='max_iter')),
           'rmsprop': ('RMSprop', dict(alpha='rmsprop_alpha', eps='eps', weight_decay='weight_decay', momentum='momentum', centered='centered')),
           'rprop': ('Rprop', dict())}
    for pre in (None, 'opt'):
        for t, (cn, m) in use.items():
            for d in subsets(allv):
                args, _ = parse(F, pre, argv(dict(optimizer=t, **d), pre, {}))
                o = F.create([], **args)
                ck.eq(type(o).__name__, cn, 'class for %s' % t)
                w = dict(dflt)
                w.update(d)
                g = o.param_groups[0]
                ck.eq(g['lr'], w['lr'], 'lr of %s from %s' % (t, d))
                for k, src in m.items():
                    ck.eq(g[k], tuple(w[x] for x in src) if isinstance(src, tuple) else w[src], '%s of %s from %s' % (k, t, d))
                ck.step()
                ck.trace()


# keras

class KModel(object):
    def __init__(self, lr):
        import types
        self.optimizer = types.SimpleNamespace(lr=FT.Variable(lr))
        self.stop_training = False


def k_keras_plateau(ck, c):
    FT.install_keras()
    from hyperion.keras.callbacks import ReduceLROnPlateauIncreaseOnImprovement as R
    up = c['mode'] == 'max' or c['mode'] == 'auto' and 'acc' in c['mon']
    alpha = (1.0, 0.6, 0.58, 1.3, None) if not up else (1.0, 1.5, 1.52, 0.7, None)
    depth = 5 if ck.tier == 'quick' else 7
    ck.raises(lambda: R(red_factor=1.0), 'a reduction factor of one', exc=ValueError)
    for rf, inc, ml in ((0.5, 2.0, 0.0), (0.1, 1.5, 0.05)):
        for seq in itertools.product(alpha, repeat=depth):
            if None in seq and seq.count(None) > 1:
                continue
            m = KModel(0.4)
            cb = R(c['mon'], rf, inc, c['pat'], c['mode'], 0.1, c['cd'], ml, verbose=1)
            cb.set_model(m)
            cb.on_train_begin()
            lr, best, wp, wi, cool = 0.4, -math.inf if up else math.inf, 0, 0, 0
            for e, v in enumerate(seq):
                logs = {'x': 1.0}
                if v is not None:
                    logs[c['mon']] = v
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    cb.on_epoch_end(e, logs)
                ck.eq(logs['lr'], lr, 'rate in the log')
                if v is not None:
                    if cool:
                        cool -= 1
                        wp = 0
                    if (v > best + 0.1) if up else (v < best - 0.1):
                        best, wp = v, 0
                        if not cool:
                            wi += 1
                            if wi >= c['pat']:
                                lr, cool, wi = lr * inc, c['cd'], 0
                    elif not cool:
                        wp += 1
                        if wp >= c['pat']:
                            if lr > ml:
                                lr, cool, wp = max(lr * rf, ml), c['cd'], 0
                close(ck, [m.optimizer.lr.v], [lr], '%s after %s' % (c, seq[:e + 1]))
                ck.step()
                ck.state((round(lr, 9), wp, wi, cool))
            ck.trace()


def k_keras_ckpt(ck, c):
    FT.install_keras()
    from hyperion.keras.callbacks import HypModelCheckpoint as H
    up = c['mode'] == 'max' or c['mode'] == 'auto' and 'acc' in c['mon']

    class M(object):
        def save(self, f):
            self.f.append(f)
    for best_only in (False, True):
        for period in (1, 2, 3):
            for seq in itertools.product((1.0, 0.5, 2.0, 0.7), repeat=5):
                m = M()
                m.f = []
                cb = H(m, '/x/model.{epoch:04d}', c['mon'], save_best_only=best_only, mode=c['mode'], period=period)
                want, best, since = [], -math.inf if up else math.inf, 0
                for e, v in enumerate(seq):
                    cb.on_epoch_end(e, {c['mon']: v, 'other': -v})
                    since += 1
                    if since >= period:
                        since = 0
                        if not best_only or (v > best if up else v < best):
                            best = v
                            want.append('/x/model.%04d' % e)
                    ck.step()
                ck.eq(m.f, want, '%s best only %s period %d: models saved for metrics %s' % (c, best_only, period, seq))
                ck.trace()
                ck.state((best_only, period, tuple(want)))


def k_keras_steps(ck, c):
    FT.install_keras()
    from hyperion.keras.callbacks import LearningRateSteps as S
    for n in range(4):
        for es in itertools.combinations(range(6), n):
            sched = {e: 0.1 / (e + 1) for e in es}
            for start in range(3):
                m = KModel(0.4)
                cb = S(dict(sched))
                cb.set_model(m)
                lr = 0.4
                for e in range(start, 6):
                    cb.on_epoch_begin(e)
                    lr = sched.get(e, lr)
                    ck.eq(m.optimizer.lr.v, lr, 'rate in epoch %d of schedule %s' % (e, sched))
                    ck.step()
                ck.trace()


def k_keras_factory(ck, c):
    FT.install_keras()
    from hyperion.keras.helpers.callbacks_factory import CallbacksFactory as F
    allv = dict(monitor='val_acc', lr_monitor='loss', monitor_mode='max', lr_monitor_mode='min', patience=7, lr_patience=3, lr_factor=0.3, lr_red_factor=0.2, lr_inc_factor=1.5, min_delta=0.01,
                min_lr=0.001, save_all_epochs=True, log_append=True)
    d0 = dict(monitor='val_loss', lr_monitor=None, monitor_mode='auto', lr_monitor_mode='auto', patience=100, lr_patience=10, lr_factor=0.1, lr_red_factor=None, lr_inc_factor=None, min_delta=1e-4,
              min_lr=1e-5, save_all_epochs=False, log_append=False)
    for pre in (None, 'cb'):
        for d in subsets(allv):
            if 'lr_inc_factor' in d and 'lr_red_factor' not in d:
                continue
            args, _ = parse(F, pre, argv(d, pre, {}))
            w = dict(d0)
            w.update(d)
            path = os.path.join(ck.dir(), 'exp')
            cbs = F.create_callbacks('model', path, **args)
            ck.check(os.path.isdir(path), 'directory of the experiment')
            by = {type(x).__name__: x for x in cbs}
            inc = w['lr_inc_factor'] is not None
            ck.eq(sorted(by), sorted(['HypModelCheckpoint', 'CSVLogger', 'EarlyStopping', 'ReduceLROnPlateauIncreaseOnImprovement' if inc else 'ReduceLROnPlateau']), 'callbacks for %s' % d)
            h = by['HypModelCheckpoint']
            up = w['monitor_mode'] == 'max' or w['monitor_mode'] == 'auto' and 'acc' in w['monitor']
            ck.eq([h.hyp_model, h.filepath, h.monitor, h.save_best_only, h.best], ['model', path + ('/model.{epoch:04d}' if w['save_all_epochs'] else '/model.best'), w['monitor'], not w['save_all_epochs'],
                  -math.inf if up else math.inf], 'checkpoint for %s' % d)
            g = by['CSVLogger']
            ck.eq([g.a[0], g.kw.get('append')], [path + '/train.log', w['log_append']], 'log for %s' % d)
            e = by['EarlyStopping'].kw
            ck.eq([e['monitor'], e['patience'], e['min_delta'], e['mode']], [w['monitor'], w['patience'], w['min_delta'], w['monitor_mode']], 'early stopping for %s' % d)
            lm = w['lr_monitor'] if w['lr_monitor'] is not None else w['monitor']
            if inc:
                r = by['ReduceLROnPlateauIncreaseOnImprovement']
                ck.eq([r.monitor, r.red_factor, r.inc_factor, r.patience, r.mode, r.min_delta, r.cooldown, r.min_lr],
                      [lm, w['lr_red_factor'], w['lr_inc_factor'], w['lr_patience'], w['lr_monitor_mode'], w['min_delta'], 0, w['min_lr']], 'plateau for %s' % d)
            else:
                r = by['ReduceLROnPlateau'].kw
                f = w['lr_red_factor'] if w['lr_red_factor'] is not None else w['lr_factor']
                ck.eq([r['monitor'], r['factor'], r['patience'], r['mode'], r['min_delta'], r['cooldown'], r['min_lr']],
                      [lm, f, w['lr_patience'], w['lr_monitor_mode'], w['min_delta'], 0, w['min_lr']], 'plateau for %s' % d)
            ck.step()
            ck.trace()


def k_keras_optim(ck, c):
    FT.install_keras()
    from hyperion.keras.helpers.optimizer_factory import OptimizerFactory as F
    allv = dict(lr=0.5, momentum=0.3, lr_decay=0.02, rho=0.6, epsilon=0.01, amsgrad=True, beta1=0.7, beta2=0.8, clipnorm=3.0, clipvalue=4.0)
    d0 = dict(lr=0.002, momentum=0.6, lr_decay=1e-6, rho=0.9, epsilon=1e-8, amsgrad=False, beta1=0.9, beta2=0.999, clipnorm=10, clipvalue=100)
    clip = dict(clipnorm='clipnorm', clipvalue='clipvalue', lr='lr')
    use = {'sgd': ('SGD', dict(momentum='momentum', decay='lr_decay'), dict(nesterov=False)),
           'nsgd': ('SGD', dict(momentum='momentum', decay='lr_decay'), dict(nesterov=True)),
           'rmsprop': ('RMSprop', dict(rho='rho', epsilon='epsilon', decay='lr_decay'), {}),
           'adam': ('Adam', dict(beta_1='beta1', beta_2='beta2', epsilon='epsilon', decay='lr_decay', amsgrad='amsgrad'), {}),
           'nadam': ('Nadam', dict(beta_1='beta1', beta_2='beta2', epsilon='epsilon', schedule_decay='lr_decay'), {}),
           'adamax': ('Adamax', dict(beta_1='beta1', beta_2='beta2', epsilon='epsilon', decay='lr_decay'), {})}
    for pre in (None, 'opt'):
        for t, (cn, m, fixed) in use.items():
            for d in subsets(allv):
                args, _ = parse(F, pre, argv(dict(optimizer=t, **d), pre, {}))
                o = F.create_optimizer(**args)
                w = dict(d0)
                w.update(d)
                want = dict(fixed)
                want.update((k, w[s]) for k, s in list(m.items()) + list(clip.items()))
                ck.eq((type(o).__name__, o.kw), (cn, want), 'optimizer %s from options %s' % (t, d))
                ck.step()
                ck.trace()
