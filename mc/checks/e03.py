"""E03: the programs that train, evaluate and extract sequence networks."""
import contextlib
import io
import itertools
import os
import runpy
import traceback
import sys
import logging

import numpy as np
from mc import fakekeras as F

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the options of the programs, run on small data over a stand-in for Keras on numpy, against the calls of the library; all sets of checkpoints at the start of a training'
BOUND = {
    'quick': 'extraction and evaluation: 5 programs x 3 kinds of input x all parts of up to 3 x all formats of posteriors and vectors x chunk lengths x with and without transform; training: 3 programs x with and without validation list x all sets of 3 checkpoints and best model x 8 combinations of frozen layers',
    'thorough': 'the same with all parts of up to 5 and 5 checkpoints'}
ASSUMPTIONS = ['Keras is a stand-in on numpy with the semantics of its documentation (it is not installed); training is recorded and changes all weights']
CHUNK = 2
BIN = '/repo/hyperion/bin/'
LENS = [('u3', 7), ('a1', 12), ('z', 1), ('b-2', 6), ('u1', 5)]
_S = {}


def setup():
    from mc.checks import e01, e02
    e01.setup()
    e02.setup()
    if _S:
        return
    import hyperion.keras.backend_addons as A
    A.reserve_gpu = lambda: 0
    _S.update(E=e01, V=e02)


def cases(tier):
    q = tier == 'quick'
    P = [(1, 1)] + [(i, n) for n in range(2, 4 if q else 6) for i in range(1, n + 1)]
    for prog in ('extract-seq-embed', 'eval-seq-embed', 'extract-seq-q-embed', 'eval-seq-q-embed', 'extract-tied-vae-embed'):
        for fmt in ('scp', 'h5', 'range'):
            for fixed in (True, False):
                yield dict(kind='extract', prog=prog, fmt=fmt, fixed=fixed, parts=P)
    for prog in ('gen-v1', 'gen-v2', 'lde-gen-v1'):
        for val in (False, True):
            for b in range(2 if q else 4):
                yield dict(kind='train', prog=prog, val=val, best=b % 2, n=3 if q else 4, half=b // 2)
        yield dict(kind='options', prog=prog)


def run_case(ck, c):
    setup()
    globals()['k_' + c['kind']](ck, c)


def run_tool(ck, tool, argv):
    old = sys.argv
    sys.argv = [tool] + [str(a) for a in argv]
    err = io.StringIO()
    ok = False
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
            runpy.run_path(BIN + tool, run_name='__main__')
        ok = True
    except SystemExit as e:
        if e.code:
            ck.fail('%s %s: exit code %s: %s' % (tool, ' '.join(sys.argv[1:]), e.code, err.getvalue()[-300:]))
        ok = True
    except Exception as e:
        ck.fail('%s %s: %s: %s\n%s' % (tool, ' '.join(sys.argv[1:]), type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-3:])))
    finally:
        sys.argv = old
        logging.disable(logging.CRITICAL)
    ck.step()
    return ok


def feats(ck, d, fmt):
    """writes the utterances; gives the specifier and the pairs (name, features) it stands for"""
    from hyperion.io import DataWriterFactory as W
    xs = [(k, _S['E'].utt(n, i).astype('float32')) for i, (k, n) in enumerate(LENS)]
    if fmt == 'h5':
        with W.create('h5:%s/f.h5' % d) as w:
            for k, x in xs:
                w.write([k], [x])
        return 'h5:%s/f.h5' % d, sorted(xs)
    with W.create('ark,scp:%s/f.ark,%s/f.scp' % (d, d)) as w:
        for k, x in xs:
            w.write([k], [x])
    if fmt == 'range':
        ls = [l.split() for l in open(d + '/f.scp')]
        out = []
        with open(d + '/g.scp', 'w') as f:
            for i, (k, p) in enumerate(ls):
                x = dict(xs)[k]
                if len(x) > 3:
                    f.write('%s %s[%d:%d]\n' % (k, p, 1, len(x) - 1))
                    out.append((k, x[1:len(x) - 1]))
                else:
                    f.write('%s %s\n' % (k, p))
                    out.append((k, x))
        return 'scp:%s/g.scp' % d, out
    return 'scp:%s/f.scp' % d, xs


def part(xs, i, n):
    """consecutive parts"""
    return xs[(i - 1) * len(xs) // n:i * len(xs) // n]


def transform(d):
    from hyperion.transforms import TransformList, MVN
    f = d + '/t.h5'
    TransformList([MVN(name='mvn', mu=np.array([0.25]), s=np.array([2.0]))]).save(f)
    return f


def read(spec):
    from hyperion.io import SequentialDataReaderFactory as R
    with R.create(spec) as r:
        k, v = r.read()
    return list(k), [np.asarray(x) for x in v]


def k_extract(ck, c):
    prog = c['prog']
    E, V = _S['E'], _S['V']
    d = ck.dir()
    spec, xs = feats(ck, d, c['fmt'])
    t = transform(d)
    from hyperion.transforms import TransformList
    q, tied = 'seq-q' in prog, 'tied' in prog
    S = 6 if c['fixed'] else None
    if tied:
        mk = lambda: V.nets('TiedSupVAE_QYQZgY', 1, 1, 1, S, dict(V.fmts('TiedSupVAE_QYQZgY', 'mean+logvar', 'mean+var', 0.2, 0.5), left_context=1, right_context=1))
    elif q:
        mk = lambda: E.nets('SeqQEmbed', 1, 1, 1, S, dict(pooling_input='mean+logvar', pooling_output='nat+prec', min_var=0.2, frame_corr_penalty=0.5, left_context=1, right_context=1))
    else:
        mk = lambda: E.nets('SeqEmbed', 1, 1, 1, S, dict(left_context=1, right_context=1))
    m = mk()
    m.build(None if S else 6)
    for i, n in enumerate([x for x in (getattr(m, a, None) for a in ('enc_net', 'pt_net', 'score_net', 'prepool_net', 'qy_net', 'qz_net', 'px_net')) if x is not None]):
        n.set_weights([w * 0.5 + 0.2 + 0.1 * i for w in n.get_weights()])
    m.save(d + '/m')
    cls = type(m)
    ext = 'extract' in prog
    out = ['nat+logvar', 'nat+logprec', 'nat+var', 'nat+prec', 'mean+logvar', 'mean+logprec', 'mean+var', 'mean+prec']
    opts = []
    if not ext:
        opts = [dict()]
    elif q or tied:
        opts = [dict(pooling_output=o, write_format=w) for o in out for w in ('p1', 'p2', 'p1+p2')] + [dict()]
    else:
        opts = [dict(layer_names=l) for l in (['e1'], ['e2'], ['e2', 'e1'], ['e1', 'e2', 'out'])]
    ref = {}
    for no, o in enumerate(opts):
        for length in ((None,) if S else (4, 9)):
            for pp in (None, t):
                parts = c['parts'] if (no < 2 or no == len(opts) - 1) and length != 9 else [(1, 1)]
                got_all = []
                for i, n in parts:
                    of = '%s/o%d.h5' % (d, no)
                    fmt = 'h5:' + of
                    if i % 2:
                        fmt = 'ark,scp:%s/o.ark,%s/o.scp' % (d, d)
                    argv = ['--seq-file', spec, '--model-file', d + '/m', '--output-path', fmt]
                    if pp:
                        argv += ['--preproc-file', pp]
                    if length:
                        argv += ['--max-seq-length', length]
                    if n > 1:
                        argv += ['--part-idx', i, '--num-parts', n]
                    for k, v in o.items():
                        argv += ['--' + k.replace('_', '-')] + (v if isinstance(v, list) else [v])
                    for f in ('o.ark', 'o.scp', 'o%d.h5' % no):
                        if os.path.exists(os.path.join(d, f)):
                            os.remove(os.path.join(d, f))
                    if not run_tool(ck, 'keras-%s.py' % prog, argv):
                        return
                    keys, vs = read('scp:%s/o.scp' % d if i % 2 else fmt)
                    key = (no, length, pp)
                    if key not in ref:
                        k = cls.load(d + '/m')
                        k.build(length)
                        if not ext:
                            k.build_eval()
                        elif tied:
                            k.build_qy(o.get('pooling_output', 'mean+var'))
                        elif q:
                            k.build_embed(o.get('pooling_output', 'mean+var'))
                        else:
                            k.build_embed(o['layer_names'])
                        r = {}
                        tr = TransformList.load(pp) if pp else (lambda x: x)
                        for u, x in xs:
                            x = tr.predict(x) if pp else x
                            if not ext:
                                y = k.predict_eval(x)
                                y = y[0] if np.ndim(y) == 2 else y
                            elif tied or q:
                                y = k.compute_qy(x) if tied else k.predict_embed(x)
                                y = [np.ravel(v) for v in y]
                                w = o.get('write_format', 'p1')
                                y = y[0] if w == 'p1' else y[1] if w == 'p2' else np.concatenate(y)
                            else:
                                y = k.predict_embed(x)
                            r[u] = np.ravel(y)
                        ref[key] = r
                    mine = part(xs, i, n)
                    want = [u for u, _ in mine]
                    if i % 2 == 0:
                        want = sorted(want)
                    ck.eq(keys, want, '%s %s: utterances' % (prog, argv[6:]))
                    for u, v in zip(keys, vs):
                        ck.close(v, ref[key][u], '%s %s: %s' % (prog, argv[6:], u), rtol=1e-4, atol=1e-5)
                    ck.state((prog, c['fmt'], no, length, pp is None, i, n))
    return


# ------------------------------------------------------------------ training
class Rec(object):
    """records what the program asks the network to do; the training moves all weights"""

    def __init__(self, cls):
        self.cls = cls
        self.log = []

    def __enter__(self):
        cls, rec = self.cls, self
        self.old = cls.__dict__['compile'], F.Model.fit_generator

        def compile(m, *a, **k):
            r = self.old[0](m, *a, **k)
            rec.flags = [(n, net.trainable, [(l.name, l.trainable) for l in net.layers]) for n, net in (('enc', m.enc_net), ('pt', m.pt_net))]
            rec.m = m
            rec.metrics = k
            rec.before = [w.copy() for w in rec.weights(m)]
            return r

        def fit(net, generator, steps_per_epoch=None, **k):
            rec.fit = dict(k, generator=generator, steps_per_epoch=steps_per_epoch)
            rec.compiled = net.compiled
            for n in (rec.m.enc_net, rec.m.pt_net):
                n.set_weights([w * 1.5 + 0.125 for w in n.get_weights()])
            rec.after = [w.copy() for w in rec.weights(rec.m)]
            return 'h'
        cls.compile = compile
        F.Model.fit_generator = fit
        return self

    def weights(self, m):
        return m.enc_net.get_weights() + m.pt_net.get_weights()

    def __exit__(self, *a):
        self.cls.compile, F.Model.fit_generator = self.old


N1 = {'gen-v1': ('prepool', 'postpool'), 'lde-gen-v1': ('prepool', 'postpool'), 'gen-v2': ('enc', 'pt')}


class Train(object):
    def __init__(self, ck, c):
        self.ck, self.prog = ck, c['prog']
        self.lde = 'lde' in self.prog
        E = _S['E']
        self.cls = getattr(E._S['E'], 'SeqEmbedLDE' if self.lde else 'SeqEmbed')
        self.d = d = ck.dir()
        self.spec, self.xs = feats(ck, d, 'scp')
        self.xs = [x for x in self.xs if len(x[1]) > 4]
        for f, n in (('train', slice(0, 3)), ('val', slice(1, 4))):
            with open(d + '/' + f, 'w') as o:
                for i, (k, _) in enumerate(self.xs[n]):
                    o.write('%s %s\n' % (k, 'c%d' % (LENS.index([x for x in LENS if x[0] == k][0]) % 2)))
        with open(d + '/classes', 'w') as o:
            o.write('c0\nc1\n')
        self.t = transform(d)
        x = F.Input(shape=(12, 1))
        self.archs(x)

    def archs(self, x):
        from hyperion.keras.keras_utils import save_model_arch
        dim = 4
        h = F.Dense(2, name='d1')(x)
        h = F.Dense(2, name='d2')(h)
        save_model_arch(self.d + '/enc.json', F.Model(x, h, name='enc'))
        z = F.Input(shape=(dim,))
        h = F.Dense(3, activation='tanh', name='e1')(z)
        h = F.Dense(2, activation='softmax', name='e2')(h)
        save_model_arch(self.d + '/pt.json', F.Model(z, h, name='pt'))

    def new(self, i):
        from hyperion.keras.keras_utils import load_model_arch as L
        p = dict(left_context=i)
        if self.lde:
            p.update(num_comp=2)
        m = self.cls(L(self.d + '/enc.json'), L(self.d + '/pt.json'), loss='categorical_crossentropy', **p)
        m.build(12)
        for n in (m.enc_net, m.pt_net):
            n.set_weights([w * 0 + 0.1 * (i + 1) + 0.01 * j for j, w in enumerate(n.get_weights())])
        return m

    def argv(self, out, val, *more):
        a, b = N1[self.prog]
        v = ['--data-path', self.spec, '--train-list', self.d + '/train', '--%s-net' % a, self.d + '/enc.json', '--%s-net' % b, self.d + '/pt.json',
             '--output-path', out, '--class-list', self.d + '/classes']
        if self.lde:
            v += ['--lde-num-comp', 2]
        if val:
            v += ['--val-list', self.d + '/val']
        return v + list(more)

    def run(self, out, val, *more):
        with Rec(self.cls) as r:
            ok = run_tool(self.ck, 'keras-train-cat-seq-embed-%s.py' % self.prog, self.argv(out, val, *more))
        return r if ok else None

    def gen(self, which, epoch, tr, opts):
        import argparse
        from hyperion.generators import SequenceBatchGeneratorV1 as A, SequenceBatchGeneratorV2 as B
        from hyperion.transforms import TransformList
        G = B if 'v2' in self.prog else A
        p = argparse.ArgumentParser()
        G.add_argparse_args(p)
        kw = G.filter_args(**vars(p.parse_args([str(o) for o in opts])))
        for k in ('init_epoch', 'class_list'):
            kw.pop(k, None)
        v = which == 'val'
        return G(self.spec, self.d + '/' + which, shuffle_seqs=not v, reset_rng=v, transform=TransformList.load(self.t) if tr else None, init_epoch=epoch, class_list=self.d + '/classes', **kw)

    def batches(self, r, val, epoch, tr, opts=()):
        ck = self.ck
        gs = self.gen('train', epoch, tr, opts)
        L = gs.max_seq_length
        gv = None
        if val:
            gv = self.gen('val', epoch, tr, opts)
            L = max(L, gv.max_seq_length)
        ck.eq(r.fit['steps_per_epoch'], gs.steps_per_epoch, 'steps of an epoch')
        if not val:
            ck.check(r.fit.get('validation_data') is None, 'validation data without a validation list')
        else:
            ck.eq(r.fit.get('validation_steps'), gv.steps_per_epoch, 'steps of the validation')
        for g, ref, what in ((r.fit['generator'], gs, 'training'),) + (((r.fit['validation_data'], gv, 'validation'),) if val else ()):
            for i in range(2 * ref.steps_per_epoch + 1):
                x, y = next(g)
                w = ref.read(max_seq_length=L)
                ck.close(np.asarray(x), np.asarray(w[1]), '%s batch %d' % (what, i), rtol=1e-6)
                ck.close(np.asarray(y), np.asarray(w[3]), '%s labels %d' % (what, i), rtol=1e-6)
            ck.check(np.shape(x)[1] == L, lambda: 'batch of shape %s for sequences of %d frames' % (np.shape(x), L))

    def saved(self, out, r, what):
        k = self.cls.load(out + '/model')
        for u, v in zip(r.weights(k), r.after):
            self.ck.close(u, v, '%s: weights of the saved network' % what, rtol=1e-6)
        return k


def k_train(ck, c):
    """all sets of checkpoints at start"""
    T = Train(ck, c)
    n = c['n']
    for no, have in enumerate(itertools.product((0, 1), repeat=n)):
        out = T.d + '/out%d' % no
        os.mkdir(out)
        for e in range(n):
            if have[e]:
                T.new(e).save('%s/model.%04d' % (out, e))
        if c['best']:
            T.new(7).save(out + '/model.best')
        epochs = (1, n + 1)[no % 2] if c['half'] else n + 1
        r = T.run(out, c['val'], '--epochs', epochs, '--batch-size', 2)
        if r is None:
            return
        es = [e for e in range(n) if have[e] and e <= epochs]
        what = 'checkpoints %s, best %d, %d epochs' % (have, c['best'], epochs)
        f = r.fit
        if es or c['best']:
            e = es[-1] if es else 7
            for u, v in zip(r.before, r.weights(T.new(e))):
                ck.close(u, v, '%s: weights at the start' % what, rtol=1e-6)
            ck.eq(r.m.left_context, e, '%s: options of the network' % what)
        else:
            ck.eq(r.m.left_context, 0, '%s: options of the network' % what)
        if es:
            ck.eq(f['initial_epoch'], es[-1] + 1, '%s: first epoch' % what)
        elif not c['best']:
            ck.eq(f['initial_epoch'], 0, '%s: first epoch' % what)
        ck.eq(f['epochs'], epochs, '%s: number of epochs' % what)
        T.batches(r, c['val'], f['initial_epoch'], False, ['--batch-size', 2])
        T.saved(out, r, what)
        ck.state((c['prog'], c['val'], have, c['best'], epochs))


def k_options(ck, c):
    T = Train(ck, c)
    a, b = N1[c['prog']]
    no = 0
    for fe, fl, fp in itertools.product((0, 1), repeat=3):
        for init in (0, 1):
            for pre in (0, 1):
                no += 1
                out = T.d + '/out%d' % no
                more = []
                if fe:
                    more += ['--freeze-' + a]
                if fl:
                    more += ['--freeze-%s-layers' % a, 'd2']
                if fp:
                    more += ['--freeze-%s-layers' % b, 'e1', 'e2']
                if init:
                    T.new(3).save(T.d + '/init')
                    more += ['--init-path', T.d + '/init']
                if pre:
                    more += ['--preproc-file', T.t]
                gopts = ['--batch-size', 2, '--min-seq-length', 3, '--max-seq-length', (6, 7)[pre]]
                more += gopts + ['--optimizer', ('sgd', 'adam')[pre], '--lr', (0.25, 0.5)[init],
                         '--left-context', 2, '--end-context', 1, '--save-all-epochs', '--patience', 5]
                if not T.lde:
                    more += ['--pooling', 'mean+logvar']
                r = T.run(out, True, *more)
                if r is None:
                    return
                ck.eq(r.m.left_context, 3 if init else 2, 'left context')
                if not init:
                    ck.eq(r.m.end_context, 1, 'end context')
                    if not T.lde:
                        ck.eq(r.m.pooling, 'mean+logvar', 'pooling')
                (_, ef, el), (_, pf, pl) = r.flags
                el, pl = dict(el), dict(pl)
                ck.eq(bool(ef), not fe, 'encoder frozen: %s' % more)
                ck.eq((bool(el['d1']), bool(el['d2'])), (True, not fl), 'layers of the encoder: %s' % more)
                ck.eq((bool(pf), bool(pl['e1']), bool(pl['e2'])), (True, not fp, not fp), 'layers of the network after the pooling: %s' % more)
                ck.eq(r.fit['initial_epoch'], 0, 'first epoch')
                ck.eq(r.fit['epochs'], 1000, 'number of epochs')
                cbs = r.fit['callbacks']
                h = [x for x in cbs if type(x).__name__ == 'HypModelCheckpoint']
                ck.check(len(h) == 1 and h[0].hyp_model is r.m and not h[0].save_best_only, 'checkpoints save the network that is trained')
                ck.eq(sorted(type(x).__name__ for x in cbs), ['CSVLogger', 'EarlyStopping', 'HypModelCheckpoint', 'ReduceLROnPlateau'], 'callbacks')
                o = r.compiled['optimizer']
                ck.eq(type(o).__name__.lower(), ('sgd', 'adam')[pre], 'optimizer')
                ck.eq(r.metrics['metrics'], ['accuracy'], 'metrics')
                ck.check(r.compiled['loss'] is not None, 'loss')
                T.batches(r, True, 0, pre, gopts)
                k = T.saved(out, r, str(more))
                ck.eq(k.left_context, 3 if init else 2, 'left context of the saved network')
                ck.state((c['prog'], fe, fl, fp, init, pre))
