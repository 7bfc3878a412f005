"""
T01  Training and scoring tools give the result of the library calls they stand for.

The tools are run for real (in process with runpy; each also once as a separate process) on scratch
files: every combination of their options, and every chain of up to two (thorough: three) training tools
linked through their transform lists.  The reference reads the vectors from a dictionary and calls the
library objects in memory.
"""
import contextlib
import io
import itertools
import json
import logging
import os
import runpy
import subprocess
import sys

import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of option combinations and of chains of tool invocations, run on the '
             'real tools and compared with an in-memory reference')
BOUND = {
    'quick': 'all combinations of the tool-specific options of 7 transform, 3 PLDA, 5 classifier and 4 '
             'scoring tools; all chains of at most 2 of 8 transform trainings; every tool once as a process',
    'thorough': 'the same with all chains of at most 3 transform trainings'}
CHUNK = 4

BIN = '/repo/hyperion/bin/'
D = 3
N = 4          # vectors per class
CLASSES = ('zed', 'ann', 'bob')
KEYS = ['u%02d' % ((7 * i) % 12) for i in range(12)]
SPK = {k: CLASSES[i % 3] for i, k in enumerate(KEYS)}
SPK6 = {k: SPK[k] + str(i % 2) for i, k in enumerate(KEYS)}     # six speakers, for the full-rank PLDA
TEST = ['t%d' % i for i in (3, 0, 2, 4, 1)]
COH = ['c%d' % i for i in (1, 0, 2)]


def vectors():
    V = {}
    r = np.random.RandomState(11)
    off = {c: np.array(v, dtype=float) for c, v in zip(CLASSES, ([2, 0, 1], [-1, 1, 0], [0, -2, -1]))}
    for k in KEYS:
        V[k] = np.round((off[SPK[k]] + r.randn(D)) * 64) / 64
    for k in TEST + COH:
        V[k] = np.round(1.5 * r.randn(D) * 64) / 64
    # mean and variance vectors for the uncertainty propagation tools
    W = {k: np.hstack((v, np.round(64 * (0.25 + 0.5 * r.rand(D))) / 64)) for k, v in V.items()}
    return V, W


V, W = vectors()
PROBE = np.array([[0.5, -1, 2], [0, 0, 0], [1, 1, 1], [-3, 0.25, 1.5]])
PROBE_UP = np.hstack((PROBE, np.full(PROBE.shape, 0.5) + 0.25 * np.abs(PROBE)))


class Env(object):
    """files of one case"""

    def __init__(self, ck):
        from hyperion.io import DataWriterFactory
        self.ck = ck
        self.d = ck.dir()
        for name, vec in (('v', V), ('w', W)):
            with DataWriterFactory.create('h5:' + self.p(name + '.h5')) as w:
                for k, x in sorted(vec.items()):
                    w.write([k], [x])
        with DataWriterFactory.create('ark,scp:%s,%s' % (self.p('v.ark'), self.p('v.scp'))) as w:
            for k, x in sorted(V.items()):
                w.write([k], [x])
        self.write('list', ''.join('%s %s\n' % (k, SPK[k]) for k in KEYS))
        self.write('list6', ''.join('%s %s\n' % (k, SPK6[k]) for k in KEYS))
        self.write('val', ''.join('%s %s\n' % (k, SPK6[k]) for k in KEYS[:7]))

    def p(self, name):
        return os.path.join(self.d, name)

    def write(self, name, text):
        with open(self.p(name), 'w') as f:
            f.write(text)

    def run(self, tool, **kw):
        """kw: option (with _ for -) -> value; True: flag, None: absent, list: several"""
        argv = []
        for k, v in kw.items():
            k = '--' + k.replace('_', '-')
            if v is None or v is False:
                continue
            if v is True:
                argv.append(k)
            elif isinstance(v, (list, tuple)):
                argv += [k] + [str(x) for x in v]
            else:
                argv += [k, str(v)]
        run_tool(self.ck, tool, argv)


def run_tool(ck, tool, argv):
    old = sys.argv
    sys.argv = [tool] + argv
    err = io.StringIO()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
            runpy.run_path(BIN + tool, run_name='__main__')
    except SystemExit as e:
        if e.code:
            ck.fail('%s %s: exit code %s: %s' % (tool, ' '.join(argv), e.code, err.getvalue()[-300:]))
    except Exception as e:
        ck.fail('%s %s: %s: %s' % (tool, ' '.join(argv), type(e).__name__, e))
    finally:
        sys.argv = old
        logging.disable(logging.CRITICAL)
    ck.step()


# ------------------------------------------------------------------ transforms
def x_of(keys, up=False):
    return np.array([(W if up else V)[k] for k in keys])


def class_ids(keys, spk=SPK):
    return np.unique([spk[k] for k in keys], return_inverse=True)[1]


TRANSFORMS = {
    'train-mvn.py': {'name': (None, 'abc')},
    'train-pca.py': {'name': (None, 'abc'), 'pca_dim': (None, 2), 'update_mu': (None, 'false'),
                     'update_t': (None, 'false')},
    'train-lda.py': {'name': (None, 'abc'), 'lda_dim': (None, 1, 2), 'min_spc': (None, 2)},
    'train-nda.py': {'name': (None, 'abc'), 'nda_dim': (None, 2), 'k': (2, 3), 'alpha': (None, 2)},
    'train-cw.py': {'name': (None, 'abc'), 'no_lnorm': (None, True), 'update_mu': (None, 'false'),
                    'update_t': (None, 'false', 'true')},
    'train-cw-up.py': {'name': (None, 'abc'), 'no_lnorm': (None, True), 'update_mu': (None, 'false'),
                       'update_t': (None, 'false')},
    'train-gaussianizer.py': {'name': (None, 'abc'), 'max_vectors': (None, 5)},
}
NAMES = {'train-mvn.py': 'mvn', 'train-pca.py': 'pca', 'train-lda.py': 'lda', 'train-nda.py': 'nda',
         'train-cw.py': 'lnorm', 'train-cw-up.py': 'lnorm', 'train-gaussianizer.py': 'gauss'}
INPUT = ('train-pca.py', 'train-cw.py', 'train-cw-up.py', 'train-gaussianizer.py')


def new_model(tool, o):
    from hyperion import transforms as T
    name = o.get('name') or NAMES[tool]
    b = {None: True, 'false': False, 'true': True}
    if tool == 'train-mvn.py':
        return T.MVN(name=name)
    if tool == 'train-pca.py':
        return T.PCA(pca_dim=o.get('pca_dim'), update_mu=b[o.get('update_mu')],
                     update_T=b[o.get('update_t')], name=name)
    if tool == 'train-lda.py':
        return T.LDA(lda_dim=o.get('lda_dim'), name=name)
    if tool == 'train-nda.py':
        return T.NDA(name=name)
    if tool == 'train-gaussianizer.py':
        return T.Gaussianizer(max_vectors=o.get('max_vectors'), name=name)
    cls = {('train-cw.py', False): T.LNorm, ('train-cw.py', True): T.CentWhiten,
           ('train-cw-up.py', False): T.LNormUP, ('train-cw-up.py', True): T.CentWhitenUP}
    return cls[tool, bool(o.get('no_lnorm'))](update_mu=b[o.get('update_mu')],
                                             update_T=b[o.get('update_t')], name=name)


def fit_model(tool, o, model, x, ids):
    if tool == 'train-lda.py':
        model.fit(x, ids)
    elif tool == 'train-nda.py':
        from hyperion.transforms.sb_sw import NSbSw
        s = NSbSw(K=o['k'], alpha=o.get('alpha') or 1)
        s.fit(x, ids)
        model.fit(mu=s.mu, Sb=s.Sb, Sw=s.Sw, nda_dim=o.get('nda_dim'))
    else:
        model.fit(x)
    return model


def apply(models, x):
    for m in models:
        x = m.predict(x)
    return x


def params(m):
    d = {k: v for k, v in m.get_config().items() if k not in ('name', 'class_name')}
    for k in ('mu', 'T', 's', 'r'):
        if hasattr(m, k):
            d['.' + k] = getattr(m, k)
    return d


def compare_models(ck, what, got, want, probe):
    if [type(m).__name__ for m in got] != [type(m).__name__ for m in want]:
        ck.fail('%s: saved %s instead of %s' % (what, [type(m).__name__ for m in got],
                                                [type(m).__name__ for m in want]))
    if [m.name for m in got] != [m.name for m in want]:
        ck.fail('%s: saved names %s instead of %s' % (what, [m.name for m in got], [m.name for m in want]))
    for g, w in zip(got, want):
        a, b = params(g), params(w)
        if set(a) != set(b):
            ck.fail('%s: %s holds %s instead of %s' % (what, g.name, sorted(a), sorted(b)))
        for k in a:
            if (a[k] is None) != (b[k] is None):
                ck.fail('%s: %s of %s is %s instead of %s' % (what, k, g.name, a[k], b[k]))
            if isinstance(b[k], np.ndarray):
                ck.close(a[k], b[k], '%s: %s of %s' % (what, k, g.name), rtol=2e-4, atol=2e-4)
            elif a[k] != b[k]:
                ck.fail('%s: %s of %s is %s instead of %s' % (what, k, g.name, a[k], b[k]))
    ck.close(apply(got, probe), apply(want, probe), what + ': transformed vectors', rtol=2e-3, atol=2e-3)


def stored(E, m):
    """the model as its file gives it back (file precision)"""
    f = E.p('stored.h5')
    m.save(f)
    return type(m).load(f)


def preproc_models(up):
    """a fixed list of transforms given as --preproc-file"""
    from hyperion import transforms as T
    if up:
        # contracts: q-scoring needs variances under one
        m = T.CentWhitenUP(mu=np.array([0.5, -0.5, 0.25]), T=np.array([[.5, 0.25, 0], [0, .5, 0], [0, 0.125, .75]]),
                           name='pre')
    else:
        m = T.CentWhiten(mu=np.array([0.5, -0.5, 0.25]), T=np.array([[1, 0.5, 0], [0, 1, 0], [0, 0.25, 2.]]),
                         name='pre')
    return [m]


def load_models(path, tlist):
    from hyperion import transforms as T
    if tlist:
        t = T.TransformList.load(path)
        return list(t.transforms)
    from hyperion.hyp_model import HypModel
    c = HypModel.load_config(path)
    return [getattr(T, c['class_name']).load(path)]


def transform_case(ck, tool, o):
    from hyperion.transforms import TransformList
    up = tool.endswith('-up.py')
    tlist_args = [('preproc', (False, True)), ('no_save_tlist', (None, True)), ('no_append_tlist', (None, True)),
                  ('source', ('h5', 'scp') if not up else ('h5',))]
    if tool in INPUT and not any(o.get(k) for k in ('max_vectors', 'pca_dim')):
        tlist_args.append(('input', (None, 'model', 'tlist')))
    else:
        tlist_args.append(('input', (None,)))
    names = [a for a, _ in tlist_args]
    E = Env(ck)
    x = x_of(KEYS, up)
    ids = class_ids(KEYS)
    for i, vals in enumerate(itertools.product(*[v for _, v in tlist_args])):
        t = dict(zip(names, vals))
        if t['source'] == 'scp' and (t['no_save_tlist'] or t['no_append_tlist']):
            continue
        pre = preproc_models(up) if t['preproc'] else []
        pre_file = None
        if pre:
            pre_file = E.p('pre%d.h5' % i)
            TransformList(preproc_models(up)).save(pre_file)
        model = new_model(tool, o)
        in_file = None
        if t['input']:
            # a model trained before on part of the data
            prev = new_model(tool, {k: v for k, v in o.items() if not k.startswith('update')})
            fit_model(tool, o, prev, x[3:9] + 1, ids[3:9])
            if tool != 'train-gaussianizer.py':
                prev.update_mu, prev.update_T = model.update_mu, model.update_T
            in_file = E.p('in%d.h5' % i)
            if t['input'] == 'model':
                prev.save(in_file)
                model = type(prev).load(in_file)
            else:
                other = preproc_models(up)[0]
                TransformList([other, prev]).save(in_file)
                model = [m for m in TransformList.load(in_file).transforms if m.name == prev.name][0]
        elif o.get('update_t') == 'false' or o.get('update_mu') == 'false' and tool != 'train-pca.py':
            continue    # a parameter that is neither given nor trained
        model = stored(E, fit_model(tool, o, model, apply(pre, x), ids))
        want = (pre if not t['no_save_tlist'] and not t['no_append_tlist'] else []) + [model]
        out = E.p('out%d.h5' % i)
        src = {'h5': 'h5:' + E.p('w.h5' if up else 'v.h5'), 'scp': 'scp:' + E.p('v.scp')}[t['source']]
        opts = dict(iv_file=src, train_list=E.p('list'), preproc_file=pre_file, output_path=out,
                    no_save_tlist=t['no_save_tlist'], no_append_tlist=t['no_append_tlist'], **o)
        if tool in INPUT:
            opts['input_path'] = in_file
        what = '%s %s' % (tool, {k: v for k, v in list(o.items()) + list(t.items()) if v})
        E.run(tool, **opts)
        got = load_models(out, not t['no_save_tlist'])
        compare_models(ck, what, got, want, PROBE_UP if up else PROBE)
        ck.state([tool, sorted((k, str(v)) for k, v in list(o.items()) + list(t.items()))])
        ck.trace()


CHAIN = [('train-mvn.py', {}), ('train-pca.py', {'pca_dim': 2}), ('train-lda.py', {'lda_dim': 2}),
         ('train-nda.py', {'k': 2}), ('train-cw.py', {'name': 'ln'}), ('train-cw.py', {'no_lnorm': True}),
         ('train-gaussianizer.py', {}), ('train-pca.py', {'name': 'rot', 'update_mu': 'false'})]


def chain_case(ck, seq):
    """tools run one after another, each given the transform list the one before it saved"""
    E = Env(ck)
    x = x_of(KEYS)
    ids = class_ids(KEYS)
    models = []
    pre_file = None
    for n, j in enumerate(seq):
        tool, o = CHAIN[j]
        if any(CHAIN[i][0] == tool for i in seq[:n]):
            # one list cannot hold two transforms of one name
            o = dict(o, name='step%d' % n)
        m = fit_model(tool, o, new_model(tool, o), apply(models, x), ids)
        out = E.p('o%d.h5' % n)
        E.run(tool, iv_file='h5:' + E.p('v.h5'), train_list=E.p('list'), preproc_file=pre_file, output_path=out,
              **o)
        got = load_models(out, True)
        compare_models(ck, 'chain %s step %d' % ([CHAIN[j][0] for j in seq], n), got, models + [stored(E, m)], PROBE)
        # the next tool starts from the saved list
        models, pre_file = got, out
    ck.state(['chain', seq])
    ck.trace()


# ------------------------------------------------------------------ PLDA
def plda_train_case(ck, o, val, pre):
    from hyperion.helpers import PLDAFactory as F
    from hyperion.transforms import TransformList
    E = Env(ck)
    x, ids = x_of(KEYS), class_ids(KEYS, SPK6)
    models = preproc_models(False) if pre else []
    if pre:
        TransformList(preproc_models(False)).save(E.p('pre.h5'))
    args = dict(plda_type=o['plda_type'], y_dim=o['y_dim'], z_dim=o.get('z_dim'), name=o.get('name') or 'plda')
    if o.get('no_update_mu'):
        args['update_mu'] = False
    m = F.create_plda(**args)
    kw = {}
    if val:
        kw = dict(x_val=apply(models, x_of(KEYS[:7])), class_ids_val=class_ids(KEYS[:7], SPK6))
    elbos = m.fit(apply(models, x), ids, epochs=o['epochs'], ml_md=o.get('ml_md') or 'ml+md',
                  md_epochs=o.get('md_epochs'), **kw)
    E.run('train-plda.py', iv_file='h5:' + E.p('v.h5'), train_list=E.p('list6'), val_list=E.p('val') if val else None,
          preproc_file=E.p('pre.h5') if pre else None, output_path=E.p('plda.h5'), **o)
    g = F.load_plda(o['plda_type'], E.p('plda.h5'))
    what = 'train-plda.py %s val=%s preproc=%s' % (o, val, pre)
    if type(g) is not type(m) or g.name != m.name:
        ck.fail('%s: saved %s %s' % (what, type(g).__name__, g.name))
    for k in ('mu', 'B', 'W', 'V', 'D', 'U'):
        if hasattr(m, k) and getattr(m, k) is not None:
            ck.close(getattr(g, k), getattr(m, k), '%s: %s' % (what, k), rtol=1e-3, atol=1e-3)
    ck.close(g.llr_1vs1(PROBE, PROBE[:2]), m.llr_1vs1(PROBE, PROBE[:2]), what + ': scores', rtol=1e-3, atol=1e-3)
    t = np.loadtxt(E.p('plda.csv'), delimiter=',', ndmin=2)
    ck.close(t, np.vstack((np.arange(o['epochs']),) + tuple(elbos)).T, what + ': objective table', rtol=1e-4)
    ck.state(['plda', sorted((k, str(v)) for k, v in o.items()), val, pre])
    ck.trace()


def some_plda(kind):
    from hyperion.helpers import PLDAFactory as F
    m = F.create_plda(kind, y_dim=2, z_dim=1, name='p')
    m.fit(x_of(KEYS), class_ids(KEYS, SPK6), epochs=2)
    return m


ENROLL = [('u00', 'm2'), ('u05', 'm0'), ('u03', 'm1')]
ENROLL_N = [('u00', 'm2'), ('u05', 'm0'), ('u03', 'm2'), ('u07', 'm1'), ('u01', 'm0'), ('u10', 'm2')]


def trial_files(E, multi):
    from hyperion.utils import TrialNdx
    en = ENROLL_N if multi else ENROLL
    E.write('enroll', ''.join('%s %s\n' % t for t in en + [('u11', 'm9'), ('u02', 'a0')]))    # two unused models
    mods = sorted(set(m for _, m in en))
    segs = sorted(TEST)
    mask = np.ones((len(mods), len(TEST)), dtype=bool)
    mask[0, 1] = mask[-1, 2] = False
    TrialNdx(mods, segs, mask).save(E.p('ndx.h5'))
    E.write('coh', ''.join('%s %s\n' % (k, k) for k in COH))
    return {'enroll-test': (en, TEST, 'enroll', None, 'ndx.h5'), 'enroll-coh': (en, COH, 'enroll', 'coh', 'ndx.h5'),
            'coh-test': ([(k, k) for k in COH], TEST, 'coh', None, 'ndx.h5'),
            'coh-coh': ([(k, k) for k in COH], COH, 'coh', 'coh', None)}


def score_case(ck, tool, kind, pool, mode, parts, pre):
    """mode: the evaluation set; every part of the model and segment grid"""
    from hyperion.utils import TrialScores
    from hyperion.transforms import TransformList
    E = Env(ck)
    multi = tool == 'eval-plda-nvs1.py'
    en, tests, f_en, f_test, f_ndx = trial_files(E, multi)[mode]
    pm = preproc_models(False) if pre else []
    if pre:
        TransformList(preproc_models(False)).save(E.p('pre.h5'))
    models = {}
    for k, m in en:
        models.setdefault(m, []).append(k)
    opts = {}
    if kind:
        some_plda(kind).save(E.p('m.h5'))
        plda = type(some_plda(kind)).load(E.p('m.h5'))
        opts = dict(plda_type=kind, model_file=E.p('m.h5'))
        if pool:
            opts['pool_method'] = pool

    def score(m, s):
        a = apply(pm, x_of(models[m]))
        b = apply(pm, x_of([s]))
        if not kind:
            return float(np.dot(a[0], b[0]) / np.linalg.norm(a[0]) / np.linalg.norm(b[0]))
        if not multi:
            return float(plda.llr_1vs1(a, b)[0, 0])
        return float(plda.llr_Nvs1(a, b, method=pool or 'vavg-lnorm', ids1=np.zeros(len(a), dtype=int))[0, 0])

    seen = {}
    for mi in range(1, parts[0] + 1):
        for si in range(1, parts[1] + 1):
            out = E.p('s_%d_%d.h5' % (mi, si))
            E.run(tool, iv_file='h5:' + E.p('v.h5'), enroll_file=E.p(f_en),
                  test_file=E.p(f_test) if f_test else None, ndx_file=E.p(f_ndx) if f_ndx else None,
                  eval_set=None if mode == 'enroll-test' else mode,
                  preproc_file=E.p('pre.h5') if pre else None, score_file=out,
                  model_part_idx=mi, num_model_parts=parts[0], seg_part_idx=si, num_seg_parts=parts[1], **opts)
            s = TrialScores.load(out)
            for i, m in enumerate(s.model_set):
                for j, t in enumerate(s.seg_set):
                    if (m, t) in seen:
                        ck.fail('%s: %s/%s in two parts' % (tool, m, t))
                    if not s.score_mask[i, j]:
                        ck.fail('%s: no score for %s/%s' % (tool, m, t))
                    seen[m, t] = s.scores[i, j]
    what = '%s %s %s %s parts %s preproc %s' % (tool, kind, pool, mode, parts, pre)
    want = {(m, t) for m in models for t in tests}
    if set(seen) != want:
        ck.fail('%s: trials %s' % (what, sorted(set(seen) ^ want)))
    ratio = None
    for (m, t), v in sorted(seen.items()):
        r = score(m, t)
        if not kind:
            # cosine up to one positive scale factor
            if ratio is None and abs(r) > 0.05:
                ratio = v / r
                if ratio <= 0:
                    ck.fail('%s: negative scale' % what)
    for (m, t), v in sorted(seen.items()):
        r = score(m, t) * (ratio or 1)
        if abs(v - r) > 1e-3 * (1 + abs(r)):
            ck.fail('%s: score of %s/%s is %g instead of %g' % (what, m, t, v, r))
    ck.state(['score', tool, kind, pool, mode, parts, pre])
    ck.trace()


# ------------------------------------------------------------------ classifiers
def clf(name):
    from hyperion import classifiers as C
    return {'linear-gbe': C.LinearGBE, 'linear-gbe-up': C.LinearGBEUP, 'linear-svmc': C.LinearSVMC,
            'logistic-regression': C.LogisticRegression, 'q-scoring-homo-gbe': C.QScoringHomoGBE}[name]


CLF_TRAIN = {
    'linear-gbe': [{}, {'balance_class_weight': True}, {'name': 'n1'}, {'prior': 'PRIOR'},
                   {'prior': 'PRIOR', 'prior_beta': 2, 'prior_nu': 7}, {'prior': 'PRIOR', 'post_beta': 3, 'post_nu': 9}],
    'linear-gbe-up': [{}, {'balance_class_weight': True}, {'name': 'n1'}, {'prior': 'PRIOR', 'prior_nu': 7}],
    'linear-svmc': [{}, {'c': 0.25}, {'no_use_bias': True}, {'balance_class_weight': True}, {'name': 'n1'},
                    {'loss': 'hinge'}, {'penalty': 'l1', 'no_dual': True}, {'bias_scaling': 2.0}],
    'logistic-regression': [{}, {'lambda_reg': 0.1}, {'no_use_bias': True, 'lambda_reg': 0.1},
                            {'multi_class': 'multinomial', 'lambda_reg': 0.1}, {'solver': 'newton-cg', 'lambda_reg': 0.1},
                            {'name': 'n1', 'lambda_reg': 0.5}, {'lambda_reg': 0.1, 'bias_scaling': 0.5}],
    'q-scoring-homo-gbe': [{}, {'balance_class_weight': True}, {'name': 'n1'}, {'prior': 'PRIOR'},
                           {'prior': 'PRIOR', 'prior_n': 3}, {'prior': 'PRIOR', 'post_n': 3}],
}
CLF_EVAL = {
    'linear-gbe': [{'eval_method': m, 'normalize': n} for m in (None, 'linear', 'llk', 'predictive') for n in (None, True)],
    'linear-gbe-up': [{'eval_method': m, 'normalize': n} for m in (None, 'linear') for n in (None, True)],
    'linear-svmc': [{'eval_type': m} for m in (None, 'logit', 'bin-logpost', 'bin-post', 'cat-logpost', 'cat-post')],
    'logistic-regression': [{'eval_type': m} for m in (None, 'logit', 'log-post', 'post')],
    'q-scoring-homo-gbe': [{'normalize': n} for n in (None, True)],
}
ARG = {'no_use_bias': ('use_bias', False), 'no_update_W': ('update_W', False), 'no_update_mu': ('update_mu', False),
       'no_dual': ('dual', False), 'c': ('C', None), 'prior_n': ('prior_N', None), 'post_n': ('post_N', None)}
# defaults of the options, as the help texts of the tools give them
GBE_DEF = {'name': 'lgbe', 'balance_class_weight': False, 'prior_beta': 16, 'prior_nu': 16}
CLF_DEFAULT = {'linear-gbe': GBE_DEF, 'linear-gbe-up': GBE_DEF,
               'linear-svmc': {'name': 'svc', 'balance_class_weight': False},
               'logistic-regression': {'name': 'lr', 'multi_class': 'ovr'},
               'q-scoring-homo-gbe': {'name': 'q_scoring', 'balance_class_weight': False}}


def is_up(name):
    return name in ('linear-gbe-up', 'q-scoring-homo-gbe')


def fit_clf(name, o, x, ids, prior=None):
    kw = dict(CLF_DEFAULT[name])
    for k, v in o.items():
        if v is None:
            continue
        k2, v2 = ARG.get(k, (k, None))
        kw[k2] = v if v2 is None else v2
    if kw.get('prior') == 'PRIOR':
        kw['prior'] = prior
    m = clf(name)(**kw)
    m.fit(x, ids)
    return m


def mul_prob(x):
    return x


def clf_train_case(ck, name, o, pre, cls2int):
    from hyperion.transforms import TransformList
    up = is_up(name)
    E = Env(ck)
    pm = preproc_models(up) if pre else []
    if pre:
        TransformList(preproc_models(up)).save(E.p('pre.h5'))
    x = apply(pm, x_of(KEYS, up))
    ids = class_ids(KEYS)
    if cls2int:
        order = ['bob', 'zed', 'ann']
        E.write('c2i', ''.join('%s %d\n' % (c, i) for i, c in enumerate(order)))
        ids = np.array([order.index(SPK[k]) for k in KEYS])
    prior = None
    o2 = dict(o)
    if o.get('prior'):
        prior = E.p('prior.h5')
        fit_clf(name, {}, apply(pm, x_of(KEYS, up) + 0.25), ids).save(prior)
        o2['prior'] = prior
    m = fit_clf(name, o, x, ids, prior)
    E.run('train-%s.py' % name, iv_file='h5:' + E.p('w.h5' if up else 'v.h5'), train_list=E.p('list'),
          preproc_file=E.p('pre.h5') if pre else None, class2int_file=E.p('c2i') if cls2int else None,
          output_path=E.p('m.h5'), **o2)
    g = clf(name).load(E.p('m.h5'))
    what = 'train-%s.py %s preproc %s classes %s' % (name, o, pre, cls2int)
    if g.name != m.name:
        ck.fail('%s: name %s instead of %s' % (what, g.name, m.name))
    probe = np.abs(PROBE_UP) if up else PROBE
    ck.close(g.predict(probe), m.predict(probe), what + ': predictions', rtol=5e-3, atol=5e-3)
    ck.state(['clf', name, sorted((k, str(v)) for k, v in o.items()), pre, cls2int])
    ck.trace()


def clf_eval_case(ck, name, o, pre, parts):
    from hyperion.transforms import TransformList
    from hyperion.utils import TrialScores
    from hyperion.io import SequentialDataReaderFactory
    up = is_up(name)
    E = Env(ck)
    pm = preproc_models(up) if pre else []
    if pre:
        TransformList(preproc_models(up)).save(E.p('pre.h5'))
    ids = class_ids(KEYS)
    names = sorted(CLASSES)
    train = {'lambda_reg': 0.1} if name == 'logistic-regression' else {}
    fit_clf(name, train, apply(pm, x_of(KEYS, up)), ids).save(E.p('m.h5'))
    m = clf(name).load(E.p('m.h5'))
    E.write('c2i', ''.join('%s %d\n' % (c, i) for i, c in enumerate(names)))
    E.write('test', ''.join('%s\n' % k for k in TEST))
    seen, vec = {}, {}
    for si in range(1, parts + 1):
        E.run('eval-%s.py' % name, iv_file=E.p('w.h5' if up else 'v.h5'), class2int_file=E.p('c2i'),
              test_file=E.p('test'), preproc_file=E.p('pre.h5') if pre else None, model_file=E.p('m.h5'),
              score_file=E.p('s%d.h5' % si), vector_score_file=E.p('vs%d.h5' % si),
              seg_part_idx=si, num_seg_parts=parts, **o)
        s = TrialScores.load(E.p('s%d.h5' % si))
        for i, c in enumerate(s.model_set):
            for j, t in enumerate(s.seg_set):
                if (c, t) in seen or not s.score_mask[i, j]:
                    ck.fail('eval-%s.py: %s/%s' % (name, c, t))
                seen[c, t] = s.scores[i, j]
        import gc
        gc.collect()
        with SequentialDataReaderFactory.create('h5:' + E.p('vs%d.h5' % si)) as r:
            ks, xs = r.read(0)
            for k, v in zip(ks, xs):
                if k in vec:
                    ck.fail('eval-%s.py: vector of %s twice' % (name, k))
                vec[k] = np.array(v)
    what = 'eval-%s.py %s preproc %s parts %d' % (name, o, pre, parts)
    if set(seen) != {(c, t) for c in names for t in TEST} or set(vec) != set(TEST):
        ck.fail('%s: trials %s' % (what, sorted(seen)))
    kw = {k: v for k, v in o.items() if v is not None}
    for t in TEST:
        w = m.predict(apply(pm, x_of([t], up)), **kw)[0]
        ck.close([seen[c, t] for c in names], w, '%s: scores of %s' % (what, t), rtol=1e-3, atol=1e-3)
        ck.close(vec[t], w, '%s: score vector of %s' % (what, t), rtol=1e-3, atol=1e-3)
    ck.state(['clfeval', name, sorted((k, str(v)) for k, v in o.items()), pre, parts])
    ck.trace()


# ------------------------------------------------------------------ normalization and performance
def snorm_case(ck, kind, perm, adapt=None):
    from hyperion.utils import TrialScores
    E = Env(ck)
    r = np.random.RandomState(5)
    mods, segs = ['m1', 'm0', 'm2'], ['t2', 't0', 't1', 't3']
    cm, cs = ['c1', 'c0'], ['d2', 'd0', 'd1']
    if adapt:
        cm, cs = ['d0', 'd3', 'd1', 'd2'], ['d2', 'd0', 'd1', 'd3']
    S = {'e': (mods, segs), 'ec': (mods, cs), 'ct': (cm, segs), 'cc': (cm, cs)}
    val = {}
    for n, (a, b) in S.items():
        a2, b2 = list(a), list(b)
        if perm and n != 'e':
            # cohort files in their own order and with models and segments that are not needed
            a2 = a2[::-1] + (['extra_m'] if a is mods else [])
            b2 = b2[1:] + b2[:1] + (['extra_s'] if b is segs else [])
        x = np.round(r.randn(len(a2), len(b2)) * 64) / 32 + np.arange(len(a2) * len(b2)).reshape(len(a2), -1) / 4096    # no ties
        TrialScores(a2, b2, x, np.ones(x.shape, dtype=bool)).save(E.p(n + '.h5'))
        val[n] = {(m, s): x[i, j] for i, m in enumerate(a2) for j, s in enumerate(b2)}
    opts = dict(enr_coh_file=E.p('ec.h5'), coh_test_file=E.p('ct.h5'), coh_coh_file=E.p('cc.h5'))
    if kind in ('s-norm', None):
        del opts['coh_coh_file']
    if kind == 't-norm':
        del opts['coh_coh_file'], opts['enr_coh_file']
    if kind == 'z-norm':
        del opts['coh_coh_file'], opts['coh_test_file']
    E.run('eval-score-norm.py', score_file=E.p('e.h5'), output_file=E.p('o.h5'), norm_type=kind, adapt_coh=adapt, **opts)
    g = TrialScores.load(E.p('o.h5'))

    def st(l):
        return np.mean(l), max(np.std(l), 1e-5)

    def z(sc, m, s, coh):
        mu, sd = st([coh[m, c] for c in cs])
        return (sc[m, s] - mu) / sd

    def t(sc, m, s, coh):
        mu, sd = st([coh[c, s] for c in cm])
        return (sc[m, s] - mu) / sd

    got = {(m, s): g.scores[i, j] for i, m in enumerate(g.model_set) for j, s in enumerate(g.seg_set)}
    if set(got) != {(m, s) for m in mods for s in segs}:
        ck.fail('eval-score-norm.py %s: trials %s' % (kind, sorted(got)))
    for m in mods:
        for s in segs:
            if kind == 't-norm':
                w = t(val['e'], m, s, val['ct'])
            elif kind == 'z-norm':
                w = z(val['e'], m, s, val['ec'])
            elif kind == 'zt-norm':
                ze = {(m, s): z(val['e'], m, s, val['ec'])}
                zc = {(c, s): z(val['ct'], c, s, val['cc']) for c in cm}
                w = t(ze, m, s, zc)
            elif adapt:
                bz = sorted(cs, key=lambda c: -val['ct'][c, s])[:adapt]
                bt = sorted(cs, key=lambda c: -val['ec'][m, c])[:adapt]
                (mz, sz), (mt, s_t) = st([val['ec'][m, c] for c in bz]), st([val['ct'][c, s] for c in bt])
                w = ((val['e'][m, s] - mz) / sz + (val['e'][m, s] - mt) / s_t) / np.sqrt(2)
            else:
                w = (t(val['e'], m, s, val['ct']) + z(val['e'], m, s, val['ec'])) / np.sqrt(2)
            if abs(got[m, s] - w) > 1e-3 * (1 + abs(w)):
                ck.fail('eval-score-norm.py %s (reordered cohort %s): %s/%s is %g instead of %g' % (
                    kind, perm, m, s, got[m, s], w))
    ck.state(['snorm', kind, perm, adapt])
    ck.trace()


def perf_case(ck, pattern, path):
    """pattern: for each trial tar / non / not in the key"""
    from hyperion.utils import TrialScores, TrialKey
    from hyperion.metrics import compute_eer
    E = Env(ck)
    mods, segs = ['m1', 'm0'], ['t2', 't0', 't1']
    x = np.array([[2., -1, 0.5], [1.5, 0.25, -3]])
    TrialScores(mods, segs, x, np.ones(x.shape, dtype=bool)).save(E.p('s.h5'))
    km, ks = ['m0', 'm1'], ['t0', 't1', 't2']
    p = np.array(pattern).reshape(2, 3)
    TrialKey(km, ks, p == 1, p == 2).save(E.p('k.h5'))
    sc = np.array([[x[mods.index(m), segs.index(s)] for s in ks] for m in km])
    tar, non = sc[p == 1], sc[p == 2]
    cwd = os.getcwd()
    os.chdir(E.d)
    try:
        E.run('eval-2class-performance.py', score_file=E.p('s.h5'), key_file=E.p('k.h5'), output_path=path)
        with open(path + '.res') as f:
            got = f.read()
    finally:
        os.chdir(cwd)
    d = dict(l.split() for l in got.strip().split('\n'))
    eer = compute_eer(tar, non)
    if set(d) != {'EER', 'NTAR', 'NNON'} or int(d['NTAR']) != len(tar) or int(d['NNON']) != len(non) or \
            abs(float(d['EER']) - eer) > 6e-5:
        ck.fail('eval-2class-performance.py %s: wrote %r for EER %g' % (pattern, got, eer))
    ck.state(['perf', pattern])
    ck.trace()


PROCESS = ['train-mvn.py', 'train-pca.py', 'train-lda.py', 'train-nda.py', 'train-cw.py', 'train-cw-up.py',
           'train-gaussianizer.py', 'train-plda.py', 'train-linear-gbe.py', 'train-linear-gbe-up.py',
           'train-linear-svmc.py', 'train-logistic-regression.py', 'train-q-scoring-homo-gbe.py',
           'eval-cos-1vs1.py', 'eval-plda-1vs1.py', 'eval-plda-nvs1.py', 'eval-linear-gbe.py',
           'eval-linear-gbe-up.py', 'eval-linear-svmc.py', 'eval-logistic-regression.py',
           'eval-q-scoring-homo-gbe.py', 'eval-score-norm.py', 'eval-2class-performance.py']


def process_case(ck, tool):
    """the tool starts as a program"""
    r = subprocess.run([sys.executable, '-W', 'ignore', BIN + tool, '--help'], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=ck.dir(),
                       env=dict(os.environ, PYTHONPATH='/repo', PYTHONDONTWRITEBYTECODE='1'))
    if r.returncode or b'usage' not in r.stdout:
        ck.fail('%s --help: exit code %d: %s' % (tool, r.returncode, r.stderr.decode()[-300:]))
    ck.step()
    ck.trace()


# ------------------------------------------------------------------ enumeration
def combos(d):
    ks = list(d)
    for vals in itertools.product(*[d[k] for k in ks]):
        yield {k: v for k, v in zip(ks, vals) if v is not None}


def plda_opts():
    for kind in ('frplda', 'splda', 'plda'):
        for y in (1, 2):
            for e in (1, 3):
                for extra in ({}, {'ml_md': 'ml'}, {'ml_md': 'md'}, {'md_epochs': [0, 2]}, {'no_update_mu': True},
                              {'name': 'nn'}):
                    o = dict(plda_type=kind, y_dim=y, epochs=e, **extra)
                    if kind == 'plda':
                        o['z_dim'] = 1
                    elif kind == 'frplda' and y == 1:
                        continue
                    yield o


def cases(tier):
    for t in PROCESS:
        yield ['process', t]
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for seq in itertools.product(range(len(CHAIN)), repeat=n):
            yield ['chain', list(seq)]
    for tool in TRANSFORMS:
        for o in combos(TRANSFORMS[tool]):
            yield ['transform', tool, o]
    for o in plda_opts():
        for val in (False, True):
            for pre in (False, True):
                yield ['plda', o, val, pre]
    for pre in (False, True):
        for mode in ('enroll-test', 'enroll-coh', 'coh-test', 'coh-coh'):
            for parts in ([1, 1], [2, 1], [1, 2], [3, 2]):
                yield ['score', 'eval-cos-1vs1.py', None, None, mode, parts, pre]
                for kind in ('frplda', 'splda', 'plda'):
                    yield ['score', 'eval-plda-1vs1.py', kind, None, mode, parts, pre]
                    for pool in (None, 'book', 'vavg', 'vavg-lnorm', 'savg'):
                        if kind == 'plda' and pool == 'book' and False:
                            continue
                        yield ['score', 'eval-plda-nvs1.py', kind, pool, mode, parts, pre]
    for name in CLF_TRAIN:
        for pre in (False, True):
            for o in CLF_TRAIN[name]:
                for c in (False, True):
                    yield ['clf', name, o, pre, c]
            for o in CLF_EVAL[name]:
                for parts in (1, 2, 5):
                    yield ['clfeval', name, {k: v for k, v in o.items() if v is not None}, pre, parts]
    for kind in (None, 't-norm', 'z-norm', 'zt-norm', 's-norm'):
        for perm in (False, True):
            yield ['snorm', kind, perm]
    for perm in (False, True):
        for n in (1, 2, 3, 4, 5):
            for kind in ('s-norm', None):
                yield ['snorm', kind, perm, n]
    for pattern in itertools.product((0, 1, 2), repeat=6):
        if 1 in pattern and 2 in pattern and (tier == 'thorough' or pattern[:3] <= pattern[3:]):
            yield ['perf', list(pattern), 'res' if pattern[0] else 'new/dir/res']


def run_case(ck, case):
    {'process': process_case, 'chain': chain_case, 'transform': transform_case, 'plda': plda_train_case,
     'score': score_case, 'clf': clf_train_case, 'clfeval': clf_eval_case, 'snorm': snorm_case,
     'perf': perf_case}[case[0]](ck, *case[1:])
