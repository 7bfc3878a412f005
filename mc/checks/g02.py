"""G02: the class-balanced sequence batch generator (version 2)."""
import itertools
import os
import numpy as np
from mc import gens
from mc.checks.g01 import DATA, LENGTHS

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of data lists and configurations, every batch of three epochs and every corner outcome of the random draws, judged by the definition'
BOUND = {
    'quick': '7 data lists (1-6 utterances of 1-24 frames, 1-3 classes, class lists with and without unused classes) x 7 chunk length settings x 6 batch sizes x 1-3 utterances per class x 1-3 chunks per utterance x pruning x iterations, three epochs of each; reset after every batch; all outcomes {lowest, highest, middle} of the first 6 random draws; all parts',
    'thorough': '9 batch sizes, first 8 random draws'}
ASSUMPTIONS = ['every part of a divided list has at least one utterance']
CHUNK = 2


def cases(tier):
    bs = (1, 2, 3, 4, 6, 7) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 12)
    for di in range(len(DATA)):
        for li in range(len(LENGTHS)):
            for b in bs:
                yield dict(kind='run', di=di, li=li, b=b)
    for di in range(len(DATA)):
        yield dict(kind='parts', di=di)
        for ul in (0, 1):
            yield dict(kind='draws', di=di, ul=ul, k=6 if tier == 'quick' else 8)


def ceil(a, b):
    return -(-a // b)


def lists(d, classes):
    """class lists: none, in reverse order, with unused classes in between"""
    real = sorted(set(classes), reverse=True)
    out = [(None, sorted(set(classes)))]
    for nm, order in (('rev', real), ('more', ['zz0'] + real[:1] + ['zz1'] + real[1:])):
        p = os.path.join(d, nm)
        with open(p, 'w') as f:
            for x in order:
                f.write(x + '\n')
        out.append((p, order))
    return out


def judge(ck, r, b, npc, npu, keys, lengths, classes, order, keep, mn, mx, squeeze, utt1hot, what):
    """one batch against the definition; returns the chunks"""
    ks = [str(k) for k in r[0]]
    ck.eq(len(ks), b, what + ': keys of a batch')
    if squeeze:
        x3, wgt = r[1], r[2]
        ck.eq(x3.shape, (b, mx, gens.DIM), what + ': shape of a batch')
        ck.eq(wgt.shape, (b, mx), what + ': shape of the weights')
        x = []
        for i in range(b):
            m = int(wgt[i].sum())
            ck.check(np.all(wgt[i, :m] == 1) and np.all(wgt[i, m:] == 0) and np.all(x3[i, m:] == 0), what + ': padding')
            x.append(x3[i, :m])
        rest = r[3:]
    else:
        x = r[1]
        rest = r[2:]
    ck.eq(len(rest), 1 + bool(utt1hot), what + ': parts of a batch')
    y = rest[0]
    ck.eq(y.shape, (b, len(order)), what + ': shape of the classes')
    out = []
    for i in range(b):
        u, f, m = gens.locate(ck, x[i], keys, lengths, what)
        ck.check(keys[u] == ks[i], lambda: '%s: a chunk of %s is called %s' % (what, keys[u], ks[i]))
        ck.check(ks[i] in keep, lambda: '%s: %s is too short to be used' % (what, ks[i]))
        ck.check(min(mn, lengths[u]) <= m <= min(mx, lengths[u]), lambda: '%s: chunk of %d frames of %s' % (what, m, ks[i]))
        ck.eq(y[i].tolist(), [1.0 if o == classes[u] else 0.0 for o in order], '%s: class of %s' % (what, ks[i]))
        out.append((u, f, m))
    # composition: npu chunks in a row are of one utterance, npc * npu in a row of one class
    for i in range(b):
        ck.check(ks[i] == ks[i // npu * npu], lambda: '%s: chunks per utterance: %s' % (what, ks))
        j = i // (npc * npu) * npc * npu
        ck.check(classes[out[i][0]] == classes[out[j][0]], lambda: '%s: utterances per class: %s' % (what, ks))
    if utt1hot:
        z = rest[1]
        ck.eq(z.shape, (b, ceil(b, npu)), what + ': shape of the utterances')
        ck.check(np.all(z.sum(axis=1) == 1) and np.all((z == 0) | (z == 1)), what + ': one utterance per chunk')
        zi = z.argmax(axis=1)
        for i in range(b):
            for j in range(i):
                ck.check((zi[i] == zi[j]) == (ks[i] == ks[j]), lambda: '%s: utterance indicators %s of %s' % (what, zi.tolist(), ks))
    ck.step()
    return out


def quiet(f):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def run_case(ck, c):
    from hyperion.generators import SequenceBatchGeneratorV2 as G
    d = ck.dir()
    lengths, classes = DATA[c['di']]
    n = len(lengths)
    kind = c['kind']
    if kind == 'run':
        spec, lab, keys = gens.dataset(d, lengths, classes, order=[(i * 2 + 1) % n if n % 2 else (n - 1 - i) for i in range(n)])
        mn, mx = LENGTHS[c['li']]
        b = c['b']
        for npc, npu in itertools.product((1, 2, 3), repeat=2):
            for li, (cf, order) in enumerate(lists(d, classes)):
                for prune in ((0, 6) if npc == npu and li == 0 else (0,)):
                    for iters in (('auto', 1) if npu == 1 else (1,) if npu == 2 else (2,)):
                        run(ck, G, d, spec, lab, keys, lengths, classes, mn, mx, b, npc, npu, cf, order, prune, iters)
        ck.trace()
    elif kind == 'parts':
        spec, lab, keys = gens.dataset(d, lengths, classes)
        cf, order = lists(d, classes)[1]
        for np_ in range(2, n + 1):
            for i in range(1, np_ + 1):
                mine = keys[(i - 1) * n // np_: i * n // np_]
                g = quiet(lambda: G(spec, lab, batch_size=5, part_idx=i, num_parts=np_, class_list=cf, num_egs_per_utt=2))
                ck.eq(g.num_seqs, len(mine), 'utterances of part %d of %d' % (i, np_))
                lo = [lengths[keys.index(k)] for k in mine]
                seen = set()
                for _ in range(12):
                    r = g.read()
                    seen |= set(keys[u] for u, f, m in judge(ck, r, 5, 1, 2, keys, lengths, classes, order, mine, min(lo), max(lo), True, False, 'part %d of %d' % (i, np_)))
            ck.state(('parts', n, np_))
        ck.trace()
    elif kind == 'draws':
        spec, lab, keys = gens.dataset(d, lengths, classes)
        cf, order = lists(d, classes)[2 if c['ul'] else 0]
        mn, mx = 2, 6
        done = set()
        for script in itertools.product((0, 1, 2), repeat=c['k']):
            with gens.controlled(list(script) + ([0, 1, 2] * 20 if c['ul'] else [])) as ch:
                g = quiet(lambda: G(spec, lab, batch_size=3, min_seq_length=mn, max_seq_length=mx, iters_per_epoch=9, num_egs_per_utt=2, class_list=cf))
                r = g.read(squeeze=False)
            if script[:ch.n] in done:
                continue
            done.add(script[:ch.n])
            q = judge(ck, r, 3, 1, 2, keys, lengths, classes, order, keys, mn, mx, False, False, 'draws %s' % (script,))
            ck.state(('draws', c['di'], c['ul'], q))
        ck.trace()
        ck.sample('random draws over data %d' % c['di'])


def run(ck, G, d, spec, lab, keys, lengths, classes, mn, mx, b, npc, npu, cf, order, prune, iters):
    keep = [k for k in keys if lengths[keys.index(k)] >= prune]
    if not keep:
        return
    ln = [lengths[keys.index(k)] for k in keep]
    emn, emx = min(ln) if mn is None else mn, max(ln) if mx is None else mx
    if emn > emx:
        return
    if cf is None:
        order = sorted(set(classes[keys.index(k)] for k in keep))
    kw = dict(batch_size=b, iters_per_epoch=iters, num_egs_per_class=npc, num_egs_per_utt=npu, min_seq_length=mn, max_seq_length=mx, prune_min_length=prune, class_list=cf)
    what = 'lengths %s, %s' % (lengths, {k: v if k != 'class_list' else order for k, v in kw.items() if v not in (None, 0)})
    utt1hot = npc != 2
    g = quiet(lambda: G(spec, lab, return_utt1hot=utt1hot, **kw))
    it = iters if iters != 'auto' else ceil(sum(ln), len(ln) * ((emn + emx) // 2))
    S = ceil(it * len(keep), b)
    ck.eq(g.num_seqs, len(keep), what + ': utterances')
    ck.eq(g.steps_per_epoch, S, what + ': steps of an epoch')
    ck.eq(g.num_total_subseqs, S * b, what + ': chunks of an epoch')
    eps = []
    for ep in range(3):
        e = []
        ck.eq(g.cur_epoch, ep, what + ': epoch')
        for s in range(S):
            ck.eq(g.cur_step, s, what + ': step')
            sq = (s + ep) % 2 == 0
            r = g.read(squeeze=sq)
            e.append(judge(ck, r, b, npc, npu, keys, lengths, classes, order, keep, emn, emx, sq, utt1hot, what))
        eps.append(e)
    flat = [sum(e, []) for e in eps]
    # enough room for chance: the epochs of a list with choice differ
    if ceil(b, npu * npc) * S >= 12 and len(set(order)) > 1 and cf is None:
        ck.check(flat[0] != flat[1] and flat[1] != flat[2] and flat[0] != flat[2], what + ': two epochs have the same batches')
    ck.state((what, flat))
    for ep in (1, 2):
        h = quiet(lambda: G(spec, lab, init_epoch=ep, **kw))
        for s in range(S):
            r = h.read(squeeze=False)
            ck.eq([gens.locate(ck, z, keys, lengths, what) for z in r[1]], eps[ep][s], '%s: batch %d of epoch %d of a generator that starts there' % (what, s, ep))
    h = quiet(lambda: G(spec, lab, **kw))
    for k in range(1, min(S, 3) + 1):
        for _ in range(k):
            h.read()
        e = h.cur_epoch
        h.reset()
        ck.eq((h.cur_step, h.cur_epoch), (0, e), what + ': position after a reset')
        r = h.read(squeeze=False)
        ck.eq([gens.locate(ck, z, keys, lengths, what) for z in r[1]], eps[e][0], what + ': first batch after a reset')
        h.reset()
        if h.cur_epoch == 2:
            break
    h = quiet(lambda: G(spec, lab, return_class=False, reset_rng=True, **kw))
    for ep in range(2):
        for s in range(S):
            r = h.read(squeeze=False)
            ck.eq(len(r), 2, what + ': parts of a batch without classes')
            ck.eq([gens.locate(ck, z, keys, lengths, what) for z in r[1]], eps[0][s], what + ': batch %d with the generator reset each epoch' % s)
