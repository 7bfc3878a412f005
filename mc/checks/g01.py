"""G01: the sequence batch generator (version 1)."""
import itertools
import os
import numpy as np
from mc import gens

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of data lists and configurations, every batch of three epochs and every corner outcome of the random draws, judged by the definition'
BOUND = {
    'quick': '7 data lists (1-6 utterances of 1-24 frames, 1-3 classes) x 3 methods x 7 chunk length settings x 4 batch sizes x class balancing x pruning x parts x shuffling x 1-2 passes, three epochs of each; reset after every number of batches; all outcomes {lowest, highest, middle} of the first 5 random draws',
    'thorough': '8 batch sizes, first 7 random draws, 3 seeds'}
ASSUMPTIONS = ['sequential chunks: utterances are not shorter than the minimum chunk length, the overlap is smaller than it', 'a batch of full sequences is not larger than the list']
CHUNK = 2

DATA = [
    ([5], ['a']),
    ([4, 9], ['b', 'a']),
    ([6, 7, 5], ['x', 'y', 'x']),
    ([10, 3, 8, 12], ['m', 'n', 'm', 'm']),
    ([6, 6, 6, 6, 6], ['a', 'b', 'c', 'a', 'a']),
    ([24, 5, 9, 7, 15, 6], ['s', 't', 's', 's', 's', 'u']),
    ([1, 2, 1], ['1', '01', '1']),
]
LENGTHS = [(None, None), (3, 5), (4, 4), (2, None), (None, 6), (5, 12), (1, 1)]


def cases(tier):
    bs = (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 9)
    for di in range(len(DATA)):
        for method in ('random', 'full_seqs', 'sequential'):
            for li in range(len(LENGTHS)):
                for b in bs:
                    yield dict(kind='run', di=di, method=method, li=li, b=b, tier=tier)
    for di in range(len(DATA)):
        yield dict(kind='parts', di=di)
        for li in range(len(LENGTHS)):
            yield dict(kind='draws', di=di, li=li, k=5 if tier == 'quick' else 7)


def weights(classes, imbalance):
    """number of times each utterance may be listed (lowest, highest), and the number of each class"""
    cnt = {c: classes.count(c) for c in classes}
    top = -(-max(cnt.values()) // imbalance)
    out = {}
    for c, n in cnt.items():
        out[c] = max(n, top)
    return out


def run_case(ck, c):
    d = ck.dir()
    lengths, classes = DATA[c['di']]
    n = len(lengths)
    kind = c['kind']
    if kind == 'run':
        spec, lab, keys = gens.dataset(d, lengths, classes, order=[(i * 2 + 1) % n if n % 2 else (n - 1 - i) for i in range(n)])
        listed = [l.split()[0] for l in open(lab)]
        mn, mx = LENGTHS[c['li']]
        for shuffle in (False, True):
            for bal in (None, 'balanced'):
                for imb in ((1, 2) if bal else (2,)):
                    for prune in (0, 6) if c['b'] in (1, 3) else (0,):
                        for iters in (('auto', 2) if c['method'] != 'random' and c['tier'] == 'quick' else ('auto', 1, 2)):
                            for sw, ov in ((('balanced', 0), ('unbalanced', 0), ('balanced', 1), ('unbalanced', 1)) if c['method'] == 'sequential' else (('balanced', 0),)):
                                one(ck, d, spec, lab, keys, listed, lengths, classes, c['method'], mn, mx, c['b'], shuffle, bal, imb, prune, iters, sw, ov)
        ck.trace()
    elif kind == 'parts':
        from hyperion.generators import SequenceBatchGeneratorV1 as G
        spec, lab, keys = gens.dataset(d, lengths, classes)
        for np_ in range(2, n + 1):
            seen = []
            for i in range(1, np_ + 1):
                g = G(spec, lab, batch_size=1, part_idx=i, num_parts=np_, class_list=classfile(d, classes))
                m = g.num_seqs
                got = set()
                for _ in range(m):
                    r = g.read()
                    got.add(str(r[0][0]))
                    ck.step()
                    want = classes[keys.index(str(r[0][0]))]
                    ck.eq(r[3][0].tolist(), [1.0 if x == want else 0.0 for x in sorted(set(classes), reverse=True)], 'class of %s in part %d' % (r[0][0], i))
                ck.eq(len(got), m, 'utterances used in one pass of part %d' % i)
                ck.eq(sorted(got), sorted(keys[(i - 1) * n // np_: i * n // np_]), 'utterances of part %d of %d' % (i, np_))
                seen += list(got)
            ck.eq(sorted(seen), sorted(keys), 'utterances of all parts')
            ck.state(('parts', n, np_))
        ck.trace()
    elif kind == 'draws':
        from hyperion.generators import SequenceBatchGeneratorV1 as G
        spec, lab, keys = gens.dataset(d, lengths, classes)
        mn, mx = LENGTHS[c['li']]
        emn, emx = min(lengths) if mn is None else mn, max(lengths) if mx is None else mx
        if emn > emx:
            return
        y = gens.expect(keys, None, classes)
        for method in ('random', 'sequential'):
            if method == 'sequential' and (min(lengths) < emn):
                continue
            done = set()
            for script in itertools.product((0, 1, 2), repeat=c['k']):
                with gens.controlled(script) as ch:
                    g = G(spec, lab, batch_size=3, min_seq_length=mn, max_seq_length=mx, gen_method=method, iters_per_epoch=9, shuffle_seqs=False)
                    for _ in range(2):
                        r = g.read(squeeze=False)
                        chunks(ck, r[0], r[1], keys, lengths, emn, emx, method, 'draws %s' % (script,), [y[k] for k in r[0]], r[2])
                        ck.step()
                if script[:ch.n] in done and ch.n < c['k']:
                    continue
                done.add(script[:ch.n])
                ck.state(('draws', c['di'], c['li'], method, [x.tolist() for x in r[1]]))
        ck.trace()
        ck.sample('random draws over data %d' % c['di'])


def classfile(d, classes):
    p = os.path.join(d, 'classes')
    with open(p, 'w') as f:
        for x in sorted(set(classes), reverse=True):
            f.write(x + '\n')
    return p


def chunks(ck, ks, x, keys, lengths, mn, mx, method, what, ids, y):
    out = []
    for k, xi, yi, row in zip(ks, x, ids, y):
        u, f, m = gens.locate(ck, xi, keys, lengths, what)
        ck.check(keys[u] == k, lambda: '%s: a chunk of %s is called %s' % (what, keys[u], k))
        if method == 'full_seqs':
            ck.check(f == 0 and m == lengths[u], lambda: '%s: %s is not complete' % (what, k))
        elif method == 'random':
            ck.check(min(mn, lengths[u]) <= m <= min(mx, lengths[u]), lambda: '%s: chunk of %d frames of %s' % (what, m, k))
        else:
            ck.check(1 <= m <= min(mx, lengths[u]), lambda: '%s: chunk of %d frames of %s' % (what, m, k))
        ck.eq(np.nonzero(row)[0].tolist(), [yi], '%s: class of %s' % (what, k))
        ck.check(row[yi] == 1, what + ': class weight')
        out.append((u, f, m))
    return out


def one(ck, d, spec, lab, keys, listed, lengths, classes, method, mn, mx, b, shuffle, bal, imb, prune, iters, sw, ov):
    from hyperion.generators import SequenceBatchGeneratorV1 as G
    keep = [k for k in listed if lengths[keys.index(k)] >= prune]
    if not keep:
        return
    ln = {k: lengths[keys.index(k)] for k in keep}
    cl = {k: classes[keys.index(k)] for k in keep}
    rep = weights([cl[k] for k in keep], imb) if bal else None
    nlist = sum(rep.values()) if bal else len(keep)
    emn, emx = min(ln.values()) if mn is None else mn, max(ln.values()) if mx is None else mx
    if emn > emx:
        return
    if method == 'full_seqs' and (b > nlist or emx < max(ln.values())):
        return
    if method == 'sequential' and (min(ln.values()) < emn or ov >= emn):
        return
    avg = (emn + emx) // 2
    it = iters
    if bal and iters == 'auto' and method == 'random':
        it = None      # depends on which recordings are repeated
    elif iters == 'auto':
        it = 1 if method != 'random' else -(-sum(ln.values()) // (len(keep) * avg)) if sum(ln.values()) % (len(keep) * avg) == 0 else int(np.ceil(np.mean(list(ln.values())) / avg))
    kw = dict(batch_size=b, iters_per_epoch=iters, gen_method=method, min_seq_length=mn, max_seq_length=mx, seq_overlap=ov, prune_min_length=prune, class_weight=bal, max_class_imbalance=imb, seq_weight=sw, shuffle_seqs=shuffle)
    what = '%s of %s, %s' % (method, lengths, {k: v for k, v in kw.items() if v not in (None, 0, False)})
    nsub = {k: -(-ln[k] // (avg - ov)) for k in keep} if method == 'sequential' else None
    try:
        g = G(spec, lab, **kw)
    except Exception as e:
        ck.fail('%s: %s: %s' % (what, type(e).__name__, e))
    ck.eq(g.num_seqs, nlist, what + ': length of the list')
    sub_all = None
    if it is not None:
        if method == 'sequential':
            if bal:
                sub_all = None
            else:
                sub_all = nlist * max(nsub.values()) if sw == 'balanced' else sum(nsub.values())
        else:
            sub_all = nlist
        if sub_all is not None and it * sub_all // b == 0:
            return
        if sub_all is not None:
            ck.eq(g.steps_per_epoch, it * sub_all // b, what + ': steps of an epoch')
            ck.eq(g.num_total_subseqs, b * (it * sub_all // b), what + ': chunks of an epoch')
    S = g.steps_per_epoch
    if S == 0:
        return
    u_classes = sorted(set(cl.values()))
    yid = {k: u_classes.index(cl[k]) for k in keep}
    eps = []
    for ep in range(3):
        ck.eq(g.cur_epoch, ep, what + ': epoch')
        got = []
        batches = []
        for s in range(S):
            ck.eq(g.cur_step, s, what + ': step')
            if (s + ep) % 2:
                r = g.read(squeeze=False)
                x = r[1]
                y = r[2]
            else:
                r = g.read()
                x3, wgt, y = r[1], r[2], r[3]
                ck.eq(x3.shape, (b, emx, gens.DIM), what + ': shape of a batch')
                ck.eq(wgt.shape, (b, emx), what + ': shape of the weights')
                x = []
                for i in range(b):
                    m = int(wgt[i].sum())
                    ck.check(np.all(wgt[i, :m] == 1) and np.all(wgt[i, m:] == 0) and np.all(x3[i, m:] == 0), what + ': padding')
                    x.append(x3[i, :m])
            ck.eq(len(r[0]), b, what + ': keys of a batch')
            ck.eq(len(x), b, what + ': chunks of a batch')
            ck.eq(y.shape, (b, len(u_classes)), what + ': shape of the classes')
            q = chunks(ck, [str(k) for k in r[0]], x, keys, lengths, emn, emx, method, what, [yid[str(k)] for k in r[0]], y)
            got += q
            batches.append(q)
            ck.step()
        eps.append(batches)
        usage(ck, got, keys, keep, ln, cl, nlist, rep, method, sw, nsub, shuffle, listed, emn, emx, ov, what)
        ck.state((what, got))
    # the batches depend on the epoch only: a generator that starts at an epoch, and one that is reset
    if it is not None:
        for ep in (1, 2):
            h = G(spec, lab, init_epoch=ep, **kw)
            for s in range(S):
                r = h.read(squeeze=False)
                q = [gens.locate(ck, z, keys, lengths, what) for z in r[1]]
                ck.eq(q, eps[ep][s], '%s: batch %d of epoch %d of a generator that starts there' % (what, s, ep))
        h = G(spec, lab, **kw)
        for _ in range(min(S, 2)):
            h.read()
        if h.cur_epoch == 0:
            h.reset()
            for s in range(S):
                r = h.read(squeeze=False)
                ck.eq([gens.locate(ck, z, keys, lengths, what) for z in r[1]], eps[0][s], what + ': batch %d after a reset' % s)
        else:
            e = h.cur_epoch
            h.reset()
            for s in range(S):
                r = h.read(squeeze=False)
                ck.eq([gens.locate(ck, z, keys, lengths, what) for z in r[1]], eps[e][s], what + ': batch %d after a reset' % s)
    if bal is None and S:
        h = G(spec, lab, return_class=False, reset_rng=True, **kw)
        first = None
        for ep in range(2):
            e = []
            for s in range(S):
                r = h.read(squeeze=False)
                ck.eq(len(r), 2, what + ': parts of a batch without classes')
                e.append([gens.locate(ck, z, keys, lengths, what) for z in r[1]])
            if first is None or shuffle is False:
                pass
            else:
                ck.eq(e, first, what + ': epochs with a fixed seed')
            first = e


def usage(ck, got, keys, keep, ln, cl, nlist, rep, method, sw, nsub, shuffle, listed, emn, emx, ov, what):
    count = {k: 0 for k in keep}
    for u, f, m in got:
        ck.check(keys[u] in count, lambda: '%s: %s is too short to be used' % (what, keys[u]))
        count[keys[u]] += 1
    tot = len(got)
    if method != 'sequential' or sw == 'balanced':
        # everything in turn: after q full passes and a rest, nobody is ahead by more than one pass
        full, rest = divmod(tot, nlist)
        if rep is None:
            ck.check(all(full <= v <= full + 1 for v in count.values()), lambda: '%s: use of the utterances %s' % (what, count))
            seqn = [keys[u] for u, f, m in got]
            ck.check(all(len(set(seqn[i:i + nlist])) == len(seqn[i:i + nlist]) for i in range(0, tot, nlist)), what + ': an utterance came twice in one pass')
            if not shuffle:
                ck.eq(seqn[:nlist], keep[:len(seqn[:nlist])], what + ': order without shuffling')
        elif rest == 0:
            for c, n in rep.items():
                ck.eq(sum(v for k, v in count.items() if cl[k] == c), full * n, '%s: chunks of class %s' % (what, c))
                mine = [v for k, v in count.items() if cl[k] == c]
                ck.check(max(mine) - min(mine) <= full, what + ': use of the utterances of a class')
    elif rep is None:
        total = sum(nsub.values())
        full, rest = divmod(tot, total)
        for k, v in count.items():
            ck.check(full * nsub[k] <= v <= (full + 1) * nsub[k], lambda: '%s: use of the utterances %s, should be %s' % (what, count, nsub))
    if method == 'sequential' and rep is None:
        pos = {}
        for u, f, m in got:
            k = keys[u]
            j, nxt = pos.get(k, (0, 0))
            ck.eq(f, nxt, '%s: start of chunk %d of %s' % (what, j, k))
            if j == nsub[k] - 1:
                ck.eq(m, min(ln[k] - f, emx), '%s: last chunk of %s' % (what, k))
                pos[k] = (0, 0)
            else:
                ck.check(min(emn, ln[k] - f) <= m, what + ': short chunk')
                pos[k] = (j + 1, min(ln[k] - emn, f + m - ov))
