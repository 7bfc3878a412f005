"""L09: fold lists and train/validation/evaluation lists."""
import itertools
import os
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small segment lists with groups, classes and masks, real lists against the definition of a partition'
BOUND = {
    'quick': 'all lists of <=6 segments with every assignment to <=4 groups and of groups to <=2 classes, every mask (<=5 segments), 1..5 folds, with and without shuffling (2 seeds), lists and arrays; 4 proportions of parts; each list saved, loaded, copied and aligned with every order of its keys (<=4 segments) or a few (longer); 7..40 segments with 1..10 folds',
    'thorough': 'lists of <=8 segments'}
ASSUMPTIONS = ['all segments of a group have the same class']
CHUNK = 4


def partitions(n, k):
    """restricted growth strings: every way to put n items into at most k groups"""
    def rec(pre, m):
        if len(pre) == n:
            yield tuple(pre)
            return
        for g in range(min(m + 1, k)):
            yield from rec(pre + [g], max(m, g + 1))
    yield from rec([], 0)


def cases(tier):
    n = 6 if tier == 'quick' else 8
    for k in range(1, n + 1):
        for g in partitions(k, 4):
            yield dict(kind='small', g=g)
    for k in range(1, 6):
        yield dict(kind='nogroup', k=k)
    for k in list(range(7, 24)) + [30, 40]:
        yield dict(kind='big', k=k)
    for k in range(1, 5):
        for f in itertools.product(range(-1, 3), repeat=k):
            yield dict(kind='given', f=f)


def run_case(ck, c):
    d = ck.dir()
    kind = c['kind']
    if kind == 'small':
        g = c['g']
        n = len(g)
        ng = max(g) + 1
        seg = ['u%d' % ((i * 5) % 7) + ('' if i < 7 else 'b') for i in range(n)]
        grp = ['g%d' % ((q * 3) % 5) for q in g]
        for cl in partitions(ng, 2):
            bal = [['x', 'a'][cl[q]] for q in g]
            masks = [None]
            if n <= 5:
                masks += [np.array(m) for m in itertools.product((False, True), repeat=n) if any(m) and not all(m)]
            for mask in masks:
                for nf in range(1, min(5, ng) + 1):
                    for sh in (None, 1, 1024):
                        folds(ck, d, seg, grp, bal if max(cl) or sh == 1 else None, mask, nf, sh, n)
                for pr in ([0.5], [0.5, 0.25], [0.7, 0.2], [0.2, 0.2, 0.3]):
                    for sh in (None, 1):
                        parts(ck, d, seg, grp, bal if max(cl) else None, mask, pr, sh)
            ck.trace()
    elif kind == 'nogroup':
        k = c['k']
        seg = np.array(['s%d' % ((i * 3) % k) if k % 3 else 's%d' % i for i in range(k)])
        for bal in itertools.product('ab', repeat=k):
            for nf in range(1, k + 1):
                for sh in (None, 3):
                    folds(ck, d, seg, None, list(bal), None, nf, sh, k)
                    folds(ck, d, seg, None, None, None, nf, sh, k)
            ck.trace()
    elif kind == 'big':
        k = c['k']
        seg = np.array(['s%02d' % ((i * 7) % k) if k % 7 else 's%02d' % i for i in range(k)])
        grp = np.array(['g%d' % (i // 2) for i in range(k)])
        cls = np.array(['c%d' % ((i // 2) % 3) for i in range(k)])
        for nf in range(1, 11):
            for sh in (None, 5):
                folds(ck, d, seg, None, None, None, nf, sh, k)
                folds(ck, d, seg, grp, None, None, nf, sh, k)
                folds(ck, d, seg, grp, cls, None, nf, sh, k)
                folds(ck, d, seg, grp, cls, np.arange(k) % 3 > 0, nf, sh, k)
                folds(ck, d, seg, grp, cls, cls != 'c1', nf, sh, k)
        for pr in ([0.8, 0.1], [0.5], [0.34, 0.33]):
            for sh in (None, 5):
                parts(ck, d, seg, grp, cls, None, pr, sh)
                parts(ck, d, seg, None, None, cls != 'c1', pr, sh)
                parts(ck, d, seg, None, cls, None, pr, sh)
        ck.trace()
    elif kind == 'given':
        from hyperion.utils.fold_list import FoldList
        from hyperion.utils.train_val_eval_list import TrainValEvalList
        f = list(c['f'])
        key = ['k%d' % ((i * 3) % 4) for i in range(len(f))]
        used = sorted(set(x for x in f if x >= 0))
        ok = used == list(range(len(used))) and used
        if not ok:
            if used:
                ck.raises(lambda: FoldList(list(f), list(key)), 'folds %s with a gap' % f)
                ck.raises(lambda: TrainValEvalList(list(key), list(f)), 'parts %s with a gap' % f)
            return
        for form in range(2):
            a = (np.array(f), np.array(key)) if form else (list(f), list(key))
            mask = np.array([x >= 0 for x in f]) if min(f) < 0 else None
            s = FoldList(a[0], a[1], mask)
            look(ck, d, s, key, f, len(used), None if mask is None else mask.tolist())
            t = TrainValEvalList(a[1], a[0], part_names=['p%d' % (3 - x) for x in used], mask=mask)
            lookp(ck, d, t, key, f, ['p%d' % (3 - x) for x in used])
            ck.step()
        ck.raises(lambda: FoldList(f + [0], key), 'lists of unlike length')
        ck.raises(lambda: TrainValEvalList(key, f + [0]), 'lists of unlike length')
        ck.trace()


def groups_of(seg, grp):
    return [str(x) for x in (seg if grp is None else grp)]


def spread(ck, seg, grp, bal, mask, where, want_count, what):
    """number of groups of each class in each fold"""
    gs = groups_of(seg, grp)
    place = {}
    for i in range(len(seg)):
        if mask is not None and not mask[i]:
            ck.check(where[i] < 0, '%s: masked segment %d was placed' % (what, i))
            continue
        ck.check(where[i] >= 0, '%s: segment %d was not placed' % (what, i))
        ck.check(place.setdefault(gs[i], where[i]) == where[i], '%s: group %s straddles parts %s and %s' % (what, gs[i], place[gs[i]], where[i]))
    for b in sorted(set(str(x) for x in bal)) if bal is not None else [None]:
        mine = set(gs[i] for i in range(len(seg)) if (mask is None or mask[i]) and (bal is None or str(bal[i]) == b))
        counts = {}
        for g in mine:
            counts[place[g]] = counts.get(place[g], 0) + 1
        want_count(counts, len(mine), b)


def folds(ck, d, seg, grp, bal, mask, nf, sh, n):
    from hyperion.utils.fold_list import FoldList
    what = 'folds of %s groups %s classes %s mask %s, %d folds, shuffle %s' % (list(seg)[:8], grp if grp is None else list(grp)[:8], bal if bal is None else list(bal)[:8], mask, nf, sh)
    kw = dict(balance_by_key=bal, group_by_key=grp, mask=mask)
    if sh is not None:
        kw.update(shuffle=True, seed=sh)
    mk = lambda: FoldList.create(seg, nf, **kw)
    before = (list(seg), None if grp is None else list(grp), None if bal is None else list(bal), None if mask is None else mask.tolist())
    # which folds get nothing: then the list must be refused
    gs = groups_of(seg, grp)
    sizes = {}
    for i in range(len(seg)):
        if mask is None or mask[i]:
            sizes.setdefault(None if bal is None else str(bal[i]), set()).add(gs[i])
    used = set()
    for m in sizes.values():
        m = len(m)
        cut = [int(np.round(j * (m / nf))) for j in range(nf + 1)]
        used |= set(j for j in range(nf) if cut[j + 1] > cut[j])
    if not used:
        return
    if used != set(range(max(used) + 1)):
        ck.raises(mk, what + ' (a fold would be empty)')
        return
    s = mk()
    ck.eq((list(seg), None if grp is None else list(grp), None if bal is None else list(bal), None if mask is None else mask.tolist()), before, 'arguments after ' + what)
    f = s.fold.tolist()

    def count(counts, m, b):
        lo, hi = m // nf, -(-m // nf)
        for j in range(nf):
            ck.check(lo <= counts.get(j, 0) <= hi, '%s: class %s has %d of %d groups in fold %d' % (what, b, counts.get(j, 0), m, j))
        ck.eq(sum(counts.get(j, 0) for j in range(nf)), m, what + ': groups in the folds')
    spread(ck, seg, grp, bal, mask, f, count, what)
    look(ck, d, s, list(seg), f, len(used), None if mask is None else mask.tolist())
    t = mk()
    ck.eq(t.fold, s.fold, 'folds made twice')
    ck.step()
    ck.state((f, list(seg), nf))


def look(ck, d, s, key, f, nf, mask):
    from hyperion.utils.fold_list import FoldList
    n = len(key)

    def same(s, key, f, mask):
        ck.eq(s.key.tolist(), key, 'keys')
        ck.eq(s.fold.tolist(), f, 'folds')
        ck.eq(int(s.num_folds), nf, 'number of folds')
        ck.eq(len(s), nf, 'number of folds')
        seen = []
        for j in range(nf):
            te = [i for i in range(n) if f[i] == j and (mask is None or mask[i])]
            tr = [i for i in range(n) if f[i] != j and (mask is None or mask[i])]
            a, b = s.get_fold_idx(j)
            ck.eq((np.nonzero(a)[0].tolist(), np.nonzero(b)[0].tolist()), (tr, te), 'indices of fold %d' % j)
            for a, b in (s.get_fold(j), s[j]):
                ck.eq((a.tolist(), b.tolist()), ([key[i] for i in tr], [key[i] for i in te]), 'keys of fold %d' % j)
            seen += te
        ck.eq(sorted(seen), [i for i in range(n) if mask is None or mask[i]], 'the test folds together')
    same(s, key, f, mask)
    t = s.copy()
    same(t, key, f, mask)
    if mask is None or [x >= 0 for x in f] == mask:
        for sep in (' ', ','):
            p = os.path.join(d, 'f')
            s.save(p, sep=sep)
            same(FoldList.load(p, sep=sep), key, f, mask)
    if len(set(key)) == n:
        for o in itertools.permutations(range(n)) if n <= 3 else (range(n)[::-1], list(range(n))[1:] + [0]):
            o = list(o)
            t = s.copy()
            t.align_with_key(np.array([key[i] for i in o]))
            same(t, [key[i] for i in o], [f[i] for i in o], None if mask is None else [mask[i] for i in o])
        t = s.copy()
        ck.raises(lambda: t.align_with_key(np.array(key[:1] + ['missing'])), 'alignment with a missing key')
        same(t, key, f, mask)


def parts(ck, d, seg, grp, bal, mask, pr, sh):
    from hyperion.utils.train_val_eval_list import TrainValEvalList
    what = 'parts of %s groups %s classes %s mask %s, proportions %s, shuffle %s' % (list(seg)[:8], grp if grp is None else list(grp)[:8], bal if bal is None else list(bal)[:8], mask, pr, sh)
    kw = dict(balance_by_key=bal, group_by_key=grp, mask=mask, shuffle=sh is not None)
    if sh is not None:
        kw['seed'] = sh
    np_ = len(pr) + 1
    names = {3: ['train', 'val', 'eval'], 2: ['train', 'eval'], 4: None}[np_]
    gs = groups_of(seg, grp)
    sizes = {}
    for i in range(len(seg)):
        if mask is None or mask[i]:
            sizes.setdefault(None if bal is None else str(bal[i]), set()).add(gs[i])
    cum = [0.0]
    for x in pr:
        cum.append(cum[-1] + x)
    cum.append(1.0)
    want = {}
    used = set()
    for b, m in sizes.items():
        m = len(m)
        cut = [int(np.round(q * m)) for q in np.hstack(([0], np.cumsum(pr), [1]))]
        want[b] = [cut[j + 1] - cut[j] for j in range(np_)]
        used |= set(j for j in range(np_) if want[b][j] > 0)
    mk = lambda: TrainValEvalList.create(seg, pr, **kw)
    if not used:
        return
    if used != set(range(max(used) + 1)):
        ck.raises(mk, what + ' (a part would be empty)')
        return
    s = mk()
    f = s.part.tolist()

    def count(counts, m, b):
        if m == 0:
            return
        for j in range(np_):
            # the share of the part, to within one group
            ck.check(abs(counts.get(j, 0) - (cum[j + 1] - cum[j]) * m) <= 1 + 1e-9, '%s: class %s has %d of %d groups in part %d' % (what, b, counts.get(j, 0), m, j))
    spread(ck, seg, grp, bal, mask, f, count, what)
    lookp(ck, d, s, list(seg), f, names, mask)
    if max(used) + 1 == np_ and np_ == 3:
        t = TrainValEvalList.create(seg, pr, part_names=['A', 'B', 'C'], **kw)
        lookp(ck, d, t, list(seg), f, ['A', 'B', 'C'], mask)
    ck.step()
    ck.state(('parts', f, list(seg)))


def lookp(ck, d, s, key, f, names, mask=None):
    from hyperion.utils.train_val_eval_list import TrainValEvalList
    n = len(key)
    k = max(f) + 1

    def same(s, key, f, mask):
        ck.eq((s.key.tolist(), s.part.tolist()), (key, f), 'keys and parts')
        ck.eq((len(s), int(s.num_parts())), (k, k), 'number of parts')
        for j in range(k):
            te = [i for i in range(n) if f[i] == j]
            for q in [j] + ([names[j]] if names is not None else []):
                ck.eq(np.nonzero(s.get_part_idx(q))[0].tolist(), te, 'indices of part %s' % q)
                ck.eq(s.get_part(q).tolist(), [key[i] for i in te], 'keys of part %s' % q)
                ck.eq(s[q].tolist(), [key[i] for i in te], 'keys of part %s' % q)
    same(s, key, f, mask)
    same(s.copy(), key, f, mask)
    for sep in (' ', ','):
        p = os.path.join(d, 'p')
        s.save(p, sep=sep)
        same(TrainValEvalList.load(p, sep=sep), key, f, mask)
    if len(set(key)) == n:
        for o in itertools.permutations(range(n)) if n <= 3 else (range(n)[::-1], list(range(n))[1:] + [0]):
            o = list(o)
            t = s.copy()
            t.align_with_key(np.array([key[i] for i in o]))
            same(t, [key[i] for i in o], [f[i] for i in o], mask)
        ck.raises(lambda: s.copy().align_with_key(np.array(key[:1] + ['missing'])), 'alignment with a missing key')
