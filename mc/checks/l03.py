"""L03: job splitting and list helpers."""
import itertools
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of short lists, part counts and indices, real functions against their definitions'
BOUND = {
    'quick': 'all lists of length <=7 over 3 symbols (list, array; strings and integers), every part count up to the number of items/groups (+1) and index; separate grouping keys; lengths up to 300 x parts up to 40; all pairs of lists of length <=4 over 4 symbols for the set helpers',
    'thorough': 'lists of length <=9'}
ASSUMPTIONS = []
CHUNK = 16


def cases(tier):
    n = 7 if tier == 'quick' else 9
    for k in range(1, n + 1):
        for head in itertools.product(range(3), repeat=max(0, k - 4)):
            yield dict(kind='split', k=k, head=head)
    for k in range(1, 7):
        for head in itertools.product(range(3), repeat=max(0, k - 3)):
            yield dict(kind='group', k=k, head=head)
    for n in list(range(1, 60)) + [97, 100, 128, 300] + ([1000, 4096] if tier != 'quick' else []):
        yield dict(kind='big', n=n)
    for k in range(0, 5):
        for a in itertools.product(range(4), repeat=k):
            yield dict(kind='sets', a=a)


def run_case(ck, c):
    from hyperion.utils import list_utils as L
    kind = c['kind']
    if kind == 'split':
        k = c['k']
        for tail in itertools.product(range(3), repeat=k - len(c['head'])):
            a = list(c['head']) + list(tail)
            for form in range(3):
                x = [a, np.array(a), ['w%d' % q for q in a]][form]
                check_split(ck, L, x, range(1, k + 2))
                g = sorted(set(x if isinstance(x, list) else x.tolist()))
                for np_ in range(1, len(g) + 1):
                    allloc = []
                    for i in range(1, np_ + 1):
                        s, loc = L.split_list_group_by_key(x, i, np_)
                        s, loc = np.asarray(s).tolist(), [int(q) for q in loc]
                        gs = g[(i - 1) * len(g) // np_: i * len(g) // np_]
                        want = [j for q in gs for j in range(k) if x[j] == q]
                        ck.eq(loc, want, 'positions of part %d of %d of %s by key' % (i, np_, a))
                        ck.eq(s, [x[j] if isinstance(x, list) else int(x[j]) for j in want], 'items of a part')
                        allloc += loc
                        ck.step()
                    ck.eq(sorted(allloc), list(range(k)), 'the parts are not a partition')
                    ck.trace()
                ck.state((form, a))
    elif kind == 'group':
        k = c['k']
        for tail in itertools.product(range(3), repeat=k - len(c['head'])):
            key = list(c['head']) + list(tail)
            a = ['i%d' % ((j * 5) % k) for j in range(k)]
            g = sorted(set(key))
            for kf in (key, np.array(key), ['s%d' % q for q in key]):
                for np_ in range(1, len(g) + 1):
                    for i in range(1, np_ + 1):
                        s, loc = L.split_list_group_by_key(a, i, np_, key=kf)
                        gs = g[(i - 1) * len(g) // np_: i * len(g) // np_]
                        want = [j for q in gs for j in range(k) if key[j] == q]
                        ck.eq([int(q) for q in loc], want, 'positions')
                        ck.eq([str(q) for q in s], [a[j] for j in want], 'items')
                        ck.step()
                    ck.trace()
            ck.state(key)
    elif kind == 'big':
        n = c['n']
        check_split(ck, L, np.arange(n), list(range(1, min(n, 41) + 1)) + [n])
        for m in (1, 2, 7, 20, n):
            if m > n:
                continue
            a = np.array([(j * 13) % m for j in range(n)])
            for np_ in sorted(set([1, 2, 3, 5, m])):
                g = len(set(a.tolist()))
                if np_ > g:
                    continue
                allloc = []
                sizes = []
                for i in range(1, np_ + 1):
                    s, loc = L.split_list_group_by_key(a, i, np_)
                    ck.check(np.array_equal(np.asarray(s), a[loc]), 'items do not match positions')
                    allloc += [int(q) for q in loc]
                    sizes.append(len(set(np.asarray(s).tolist())))
                    ck.step()
                ck.eq(sorted(allloc), list(range(n)), 'the parts are not a partition')
                ck.check(max(sizes) - min(sizes) <= 1 and sum(sizes) == g, 'groups per part: %s' % sizes)
                ck.trace()
        ck.state(n)
    elif kind == 'sets':
        a0 = list(c['a'])
        for kb in range(0, 5):
            for b0 in itertools.product(range(4), repeat=kb):
                b0 = list(b0)
                for form in (0, 1):
                    a = ['s%d' % q for q in a0] if form else np.array(a0, dtype='int64')
                    b = ['s%d' % q for q in b0] if form else np.array(b0, dtype='int64')
                    al, bl = list(a), list(b)
                    f, loc = L.ismember(a, b)
                    ck.eq([bool(q) for q in f], [q in bl for q in al], 'membership of %s in %s' % (al, bl))
                    ck.eq([int(l) for l, q in zip(loc, f) if q], [bl.index(q) for q in al if q in bl], 'first positions')
                    if a0 and b0:
                        x = L.intersect(a, b)
                        w = sorted(set(al) & set(bl))
                        ck.eq(np.asarray(x).tolist(), [type(q)(q) if form else int(q) for q in w], 'intersection')
                        x, ia, ib = L.intersect(a, b, return_index=True)
                        ck.eq([int(q) for q in ia], [al.index(q) for q in w], 'positions in the first list')
                        ck.eq([int(q) for q in ib], [bl.index(q) for q in w], 'positions in the second list')
                    ck.step()
                    ck.trace()
            ck.state((a0, kb))
        if a0:
            for a in (['s%d' % q for q in a0], np.array(a0)):
                for rev in (False, True):
                    w = sorted(list(a), reverse=rev)
                    w = [str(q) if isinstance(q, str) else int(q) for q in w]
                    ck.eq(np.asarray(L.sort(a, reverse=rev)).tolist(), w, 'sorted list')
                    s, idx = L.sort(a, reverse=rev, return_index=True)
                    ck.eq(np.asarray(s).tolist(), w, 'sorted list')
                    ck.eq(np.asarray(a)[idx].tolist(), w, 'sorting positions')
                    ck.eq(sorted(int(q) for q in idx), list(range(len(a0))), 'sorting positions')
                    ck.step()
            x = L.list2ndarray(['s%d' % q for q in a0])
            ck.check(isinstance(x, np.ndarray) and x.tolist() == ['s%d' % q for q in a0], 'conversion to an array')


def check_split(ck, L, x, parts):
    n = len(x)
    xl = x if isinstance(x, list) else x.tolist()
    for np_ in parts:
        end = 0
        sizes = []
        for i in range(1, np_ + 1):
            s, loc = L.split_list(x, i, np_)
            loc = [int(q) for q in loc]
            ck.check(loc == list(range(end, end + len(loc))), lambda: 'part %d of %d of %d items: positions %s' % (i, np_, n, loc))
            ck.eq(np.asarray(s).tolist(), [xl[j] for j in loc], 'items of part %d of %d' % (i, np_))
            end += len(loc)
            sizes.append(len(loc))
            ck.step()
        ck.check(end == n, lambda: 'the %d parts of %d items hold %d' % (np_, n, end))
        ck.check(max(sizes) - min(sizes) <= 1, lambda: 'sizes of the parts: %s' % sizes)
        ck.trace()
        ck.state((n, sizes))
