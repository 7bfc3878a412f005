"""L02: utterance tables against plain lists of rows."""
import itertools
import os
import numpy as np
from mc.core import kept

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of operation sequences on the real table, step by step against a list of rows'
BOUND = {
    'quick': 'all sequences of <=3 operations (sort by every column, shuffle, 3 filters keeping and dropping, split by row and by label, merge, save/load with 3 separators, copy) from 9 start tables (1-7 rows, 1-3 label columns)',
    'thorough': 'sequences of <=4 operations'}
ASSUMPTIONS = ['keys are unique', 'values are tokens without the separator']
CHUNK = 2

STARTS = [
    [('a', 'x')],
    [('b', 'x'), ('a', 'y')],
    [('u3', 's1'), ('u1', 's2'), ('u2', 's1'), ('u10', 's3'), ('u20', 's2')],
    [('u3', 's1', 'm'), ('u1', 's2', 'f'), ('u2', 's1', 'm')],
    [('b', '01', 'q', '1.0'), ('a', '1', 'p', '2.50'), ('d', '001', 'p', '0'), ('c', '1e3', 'q', '10')],
    [('2', '7'), ('10', '07'), ('1', '7')],
    [('NA', 'nan'), ('null', 'None'), ('n', 'NA'), ('true', 'False')],
    [('k%d' % (i * 3 % 7), 'c%d' % (i % 3)) for i in range(7)],
    [('k%d' % (i * 5 % 6), 'c%d' % (i % 2), 'd%d' % (i % 3)) for i in range(6)],
]


def subs(x):
    if not x:
        return []
    r = [[x[0]], [x[-1]], x[::-1]]
    if len(x) > 2:
        r += [[x[2], x[0]], x[1:]]
    out = []
    for q in r:
        if q not in out:
            out.append(q)
    return out


def ops_for(rows):
    if not rows:
        return [('copy',)]
    nc = len(rows[0])
    out = [('sort', f) for f in range(nc)] + [('shuffle', 1), ('shuffle', 7), ('copy',)]
    out += [('io', s) for s in (' ', '\t', ',')]
    keys = sorted(r[0] for r in rows)
    for np_ in (1, 2, 3):
        for f in range(nc):
            if np_ <= len(set(r[f] for r in rows)):
                out += [('split', i, np_, f) for i in range(1, np_ + 1)]
    for keep in (True, False):
        out += [('filter', s, keep) for s in subs(keys)]
        for f in range(1, nc):
            out += [('info', f, s, keep) for s in subs(sorted(set(r[f] for r in rows)))]
        out += [('index', s, keep) for s in subs(list(range(len(rows))))]
    out += [('merge', 'parts'), ('merge', 'other')]
    return out


def cases(tier):
    top = 3 if tier == 'quick' else 4
    for depth in range(1, top + 1):
        for si in range(len(STARTS)):
            for i in range(len(ops_for(STARTS[si]))):
                yield dict(kind='seq', si=si, depth=depth, first=i)
    yield dict(kind='eq')
    for n in (17, 40, 200):
        yield dict(kind='many', n=n)
    yield dict(kind='create')


def build(rows):
    from hyperion.utils import Utt2Info
    k = [r[0] for r in rows]
    if len(rows[0]) == 2:
        return Utt2Info.create(k, [r[1] for r in rows])
    return Utt2Info.create(np.array(k), np.array([r[1:] for r in rows]))


def rows_of(s):
    out = []
    for i in range(len(s)):
        k, v = s[i]
        out.append((str(k),) + tuple(str(q) for q in (v if isinstance(v, np.ndarray) else [v])))
    return out


def look(ck, s, rows):
    ck.eq(len(s), len(rows), 'length')
    ck.eq(s.len(), len(rows), 'length')
    if not rows:
        return
    ck.eq(rows_of(s), rows, 'rows')
    ck.eq([str(k) for k in s.key], [r[0] for r in rows], 'keys')
    nc = len(rows[0])
    ck.eq(s.num_info_fields, nc - 1, 'number of fields')
    info = np.asarray(s.info)
    if nc == 2:
        ck.eq([str(q) for q in info], [r[1] for r in rows], 'information column')
    else:
        ck.eq([[str(q) for q in r] for r in info], [list(r[1:]) for r in rows], 'information columns')
    for i, r in enumerate(rows):
        v = s[r[0]]
        ck.eq(tuple(str(q) for q in (v if isinstance(v, np.ndarray) else [v])), r[1:], 'look-up of %s' % r[0])
        ck.eq(int(s.get_index(r[0])), i, 'position of %s' % r[0])
        ck.check(r[0] in s, 'membership of %s' % r[0])
    for k in ('none', 'a', 'u1', 'k0', 'x', 's1', 'NA'):
        ck.check((k in s) == (k in [r[0] for r in rows]), 'membership of %s' % k)


def apply(ck, d, s, rows, op):
    from hyperion.utils import Utt2Info
    o = op[0]
    if o == 'sort':
        s.sort(field=op[1])
        got = rows_of(s)
        ck.eq([g[op[1]] for g in got], sorted(r[op[1]] for r in rows), 'sorted column')
        ck.eq(sorted(got), sorted(rows), 'sorted rows')
        return s, got
    if o == 'shuffle':
        idx = s.shuffle(seed=op[1])
        ck.eq(sorted(int(i) for i in idx), list(range(len(rows))), 'index of a shuffle')
        return s, [rows[int(i)] for i in idx]
    before = rows_of(s)
    if o == 'copy':
        t = s.copy()
        ck.check(t == s and not (t != s), 'a copy is not equal')
        if rows:
            t.sort()
            t.shuffle(seed=3)
        ck.eq(rows_of(s), before, 'changing a copy changed the table')
        new, want = s.copy(), rows
    elif o == 'io':
        p = os.path.join(d, 'u2i')
        s.save(p, sep=op[1])
        new = Utt2Info.load(p, sep=op[1], dtype=dict((i, str) for i in range(len(rows[0]))))
        want = rows
        if len(rows[0]) == 2:
            look(ck, Utt2Info.load(p, sep=op[1]), rows)
    elif o == 'split':
        _, i, n, f = op
        parts = [rows_of(s.split(j, n, group_by_field=f) if f else s.split(j, n)) for j in range(1, n + 1)]
        if f:
            g = sorted(set(r[f] for r in rows))
            want_parts = [[r for q in g[(j - 1) * len(g) // n: j * len(g) // n] for r in rows if r[f] == q] for j in range(1, n + 1)]
        else:
            m = len(rows)
            want_parts = [rows[(j - 1) * m // n: j * m // n] for j in range(1, n + 1)]
        ck.eq(parts, want_parts, 'parts')
        new, want = (s.split(i, n, group_by_field=f) if f else s.split(i, n)), want_parts[i - 1]
    elif o == 'filter':
        new = s.filter(np.array(op[1]) if len(op[1]) % 2 else list(op[1]), **kept(op[2]))
        keys = [r[0] for r in rows]
        sel = op[1] if op[2] else sorted(set(keys) - set(op[1]))
        want = [rows[keys.index(k)] for k in sel]
    elif o == 'info':
        new = s.filter_info(np.array(op[2]), field=op[1], **kept(op[3]))
        want = [r for r in rows if (r[op[1]] in op[2]) == op[3]]
    elif o == 'index':
        new = s.filter_index(np.array(op[1], dtype='int64'), **kept(op[2]))
        want = [rows[i] for i in op[1]] if op[2] else [r for i, r in enumerate(rows) if i not in op[1]]
    elif o == 'merge':
        if op[1] == 'parts':
            if len(rows) < 2:
                return s, rows
            m = len(rows) // 2
            new, want = Utt2Info.merge([s.split(2, 2), s.split(1, 2)]), rows[m:] + rows[:m]
        else:
            nc = len(rows[0])
            e = [tuple(['zz%d' % i] + ['v%d' % j for j in range(nc - 1)]) for i in range(2)]
            if set(q[0] for q in e) & set(r[0] for r in rows):
                return s, rows
            new, want = Utt2Info.merge([build(e[:1]), s, build(e[1:])]), e[:1] + rows + e[1:]
    ck.eq(rows_of(s), before, 'the operation changed the table it was called on')
    return new, want


def run_case(ck, c):
    from hyperion.utils import Utt2Info
    d = ck.dir()
    if c['kind'] == 'seq':
        rows = [tuple(r) for r in STARTS[c['si']]]
        s = build(rows)
        look(ck, s, rows)
        explore(ck, d, s, rows, c['depth'], c['first'], [])
    elif c['kind'] == 'eq':
        base = [('a', 'x'), ('b', 'y')]
        v = [base, base[::-1], base[:1], [('a', 'y'), ('b', 'y')], [('c', 'x'), ('b', 'y')], [('a', 'x', 'q'), ('b', 'y', 'q')]]
        for i, x in enumerate(v):
            for j, y in enumerate(v):
                a, b = build(x), build(y)
                ck.check(bool(a == b) == (i == j) and bool(a != b) == (i != j), lambda: 'equality of %s and %s' % (x, y))
                ck.step()
        empty = [build(b).filter([r[0] for r in b], keep=False) for b in (base, base[::-1], v[5])]
        for e in empty:
            ck.eq(len(e), 0, 'rows left when every key is dropped')
            for x in v:
                ck.check(not bool(e == build(x)) and not bool(build(x) == e), lambda: 'an empty table equals %s' % (x,))
                ck.step()
            ck.check(all(bool(e == g) and not bool(e != g) for g in empty), 'two empty tables differ')
        ck.raises(lambda: build(base).filter_info(np.array(['x', 'nope'])), 'filtering to a label that is not there')
        ck.raises(lambda: build(base).filter(['a', 'nope']), 'filtering to a key that is not there')
        ck.raises(lambda: build(base)['nope'], 'look-up of an absent key')
        ck.trace()
    elif c['kind'] == 'many':
        n = c['n']
        rows = [('k%d' % (i * 7 % n if n % 7 else i), 's%d' % (i % 5)) for i in range(n)]
        for op in [('sort', 0), ('sort', 1), ('shuffle', 3), ('io', ' '), ('split', 2, 3, 1), ('split', 3, 7, 0), ('filter', [r[0] for r in rows[::3]], True), ('filter', [r[0] for r in rows[::3]], False), ('info', 1, ['s1', 's3'], False), ('info', 1, ['s4', 's0'], True)]:
            t, w = apply(ck, d, build(rows), rows, op)
            look(ck, t, w)
            ck.step()
            ck.trace()
            ck.state((n, op))
    elif c['kind'] == 'create':
        for info in ([1, 2, 3], np.array([1, 2, 3]), ['1', '2', '3']):
            s = Utt2Info.create(['a', 'b', 'c'], info)
            look(ck, s, [('a', '1'), ('b', '2'), ('c', '3')])
            ck.step()
        ck.trace()


def explore(ck, d, s, rows, depth, first, hist):
    ops = ops_for(rows)
    if len(hist) >= 2:
        seen, red = set(), []
        for o in ops:
            key = (o[0], o[-1] if o[0] in ('filter', 'info', 'index', 'split', 'merge', 'sort') else None)
            if key not in seen:
                seen.add(key)
                red.append(o)
        ops = red
    for i, op in enumerate(ops):
        if first is not None and i != first:
            continue
        t = s.copy()
        if rows:
            t.get_index(rows[0][0])        # build the look-up tables before the operation
        try:
            t2, w = apply(ck, d, t, rows, op)
            ck.step()
            look(ck, t2, w)
        except Exception as e:
            ck.fail('start %s, after %s: %s: %s' % (rows if not hist else '...', hist + [op], type(e).__name__, e))
        ck.state(w)
        if depth > 1 and len(w) <= 9:
            explore(ck, d, t2, w, depth - 1, None, hist + [op])
        else:
            ck.trace()
