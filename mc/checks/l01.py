"""L01: script lists against plain lists of rows."""
import itertools
import os
import numpy as np
from mc.core import kept

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of operation sequences on the real script list, step by step against a list of tuples'
BOUND = {
    'quick': 'all sequences of <=3 operations (sort, shuffle, 4 filters keeping and dropping, split into 2 and 3 by key or by row, merge, save/load with 3 separators, copy, prefix) from 14 start lists (0-6 rows, repeated keys, with/without offsets and ranges); all row ranges on a grid through save/load',
    'thorough': 'sequences of <=4 operations'}
ASSUMPTIONS = ['file names hold no separator characters', 'lists to merge all have offsets or none has']
CHUNK = 2

# rows: (key, path, offset or None, range (first, number) or None); number 0: to the end
STARTS = [
    [],
    [('a', '/p/x', None, None)],
    [('b', '/p/x', None, None), ('a', '/p/y', None, None), ('c', '/p/x', None, None)],
    [('b', '/p/x', 5, None), ('a', '/p/y', 0, None), ('c', '/p/x', 123456789012, None)],
    [('k2', '/p/x', None, (2, 3)), ('k1', '/p/y', None, (0, 0)), ('k3', '/p/z', None, (4, 0))],
    [('k2', '/p/x', 7, (0, 3)), ('k1', '/p/x', 70, (2, 0)), ('k10', '/p/z', 700, (5, 1)), ('k3', '/p/x', 9, (1, 1))],
    [('s1', '/f0', 1, None), ('s2', '/f1', 2, None), ('s1', '/f2', 3, None), ('s3', '/f1', 4, None), ('s2', '/f0', 5, None)],
    [('s1', '/f0', None, (1, 2)), ('s1', '/f0', None, (3, 2)), ('s2', '/f1', None, (0, 0)), ('s0', '/f2', None, (0, 9))],
    [('u9', 'cat x.wav |', None, None), ('u10', 'cat y |', None, None)],
    [('x', '/q', 3, (0, 1))],
    [('e%d' % (i * 5 % 7), '/f%d' % (i % 3), i * 10, None) for i in range(6)],
    [('e%d' % (i * 5 % 3), '/f%d' % (i % 3), i * 10, (i, i + 1)) for i in range(6)],
    [('longkey' * 9, '/p' * 40, 1, None), ('z', '/r', 2, None)],
    [('aa', '/p/1', 0, None), ('ab', '/p/2', 0, (0, 2))],
]


def ops_for(rows):
    keys = sorted(set(r[0] for r in rows))
    paths = sorted(set(r[1] for r in rows))
    out = [('sort',), ('shuffle', 1), ('shuffle', 7), ('copy',), ('prefix',)]
    for sep in (' ', '\t', '='):
        out.append(('io', sep, ':'))
    out.append(('io', ' ', '@'))
    if len(rows) > 0:
        for np_ in (2, 3):
            for grp in (True, False):
                if len(keys) >= np_ if grp else len(rows) >= np_:
                    for i in range(1, np_ + 1):
                        out.append(('split', i, np_, grp))
        out.append(('split', 1, 1, True))
        out.append(('split', 1, 1, False))
    for keep in (True, False):
        for sub in subs(keys):
            out.append(('filter', sub, keep))
        for sub in subs(paths):
            out.append(('paths', sub, keep))
        for sub in subs(list(range(len(rows)))):
            out.append(('index', sub, keep))
    out += [('merge', 'self'), ('merge', 'parts'), ('merge', 'other')]
    return out


def subs(x):
    """a few telling sub-lists: one element, all but one, reversed order, none"""
    if not x:
        return []
    r = [[x[0]], [x[-1]], x[::-1]]
    if len(x) > 2:
        r += [[x[2], x[0]], x[1:]]
    if len(x) > 1:
        r.append([])
    out = []
    for q in r:
        if q not in out:
            out.append(q)
    return out


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for si in range(len(STARTS)):
        yield dict(kind='seq', si=si, depth=1)
    for depth in range(2, depth + 1):
        for si in range(len(STARTS)):
            n = len(ops_for(STARTS[si]))
            for i in range(n):
                yield dict(kind='seq', si=si, depth=depth, first=i)
    for off in (False, True):
        for n in (1, 2, 3):
            yield dict(kind='ranges', off=off, n=n)
    yield dict(kind='text')
    yield dict(kind='many')
    yield dict(kind='eq')


def build(rows, aslist=False):
    from hyperion.utils.scp_list import SCPList
    off = None
    rng = None
    if any(r[2] is not None for r in rows):
        off = [r[2] for r in rows]
        if not aslist:
            off = np.array(off, dtype=np.int64)
    if any(r[3] is not None for r in rows):
        rng = [list(r[3] or (0, 0)) for r in rows]
        if not aslist:
            rng = np.array(rng, dtype=np.int64)
    k, p = [r[0] for r in rows], [r[1] for r in rows]
    if not aslist:
        k, p = np.array(k, dtype='U' if not rows else None), np.array(p, dtype='U' if not rows else None)
    return SCPList(k, p, off, rng)


def rows_of(s):
    out = []
    for i in range(len(s)):
        k, p, o, r = s[i]
        out.append((str(k), str(p), None if o is None else int(o), None if r is None or (int(r[0]) == 0 and int(r[1]) == 0) else (int(r[0]), int(r[1]))))
    return out


def norm(rows):
    return [(a, b, c, None if d in (None, (0, 0)) else d) for a, b, c, d in rows]


def apply(ck, d, s, rows, op):
    """apply op to both; returns (real list, model rows)"""
    from hyperion.utils.scp_list import SCPList
    o = op[0]
    before = rows_of(s) if o not in ('sort', 'shuffle', 'prefix') else None
    if o == 'sort':
        s.sort()
        got = rows_of(s)
        ck.eq([g[0] for g in got], sorted(r[0] for r in rows), 'sorted keys')
        ck.eq(sorted(map(repr, got)), sorted(map(repr, norm(rows))), 'sorted rows')
        return s, got
    if o == 'shuffle':
        idx = s.shuffle(seed=op[1])
        ck.eq(sorted(int(i) for i in idx), list(range(len(rows))), 'index of a shuffle')
        return s, [rows[int(i)] for i in idx]
    if o == 'prefix':
        s.add_prefix_to_filepath('/mnt')
        return s, [(a, '/mnt' + b, c, e) for a, b, c, e in rows]
    if o == 'copy':
        t = s.copy()
        ck.check(t == s and not (t != s), 'a copy is not equal')
        t.sort()
        t.add_prefix_to_filepath('X')
        ck.eq(rows_of(s), before, 'changing a copy changed the list')
        new, want = s.copy(), rows
    elif o == 'io':
        p = os.path.join(d, 'l.scp')
        s.save(p, sep=op[1], offset_sep=op[2])
        new, want = SCPList.load(p, sep=op[1], offset_sep=op[2]), rows
    elif o == 'split':
        _, i, n, grp = op
        kw = {} if grp else dict(group_by_key=False)
        parts = [rows_of(s.split(j, n, **kw)) for j in range(1, n + 1)]
        if grp:
            keys = sorted(set(r[0] for r in rows))
            m = len(keys)
            want_parts = []
            for j in range(1, n + 1):
                kk = keys[(j - 1) * m // n: j * m // n]
                want_parts.append([r for k in kk for r in rows if r[0] == k])
        else:
            m = len(rows)
            want_parts = [rows[(j - 1) * m // n: j * m // n] for j in range(1, n + 1)]
        ck.eq(parts, [norm(w) for w in want_parts], 'parts')
        new, want = s.split(i, n, **kw), want_parts[i - 1]
    elif o == 'filter':
        sel = np.array(op[1], dtype='U' if not op[1] else None)
        new = s.filter(sel if len(op[1]) % 2 else list(op[1]), **kept(op[2]))
        want = [r for r in rows if (r[0] in op[1]) == op[2]]
    elif o == 'paths':
        new = s.filter_paths(list(op[1]), **kept(op[2]))
        want = [r for r in rows if (r[1] in op[1]) == op[2]]
    elif o == 'index':
        new = s.filter_index(np.array(op[1], dtype='int64'), **kept(op[2]))
        want = [rows[i] for i in op[1]] if op[2] else [r for i, r in enumerate(rows) if i not in op[1]]
    elif o == 'merge':
        if op[1] == 'self':
            new, want = SCPList.merge([s, s.copy()]), rows + rows
        elif op[1] == 'parts':
            if len(rows) < 2:
                return s, rows
            new = SCPList.merge([s.split(2, 2, group_by_key=False), s.split(1, 2, group_by_key=False)])
            m = len(rows) // 2
            want = rows[m:] + rows[:m]
        else:
            if not rows:
                return s, rows
            has = rows[0][2] is not None
            extra = [('n1', '/n', 11 if has else None, None), ('n0', '/n', 12 if has else None, (2, 4))]
            a, b = build(extra[:1]), build(extra[1:])
            new, want = SCPList.merge([a, s, b]), extra[:1] + rows + extra[1:]
    if before is not None:
        ck.eq(rows_of(s), before, 'the operation changed the list it was called on')
    return new, want


def look(ck, s, rows):
    """all observations"""
    ck.eq(len(s), len(rows), 'length')
    ck.eq(s.len(), len(rows), 'length')
    ck.eq(rows_of(s), norm(rows), 'rows')
    ck.eq([str(k) for k in s.key], [r[0] for r in rows], 'keys')
    ck.eq([str(k) for k in s.file_path], [r[1] for r in rows], 'paths')
    for k in set(r[0] for r in rows):
        ck.check(k in s, 'key %s is not found' % k)
        p, o, r = s[k]
        e = (k, str(p), None if o is None else int(o), None if r is None or (int(r[0]) == 0 and int(r[1]) == 0) else (int(r[0]), int(r[1])))
        ck.check(e in norm(rows), lambda: 'look-up of %s gives %s' % (k, e))
        ck.check(rows[s.get_index(k)][0] == k, 'position of a key is wrong')
    for k in ('none', 'a', 's1', 'k1'):
        ck.check((k in s) == (k in [r[0] for r in rows]), 'membership of %s is wrong' % k)


def run_case(ck, c):
    d = ck.dir()
    if c['kind'] == 'seq':
        rows = [tuple(r) for r in STARTS[c['si']]]
        s = build(rows, aslist=c['si'] % 2 == 1)
        look(ck, s, rows)
        explore(ck, d, s, rows, c['depth'], [c['first']] if 'first' in c else None, [])
    elif c['kind'] == 'ranges':
        from hyperion.utils.scp_list import SCPList
        for rr in itertools.product([(0, 0), (0, 1), (0, 7), (1, 0), (3, 4), (10, 1)], repeat=c['n']):
            rows = [('k%d' % i, '/f', 5 * i if c['off'] else None, r) for i, r in enumerate(rr)]
            s = build(rows)
            _, w = apply(ck, d, s, rows, ('io', ' ', ':'))
            look(ck, _, w)
            ck.step()
            ck.trace()
            ck.state(rows)
    elif c['kind'] == 'text':
        from hyperion.utils.scp_list import SCPList
        for txt, want in (
                ('a /x\nb /y\n', [('a', '/x', None, None), ('b', '/y', None, None)]),
                ('a /x:3\nb /y:0\n', [('a', '/x', 3, None), ('b', '/y', 0, None)]),
                ('a /x[2:5]\nb /y\n', [('a', '/x', None, (2, 3)), ('b', '/y', None, None)]),
                ('a /x:7[:5]\nb /y:8[4:]\nc /z:9[1:2]\n', [('a', '/x', 7, (0, 5)), ('b', '/y', 8, (4, 0)), ('c', '/z', 9, (1, 1))]),
                ('a /x y z\n', [('a', '/x y z', None, None)]),
                ('a   /x\n'.replace('   ', ' '), [('a', '/x', None, None)])):
            p = os.path.join(d, 't.scp')
            with open(p, 'w') as f:
                f.write(txt)
            s = SCPList.load(p)
            look(ck, s, want)
            ck.step()
            ck.trace()
            ck.state(txt)
        for txt in ('a /x:3\nb /y\n', 'a /x\nb /y:3\n'):
            with open(p, 'w') as f:
                f.write(txt)
            ck.raises(lambda: SCPList.load(p), 'script with some positions missing')
    elif c['kind'] == 'many':
        # longer lists: other sorting code, wider keys
        for n in (17, 40, 130):
            for rep in (1, 3, n):
                rows = [('k%d' % ((i * 31) % rep), '/f%d' % i, i, (i, i % 4)) for i in range(n)]
                s = build(rows)
                for op in [('sort',), ('shuffle', 3), ('io', ' ', ':'), ('split', 2, min(3, rep), True) if rep > 1 else ('copy',), ('split', 3, 7, False), ('filter', ['k%d' % i for i in range(0, rep, 2)], True), ('filter', ['k0'], False) if rep > 1 else ('copy',), ('paths', ['/f%d' % i for i in range(0, n, 3)], False)]:
                    s2, w = apply(ck, d, build(rows), rows, op)
                    look(ck, s2, w)
                    ck.step()
                    ck.trace()
                    ck.state((n, rep, op))
    elif c['kind'] == 'eq':
        base = [('a', '/x', 3, (1, 2)), ('b', '/y', 4, (0, 2))]
        variants = [base, base[:1], base[::-1],
                    [('c', '/x', 3, (1, 2)), base[1]], [('a', '/z', 3, (1, 2)), base[1]], [('a', '/x', 5, (1, 2)), base[1]], [('a', '/x', 3, (1, 3)), base[1]], [('a', '/x', 3, (0, 2)), base[1]],
                    [r[:2] + (None,) + r[3:] for r in base], [r[:3] + (None,) for r in base]]
        for i, x in enumerate(variants):
            for j, y in enumerate(variants):
                a, b = build(x), build(y)
                ck.check(bool(a == b) == (i == j) and bool(a != b) == (i != j), lambda: 'equality of %s and %s' % (x, y))
                ck.step()
        ck.check(build([]) == build([]), 'empty lists are equal')
        ck.trace()


def explore(ck, d, s, rows, depth, first, hist):
    ops = ops_for(rows)
    if len(hist) >= 2 and first is None:
        # deeper levels: one representative per kind of operation
        seen, red = set(), []
        for o in ops:
            key = (o[0], o[-1] if o[0] in ('filter', 'paths', 'index', 'split', 'merge') else None)
            if key not in seen:
                seen.add(key)
                red.append(o)
        ops = red
    for i, op in enumerate(ops):
        if first is not None and i not in first:
            continue
        t = build(rows) if (len(hist) == 0 and op[0] in ('sort', 'shuffle', 'prefix')) else s.copy()
        if len(rows):
            rows[0][0] in t            # build the look-up tables before the operation
        try:
            t2, w = apply(ck, d, t, rows, op)
            ck.step()
            look(ck, t2, w)
        except Exception as e:
            ck.fail('start %s, after %s: %s: %s' % (rows if not hist else '...', hist + [op], type(e).__name__, e))
        ck.state(norm(w))
        if depth > 1 and len(w) <= 12:
            explore(ck, d, t2, w, depth - 1, None, hist + [op])
        else:
            ck.trace()
