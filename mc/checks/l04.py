"""L04: segment lists against plain lists of rows."""
import itertools
import os
from fractions import Fraction as Fr
import numpy as np
from mc.core import kept

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of operation sequences on the real segment lists, step by step against a list of tuples'
BOUND = {
    'quick': 'all sequences of <=2 operations, and of 3 with one of each kind at the second and third place (filter keeping and dropping, split in 1..4 parts, merge of parts and with another list, save/load with 2 separators, copy, change of index) from 9 start lists of 1-7 segments in 1-4 files (single-segment files, interleaved files, unsorted starts, number-like and NA-like names), all look-ups in every state; speech masks: all sets of <=3 segments on a grid of 6 times x 4 frame shifts x 3 recording lengths; extended lists: all sequences of <=3 operations from 5 start lists with shared extended segments and series',
    'thorough': 'sequences of <=4 operations, masks on a grid of 9 times'}
ASSUMPTIONS = ['segment names are unique in a list', 'times have at most three decimals (the precision of the saved file)']
CHUNK = 2

# (segment, file, start, end)
STARTS = [
    [('s1', 'f1', 0.0, 1.5)],
    [('s1', 'f1', 0.0, 1.5), ('s2', 'f1', 1.5, 2.25), ('s3', 'f2', 0.125, 3.0)],
    [('b', 'z', 1.0, 2.0), ('a', 'y', 0.5, 0.75), ('c', 'z', 0.0, 4.0), ('d', 'x', 7.0, 7.0)],
    [('001', '010', 0.0, 1.0), ('1', '10', 2.0, 3.0), ('1e3', '010', 3.5, 4.125)],
    [('NA', 'nan', 0.0, 1.0), ('None', 'null', 0.001, 0.002), ('N/A', 'nan', 1.0, 1.999), ('true', 'True', 5.0, 5.5)],
    [('s%d' % (i * 3 % 7), 'f%d' % (i % 3), i * 0.5, i * 0.5 + 0.25 * (i + 1)) for i in range(7)],
    [('u-%d' % i, 'file', 10.0 - i, 20.0 - i) for i in range(5)],
    [('x1', 'x2', 0.333, 86400.125), ('x2', 'x1', 3599.999, 3600.0)],
    [('f', 'f', 0.0, 2.0), ('g', 'g', 1.0, 2.0), ('h', 'f', 1.0, 3.0), ('i', 'g', 0.5, 2.5), ('j', 'h', 0.0, 0.01)],
]
OTHER = [('zz', 'f1', 9.0, 9.5), ('yy', 'new', 0.0, 0.5)]

# extended: rows (segment, file, start, end, ext), ext -> (name, score), file -> series
EXT = [
    ([('s1', 'f1', 0.0, 1.0, 's1'), ('s2', 'f1', 1.0, 2.0, 's2'), ('s3', 'f2', 0.0, 1.0, 's3')],
     {'s1': ('A', 1.5), 's2': ('B', -0.25), 's3': ('A', 0.0)}, {'f1': 'f1', 'f2': 'f2'}),
    ([('s1', 'f1', 0.0, 1.0, 'e1'), ('s2', 'f1', 1.0, 2.0, 'e2'), ('s3', 'f1', 2.5, 3.0, 'e1'), ('s4', 'f2', 0.0, 1.0, 'e3'), ('s5', 'f3', 0.0, 1.0, 'e4')],
     {'e1': ('A', 1.5), 'e2': ('B', -0.25), 'e3': ('C', 2.0), 'e4': ('A', 3.0)}, {'f1': 'p', 'f2': 'q', 'f3': 'p'}),
    ([('s1', 'f1', 0.0, 1.0, 's1'), ('s2', 'f1', 1.0, 2.0, 's2'), ('s3', 'f1', 2.0, 3.0, 's3'), ('s4', 'f2', 0.0, 1.0, 's4')],
     {'s1': (None, None), 's2': (None, None), 's3': (None, None), 's4': (None, None)}, {'f1': 'f1', 'f2': 'f2'}),
    ([('s%d' % i, 'f%d' % (i // 4), float(i), i + 0.5, 's%d' % i) for i in range(8)],
     {'s%d' % i: ('AABBAAAB'[i], i * 0.5) for i in range(8)}, {'f0': 'x', 'f1': 'x'}),
    ([('01', '7', 0.0, 1.0, '01'), ('02', '07', 0.0, 1.0, '02')], {'01': ('nan', 1.0), '02': ('null', 2.0)}, {'7': '1', '07': '01'}),
]


def split_keys(x, i, n):
    k = len(x)
    return x[(i - 1) * k // n: i * k // n]


def subs(x):
    if not x:
        return []
    out = []
    for q in ([x[0]], [x[-1]], x[::-1], x[1:], ([x[2], x[0]] if len(x) > 2 else [x[0]]), x[::2]):
        if q and q not in out:
            out.append(q)
    return out


def keys_of(rows, ibf):
    out = []
    for r in rows:
        k = r[1] if ibf else r[0]
        if k not in out:
            out.append(k)
    return out


def ops_for(rows, ibf):
    out = [('copy',), ('index',), ('io', ' '), ('io', '\t'), ('merge', 'other'), ('merge', 'parts')]
    ks = keys_of(rows, ibf)
    for n in range(1, min(4, len(ks)) + 1):
        for i in range(1, n + 1):
            out.append(('split', i, n))
    for q in subs(ks):
        out.append(('filter', q, True))
        if len(q) < len(ks):
            out.append(('filter', q, False))
    return out


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for si in range(len(STARTS)):
        for ibf in (True, False):
            yield dict(kind='seq', si=si, ibf=ibf, depth=1)
    for dp in range(2, depth + 1):
        for si in range(len(STARTS)):
            for ibf in (True, False):
                for i in range(len(ops_for(STARTS[si], ibf))):
                    yield dict(kind='seq', si=si, ibf=ibf, depth=dp, first=i)
    for n in (1, 2, 3):
        for shift in (10, 5, 12.5, 100):
            yield dict(kind='vad', n=n, shift=shift, grid=6 if tier == 'quick' else 9)
    yield dict(kind='eq')
    for ei in range(len(EXT)):
        yield dict(kind='ext', ei=ei)
        for ic in ('file_id', 'segment_id', 'ext_segment_id', 'series_id'):
            yield dict(kind='extseq', ei=ei, ic=ic, depth=2 if tier == 'quick' else 3)


def build(rows, ibf):
    from hyperion.utils.segment_list import SegmentList
    c = list(zip(*rows))
    return SegmentList.create(list(c[0]), list(c[1]), list(c[2]), list(c[3]), index_by_file=ibf)


def rows_of(s):
    return [(a, b, float(c), float(d)) for a, b, c, d in zip(s.segment_id.tolist(), s.file_id.tolist(), s.tbeg, s.tend)]


def row_of(r):
    return (r['segment_id'], r['file_id'], float(r['tbeg']), float(r['tend']))


def apply(ck, d, s, rows, ibf, op):
    from hyperion.utils.segment_list import SegmentList
    before = rows_of(s)
    o = op[0]
    ki = 1 if ibf else 0
    nibf = ibf
    if o == 'index':
        s.index_by_file = not ibf
        return s, rows, not ibf
    if o == 'copy':
        new, want = s.copy(), rows
        ck.check(new == s and not (new != s), 'a copy is not equal to its source')
        t = s.copy()
        t.index_by_file = not ibf
        ck.check(s.index_by_file == ibf, 'changing a copy changed the list')
    elif o == 'io':
        p = os.path.join(d, 'segs')
        s.save(p, sep=op[1])
        new, want = SegmentList.load(p, sep=op[1], index_by_file=ibf), rows
    elif o == 'split':
        ks = sorted(set(r[1] for r in rows)) if ibf else [r[0] for r in rows]
        sel = split_keys(ks, op[1], op[2])
        new, want = s.split(op[1], op[2]), [r for k in sel for r in rows if r[ki] == k]
    elif o == 'filter':
        new = s.filter(np.array(op[1]) if len(op[1]) % 2 else list(op[1]), **kept(op[2]))
        if op[2]:
            want = [r for k in op[1] for r in rows if r[ki] == k]
        else:
            want = [r for r in rows if r[ki] not in op[1]]
            got = rows_of(new)
            ck.eq(sorted(got), sorted(want), 'segments after dropping %s' % (op[1],))
            for f in set(r[1] for r in want):
                if ibf:
                    ck.eq([g for g in got if g[1] == f], [w for w in want if w[1] == f], 'segments of file %s' % f)
            want = got
    elif o == 'merge':
        if op[1] == 'other':
            oth = [r for r in OTHER if r[0] not in [q[0] for q in rows]]
            if not oth:
                return s, rows, ibf
            new, want = SegmentList.merge([s, build(oth, not ibf)], index_by_file=not ibf), rows + oth
            nibf = not ibf
        else:
            nk = len(keys_of(rows, ibf))
            n = min(3, nk)
            new = SegmentList.merge([s.split(i, n) for i in range(1, n + 1)], index_by_file=ibf)
            ks = sorted(set(r[1] for r in rows)) if ibf else [r[0] for r in rows]
            want = [r for k in ks for r in rows if r[ki] == k]
    ck.eq(rows_of(s), before, 'source list after %s' % (op,))
    ck.check(s.index_by_file == ibf, 'index of the source after %s' % (op,))
    return new, want, nibf


def look(ck, s, rows, ibf):
    ck.eq(rows_of(s), rows, 'rows')
    ck.eq(len(s), len(rows), 'number of segments')
    ck.check(s.index_by_file == ibf, 'index_by_file')
    files = sorted(set(r[1] for r in rows))
    ck.eq(s.uniq_file_id.tolist(), files, 'unique files')
    for f in files:
        ck.eq(s.segments_ids_from_file(f).tolist(), [r[0] for r in rows if r[1] == f], 'segments of file %s' % f)
    it = list(itertools.islice(iter(s), len(rows) + 2))
    if ibf:
        ck.eq(len(it), len(files), 'number of files iterated')
        for i, f in enumerate(files):
            w = [r for r in rows if r[1] == f]
            for what, q in (('iteration', it[i]), ('key', s[f]), ('position', s[i]), ('getitem_by_key', s.getitem_by_key(f))):
                ck.eq(rows_of(q), w, 'file %s by %s' % (f, what))
                ck.check(not q.index_by_file, 'index of the segments of a file')
            ck.check(f in s, 'file %s is not in the list' % f)
        ck.raises(lambda: s[len(files)], 'position behind the last file')
    else:
        ck.eq([row_of(r) for r in it], rows, 'iteration')
        for i, r in enumerate(rows):
            ck.eq(row_of(s[r[0]]), r, 'segment %s' % r[0])
            ck.eq(row_of(s[i]), r, 'segment %d' % i)
            ck.check(r[0] in s, 'segment %s is not in the list' % r[0])
        ck.raises(lambda: s[len(rows)], 'position behind the last segment')
    ck.check('absent' not in s, 'an absent name is in the list')
    ck.raises(lambda: s['absent'], 'absent name')


def explore(ck, d, s, rows, ibf, depth, first, hist):
    ops = ops_for(rows, ibf)
    if hist and len(hist) + depth >= 3:
        seen, red = set(), []
        for o in ops:
            k = (o[0], o[-1] if o[0] in ('filter', 'merge') else None)
            if k not in seen:
                seen.add(k)
                red.append(o)
        ops = red
    for i, op in enumerate(ops):
        if first is not None and i != first:
            continue
        t = s.copy()
        try:
            t2, w, ibf2 = apply(ck, d, t, rows, ibf, op)
            ck.step()
            look(ck, t2, w, ibf2)
        except Exception as e:
            ck.fail('start %s, after %s: %s: %s' % (rows if not hist else '...', hist + [op], type(e).__name__, e))
        ck.state((w, ibf2))
        if depth > 1 and w:
            explore(ck, d, t2, w, ibf2, depth - 1, None, hist + [op])
        else:
            ck.trace()


def frames(t, shift):
    """nearest frame (times on a half are not used)"""
    q = Fr(str(t)) * 1000 / Fr(str(shift))
    f = q.numerator // q.denominator
    r = q - f
    if r == Fr(1, 2):
        return f if f % 2 == 0 else f + 1
    return f if r < Fr(1, 2) else f + 1


def mask(segs, shift, n):
    v = [0] * n
    for a, b in segs:
        for k in range(frames(a, shift), frames(b, shift) + 1):
            if k < n:
                v[k] = 1
    return v


def run_case(ck, c):
    from hyperion.utils.segment_list import SegmentList
    d = ck.dir()
    kind = c['kind']
    if kind == 'seq':
        rows, ibf = STARTS[c['si']], c['ibf']
        s = build(rows, ibf)
        look(ck, s, rows, ibf)
        ck.state((rows, ibf))
        explore(ck, d, s, rows, ibf, c['depth'], c.get('first'), [])
        ck.sample('segment list %d indexed by %s' % (c['si'], 'file' if ibf else 'segment'))
    elif kind == 'vad':
        shift = c['shift']
        grid = [0.0, 0.037, 0.1, 0.204, 0.55, 0.991, 1.3, 1.702, 2.0][:c['grid']]
        spans = [(a, b) for a in grid for b in grid if a <= b]
        n = c['n']
        if n == 3:
            spans = spans[::3]
        for segs in itertools.combinations(spans, n) if n > 1 else [(q,) for q in spans]:
            for order in ((1,), (-1,)) if n > 1 else ((1,),):
                sg = list(segs)[::order[0]]
                rows = [('s%d' % i, 'f', a, b) for i, (a, b) in enumerate(sg)]
                last = max(frames(b, shift) for a, b in sg)
                rows2 = rows[:1] + [('o', 'other', 0.0, 50.0)] + rows[1:]
                for nf in (None, last + 3, last + 1, max(1, last - 2)):
                    for ibf in (True, False):
                        s = build(rows2, ibf)
                        if ibf:
                            got = s.to_bin_vad('f', frame_shift=shift, num_frames=nf)
                            want = mask(sg, shift, last if nf is None else nf)
                            ck.eq(got.tolist(), want, 'mask of segments %s, shift %s ms, %s frames' % (sg, shift, nf))
                            ck.step()
                        elif n < 3:
                            for i, q in enumerate(sg):
                                got = s.to_bin_vad('s%d' % i, frame_shift=shift, num_frames=nf)
                                ck.eq(got.tolist(), mask([q], shift, last if nf is None else nf), 'mask of segment %s of %s, %s frames' % (q, sg, nf))
                                ck.step()
                ck.trace()
                ck.state((shift, sg))
    elif kind == 'eq':
        base = STARTS[2]
        var = [base, base[:-1], base[::-1], [('q',) + base[0][1:]] + base[1:], [(base[0][0], 'q') + base[0][2:]] + base[1:],
               [base[0][:2] + (0.25, 2.0)] + base[1:], [base[0][:3] + (2.5,)] + base[1:]]
        objs = [(i, ibf, build(v, ibf)) for i, v in enumerate(var) for ibf in (True, False)]
        for i, x, a in objs:
            for j, y, b in objs:
                ck.check(bool(a == b) == (i == j and x == y) and bool(a != b) == (not (i == j and x == y)), lambda: 'equality of lists %d and %d' % (i, j))
                ck.step()
        ck.raises(lambda: build([('s', 'f', 2.0, 1.0)], True), 'segment that ends before it starts')
        ck.raises(lambda: build(base + [('t', 'f', 2.0, 1.0)], False), 'segment that ends before it starts')
        ck.trace()
        ck.state('eq')
        # lists written by other programs
        p = os.path.join(d, 't')
        with open(p, 'w') as f:
            f.write('s1 f1 0 1\ns2 f1 1.5 2\n')
        look(ck, SegmentList.load(p), [('s1', 'f1', 0.0, 1.0), ('s2', 'f1', 1.5, 2.0)], True)
    elif kind == 'ext':
        ext_basic(ck, d, *EXT[c['ei']])
    elif kind == 'extseq':
        segs, ext, ser = EXT[c['ei']]
        m = (segs, dict(ext), dict(ser))
        e = ebuild(*m, ic=c['ic'])
        elook(ck, e, m, c['ic'])
        eexplore(ck, d, e, m, c['ic'], c['depth'], [])


# ------------------------------------------------------------------ extended segment lists
def ebuild(segs, ext, ser, ic='file_id'):
    from hyperion.utils.ext_segment_list import ExtSegmentList
    c = list(zip(*segs))
    inv = {}
    for f, q in ser.items():
        inv.setdefault(q, []).append(f)
    kw = {}
    if all(v[0] is not None for v in ext.values()):
        kw = dict(name={k: v[0] for k, v in ext.items()}, score={k: v[1] for k, v in ext.items()})
    return ExtSegmentList.create(list(c[0]), list(c[1]), list(c[2]), list(c[3]), list(c[4]), series_id=inv, index_column=ic, **kw)


def nn(x):
    return None if x is None or x != x else x


def etable(e):
    return ([(r[0], r[1], float(r[2]), float(r[3]), r[4]) for r in e.segments[['segment_id', 'file_id', 'tbeg', 'tend', 'ext_segment_id']].values.tolist()],
            {r[0]: (nn(r[1]), nn(r[2])) for r in e.ext_segments[['ext_segment_id', 'name', 'score']].values.tolist()},
            {r[0]: r[1] for r in e.files[['file_id', 'series_id']].values.tolist()})


def elook(ck, e, m, ic):
    segs, ext, ser = m
    ck.eq(etable(e), (segs, ext, ser), 'extended segment list')
    ck.eq((len(e), len(e.ext_segments), len(e.files), e.num_ext_segments), (len(segs), len(ext), len(ser), len(ext)), 'sizes of the tables')
    ck.eq(e.segment_id.tolist(), [r[0] for r in segs], 'segment_id')
    ck.eq(e.file_id.tolist(), [r[1] for r in segs], 'file_id')
    ck.eq(e.ext_segment_id.tolist(), [r[4] for r in segs], 'ext_segment_id')
    ck.eq([nn(q) for q in e.segment_names.tolist()], [ext[r[4]][0] for r in segs], 'names of the segments')
    ck.eq([nn(q) for q in e.segment_score.tolist()], [ext[r[4]][1] for r in segs], 'scores of the segments')
    if all(v[0] is not None for v in ext.values()) and segs:
        u = sorted(set(v[0] for v in ext.values()))
        ck.eq(e.segment_names_index.tolist(), [u.index(ext[r[4]][0]) for r in segs], 'name indices')
    ids = e.uniq_segment_id.tolist()
    ck.eq(sorted(ids), sorted(ext), 'extended segments')
    ck.eq([ids[i] for i in e.get_ext_segment_index()], [r[4] for r in segs], 'index of the extended segments')
    ck.eq(sorted(e.uniq_file_id.tolist()), sorted(ser), 'files')
    for f in ser:
        ck.eq(e.segment_ids_from_file(f).tolist(), [r[0] for r in segs if r[1] == f], 'segments of %s' % f)
        ck.eq(e.ext_segment_ids_from_file(f).tolist(), sorted(set(r[4] for r in segs if r[1] == f)), 'extended segments of %s' % f)
    if ic != 'series_id':
        for k in ekeys(m, ic)[0]:
            ck.check(k in e, lambda: '%s is not in the list by %s' % (k, ic))
        ck.check('nope' not in e, 'an absent key is in the list')
    it = list(itertools.islice(iter(e), len(segs) + 2))
    if ic == 'segment_id':
        ck.eq([(q['segment_id'].iloc[0], q['file_id'].iloc[0], nn(q['name'].iloc[0])) for q in it], [(r[0], r[1], ext[r[4]][0]) for r in segs], 'iteration')
    else:
        got = sorted(tuple(sorted(q.segment_id.tolist())) for q in it)
        key = {'file_id': lambda r: r[1], 'ext_segment_id': lambda r: r[4], 'series_id': lambda r: ser[r[1]]}[ic]
        want = sorted(tuple(sorted(r[0] for r in segs if key(r) == k)) for k in set(key(r) for r in segs))
        ck.eq(got, want, 'iteration by %s' % ic)


def ekeys(m, ic):
    segs, ext, ser = m
    key = {'file_id': lambda r: r[1], 'segment_id': lambda r: r[0], 'ext_segment_id': lambda r: r[4], 'series_id': lambda r: ser[r[1]]}[ic]
    out = []
    for r in segs:
        if key(r) not in out:
            out.append(key(r))
    return out, key


def edown(m, segs):
    return (segs, {k: v for k, v in m[1].items() if k in [r[4] for r in segs]}, {k: v for k, v in m[2].items() if k in [r[1] for r in segs]})


def eexplore(ck, d, e, m, ic, depth, hist):
    from hyperion.utils.ext_segment_list import ExtSegmentList
    segs, ext, ser = m
    ks, key = ekeys(m, ic)
    ops = [('copy',), ('io', ' '), ('mergeparts',), ('adjacent', 0), ('adjacent', 2), ('names',)]
    ops += [('index', q) for q in ('file_id', 'segment_id', 'ext_segment_id', 'series_id') if q != ic]
    for q in subs(ks):
        ops += [('filter', q, True)]
        if len(q) < len(ks):
            ops += [('filter', q, False)]
    for n in range(1, min(3, len(ks)) + 1):
        for i in range(1, n + 1):
            ops.append(('split', i, n))
    for op in ops:
        o = op[0]
        t = e.copy()
        nic = ic
        w = m
        try:
            if o == 'copy':
                t2 = t.copy()
                ck.check(t2 == t and not (t2 != t), 'a copy is not equal')
            elif o == 'io':
                p = os.path.join(d, 'e')
                t.save(p, sep=op[1])
                t2 = ExtSegmentList.load(p, sep=op[1], index_column=ic)
            elif o == 'index':
                t.index_column = op[1]
                t2, nic = t, op[1]
            elif o in ('filter', 'split'):
                if o == 'split':
                    allk = {'file_id': list(dict.fromkeys(e.files['file_id'].tolist())), 'segment_id': [r[0] for r in segs], 'ext_segment_id': e.ext_segments['ext_segment_id'].tolist(), 'series_id': list(dict.fromkeys(e.files['series_id'].tolist()))}[ic]
                    sel, keep = split_keys(allk, op[1], op[2]), True
                else:
                    sel, keep = op[1], op[2]
                if keep and ic != 'series_id':
                    wseg = [r for k in sel for r in segs if key(r) == k]
                else:
                    wseg = [r for r in segs if (key(r) in sel) == keep]
                w = edown(m, wseg)
                if any(a[1] == b[1] and a[2] > b[2] for a, b in zip(wseg, wseg[1:])):
                    ck.raises(lambda: t.filter(sel, **kept(keep)) if o == 'filter' else t.split(op[1], op[2]), 'segments of a file out of order')
                    ck.step()
                    continue
                t2 = t.filter(list(sel), **kept(keep)) if o == 'filter' else t.split(op[1], op[2])
                ck.eq(etable(t), m, 'source after %s' % (op,))
            elif o == 'mergeparts':
                t.index_column = 'file_id'
                fs = list(dict.fromkeys(r[1] for r in segs))
                n = min(2, len(fs))
                parts = [split_keys(fs, i, n) for i in range(1, n + 1)]
                wseg = [r for p in parts for f in p for r in segs if r[1] == f]
                t2 = ExtSegmentList.merge([t.filter(p) for p in parts] + ([t.filter(parts[0])] if len(parts) > 1 else []), index_column=ic)
                w = (wseg, ext, ser)
            elif o == 'adjacent':
                t2 = t
                t2.merge_adjacent_segments(op[1])
                mx = op[1] or len(segs)
                runs = []
                for r in segs:
                    nm = ext[r[4]][0]
                    if runs and runs[-1][-1][1] == r[1] and nm is not None and ext[runs[-1][-1][4]][0] == nm and len(runs[-1]) < mx:
                        runs[-1].append(r)
                    else:
                        runs.append([r])
                wseg, wext = [], {}
                for q in runs:
                    k = '@'.join(r[0] for r in q)
                    wext[k] = ext[q[0][4]]
                    wseg += [r[:4] + (k,) for r in q]
                w = (wseg, wext, ser)
            elif o == 'names':
                t2 = t
                ids = list(ext)[::-2]
                t2.assign_names(ids, ['N%d' % i for i in range(len(ids))], [float(i) for i in range(len(ids))])
                w = (segs, dict(ext, **{k: ('N%d' % i, float(i)) for i, k in enumerate(ids)}), ser)
            ck.step()
            elook(ck, t2, w, nic)
        except Exception as ex:
            ck.fail('extended list, after %s: %s: %s' % (hist + [op], type(ex).__name__, ex))
        ck.state(('ext', w[0], sorted(w[1].items()), nic))
        if depth > 1 and w[0]:
            eexplore(ck, d, t2, w, nic, depth - 1, hist + [op])
        else:
            ck.trace()


def ext_basic(ck, d, segs, ext, ser):
    """construction routes, and the use of extended lists for trial lists"""
    from hyperion.utils.ext_segment_list import ExtSegmentList
    from hyperion.utils.trial_ndx import TrialNdx
    import pandas as pd
    rows = [r[:4] for r in segs]
    c = list(zip(*rows))
    e = ExtSegmentList.create_from_segment_list(build(rows, True))
    plain = ([r + (r[0],) for r in rows], {r[0]: (None, None) for r in rows}, {r[1]: r[1] for r in rows})
    elook(ck, e, plain, 'file_id')
    e = ExtSegmentList.create(list(c[0]), list(c[1]), list(c[2]), list(c[3]))
    elook(ck, e, plain, 'file_id')
    e = ExtSegmentList.create(list(c[0]), list(c[1]), list(c[2]), list(c[3]), name='unk', score=0.5)
    elook(ck, e, (plain[0], {r[0]: ('unk', 0.5) for r in rows}, plain[2]), 'file_id')
    e = ExtSegmentList(pd.DataFrame({'segment_id': list(c[0]), 'file_id': list(c[1]), 'tbeg': list(c[2]), 'tend': list(c[3])}))
    elook(ck, e, plain, 'file_id')
    ck.step(4)
    # series, names and scores given as dictionaries
    sd = {}
    for f, q in ser.items():
        sd.setdefault(q, []).append(f)
    nd, cd = {k: v[0] for k, v in ext.items()}, {k: v[1] for k, v in ext.items()}
    for q in (0, 1):
        e = ExtSegmentList.create(list(c[0]), list(c[1]), list(c[2]), list(c[3]), ext_segment_id=[r[4] for r in segs],
                                  series_id=dict(list(sd.items())[::-1 if q else 1]), name=dict(list(nd.items())[::-1 if q else 1]), score=cd)
        elook(ck, e, (segs, ext, ser), 'file_id')
        n2, c2 = {r[0]: 'n%d' % (i % 2) for i, r in enumerate(rows)}, {r[0]: 0.5 * i for i, r in enumerate(rows)}
        e = ExtSegmentList.create_from_segment_list(build(rows, True), series_id=dict(list(sd.items())[::-1 if q else 1]), name=dict(list(n2.items())[::-1 if q else 1]), score=c2)
        elook(ck, e, (plain[0], {r[0]: (n2[r[0]], c2[r[0]]) for r in rows}, ser), 'file_id')
        ck.step(2)
    # only the .segments file
    e.save(os.path.join(d, 'p'))
    os.unlink(os.path.join(d, 'p.ext_segments'))
    os.unlink(os.path.join(d, 'p.files'))
    elook(ck, ExtSegmentList.load(os.path.join(d, 'p')), plain, 'file_id')
    e = ebuild(segs, ext, ser)
    var = [e, ebuild(segs, ext, ser, ic='segment_id'), ebuild(segs, dict(ext, **{segs[0][4]: ('zz', 9.0)}) if ext[segs[0][4]][0] is not None else {k: ('zz', 9.0) for k in ext}, ser), ebuild(segs, ext, dict(ser, **{segs[0][1]: 'zz'}))]
    for i, a in enumerate(var):
        for j, b in enumerate(var):
            ck.check(bool(a == b) == (i == j) and bool(a != b) == (i != j), 'equality of extended lists %d and %d' % (i, j))
    files = list(dict.fromkeys(r[1] for r in segs))
    nm = 2
    for bits in itertools.product((False, True), repeat=nm * len(files)):
        if len(bits) > 6 and sum(bits) not in (1, 3):
            continue
        mk = np.array(bits).reshape(nm, len(files))
        ndx = TrialNdx(np.array(['m0', 'm1']), np.array(files), mk)
        got = ndx.apply_segmentation_to_test(e)
        wantset, cols = [], []
        for j, f in enumerate(files):
            for q in sorted(set(r[4] for r in segs if r[1] == f)):
                wantset.append(q)
                cols.append(mk[:, j])
        ck.eq(got.seg_set.tolist(), wantset, 'test segments')
        ck.eq(got.trial_mask, np.array(cols).T, 'trials of the segments')
        ck.eq(got.model_set.tolist(), ['m0', 'm1'], 'models')
        ck.step()
        ck.state(('ndx', bits, wantset))
    ck.trace()
