"""L05: RTTM tables against plain lists of rows."""
import itertools
import os
import numpy as np
from mc.core import kept

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of operation sequences on the real RTTM table, step by step against a list of tuples'
BOUND = {
    'quick': 'all sequences of <=2 operations, and of 3 with one of each kind at the second and third place (filter keeping and dropping, split in 1..3 parts, merge of parts and with another table, merge of adjacent segments, overlap removal, name prefixes, save/load, copy, change of index) from 8 start tables of 1-7 rows in 1-3 files, every query in every state; merging of adjacent segments and overlap removal: all sequences of <=4 segments with starts and durations on a grid and 2 speakers; speaker names: all segments on a grid of 9 times over 5 tables',
    'thorough': 'sequences of <=4 operations, sequences of <=5 segments'}
ASSUMPTIONS = ['rows of one file are consecutive and sorted by start time (the table checks that)', 'overlap removal is explored on sequences in which no segment lies inside of another', 'times have at most three decimals']
CHUNK = 2

NA = '<NA>'


def R(f, tb, td, n, ty='SPEAKER', ch=1, ortho=NA, st=NA, cf=NA, slat=NA):
    return (ty, f, ch, tb, td, ortho, st, n, cf, slat)


STARTS = [
    [R('f1', 0.0, 1.5, 'spk1')],
    [R('f1', 0.0, 1.0, 'A'), R('f1', 1.0, 2.0, 'A'), R('f1', 2.5, 1.0, 'B'), R('f2', 0.25, 1.0, 'A')],
    [R('z', 0.0, 4.0, 'A', cf=0.5), R('z', 1.0, 1.0, 'A', cf=0.25), R('z', 4.0, 1.0, 'A', cf=1.0), R('y', 0.5, 2.0, 'B', cf=0.125), R('y', 1.0, 2.0, 'C', cf=0.0)],
    [R('001', 0.0, 1.0, '1'), R('001', 1.0, 1.0, '01'), R('1', 0.0, 1.0, 'NA'), R('1', 2.0, 1.0, 'nan')],
    [R('a', 0.0, 9.0, 'x', ty='SPKR'), R('a', 0.0, 1.0, 'x'), R('a', 0.5, 1.0, 'x', ty='NOISE', ortho='bla', st='music', slat='3'), R('a', 1.0, 1.0, 'x'), R('b', 0.0, 1.0, 'y', ty='NOISE')],
    [R('f%d' % (i // 3), 0.5 * (i % 3), 0.75, 'AABBA'[i % 5], ch=1 + i % 2) for i in range(7)],
    [R('c', 1.0 * i, 1.25, 'p') for i in range(5)],
    [R('k', 3599.875, 1.0, 's'), R('k', 86400.0, 0.125, 't'), R('j', 0.0, 0.0, 's')],
]
OTHER = [R('o1', 0.0, 1.0, 'A'), R('o2', 3.0, 1.0, 'new')]


def build(rows, ibf=True):
    from hyperion.utils.rttm import RTTM
    c = list(zip(*rows))
    return RTTM.create(list(c[0]), list(c[1]), list(c[2]), list(c[3]), list(c[4]), list(c[5]), list(c[6]), list(c[7]), list(c[8]), list(c[9]), index_by_file=ibf)


COLS = ['segment_type', 'file_id', 'chnl', 'tbeg', 'tdur', 'ortho', 'stype', 'name', 'conf', 'slat']


def num(x):
    if isinstance(x, str):
        try:
            return float(x) if x != NA else x
        except ValueError:
            return x
    return float(x)


def row_of(r):
    return tuple([r['segment_type'], r['file_id'], int(r['chnl']), float(r['tbeg']), float(r['tdur']), r['ortho'], r['stype'], r['name'], num(r['conf']), r['slat']])


def rows_of(s):
    out = []
    for v in s.segments[COLS].values.tolist():
        out.append((v[0], v[1], int(v[2]), float(v[3]), float(v[4]), v[5], v[6], v[7], num(v[8]), v[9]))
    return out


def uniq(x):
    return list(dict.fromkeys(x))


def split_keys(x, i, n):
    k = len(x)
    return x[(i - 1) * k // n: i * k // n]


def valid(rows):
    return all(a[1] != b[1] or a[3] <= b[3] for a, b in zip(rows, rows[1:]))


def adjacent(rows, margin):
    out = []
    prev = None
    for r in rows:
        if prev is not None and prev[1] == r[1] and prev[0] == r[0] and prev[7] == r[7] and r[3] - prev[3] - prev[4] <= margin:
            q = out[-1]
            end = max(q[3] + q[4], r[3] + r[4])
            out[-1] = q[:4] + (end - q[3],) + q[5:]
        else:
            out.append(r)
        prev = r
    return out


def overlaps(rows):
    tb = [r[3] for r in rows]
    te = [r[3] + r[4] for r in rows]
    nb, ne = list(tb), list(te)
    for i in range(1, len(rows)):
        if rows[i][1] == rows[i - 1][1] and rows[i][0] == rows[i - 1][0] and tb[i] < te[i - 1]:
            nb[i] = ne[i - 1] = (tb[i] + te[i - 1]) / 2
    return [r[:3] + (b, e - b) + r[5:] for r, b, e in zip(rows, nb, ne)]


def nested(rows):
    for a, b in itertools.combinations(rows, 2):
        if a[1] == b[1] and (b[3] + b[4] <= a[3] + a[4] or b[3] <= a[3]):
            return True
    # a segment that overlaps more than its neighbour
    for a, b in zip(rows, rows[2:]):
        if a[1] == b[1] and b[3] < a[3] + a[4]:
            return True
    return False


def subs(x):
    if not x:
        return []
    out = []
    for q in ([x[0]], [x[-1]], x[::-1], x[1:], x[::2]):
        if q and q not in out:
            out.append(q)
    return out


def ops_for(rows, ibf):
    out = [('copy',), ('index',), ('io',), ('merge', 'other'), ('merge', 'parts'), ('prepend',), ('adj', 0), ('adj', 0.5), ('adj', 1e6)]
    if not nested(rows):
        out.append(('over',))
    ks = uniq(r[1] for r in rows) if ibf else list(range(len(rows)))
    for n in range(1, min(3, len(ks)) + 1):
        for i in range(1, n + 1):
            out.append(('split', i, n))
    for q in subs(ks):
        out.append(('filter', q, True))
        if len(q) < len(ks):
            out.append(('filter', q, False))
    return out


def apply(ck, d, s, rows, ibf, op):
    from hyperion.utils.rttm import RTTM
    o = op[0]
    if o == 'index':
        s.index_by_file = not ibf
        return s, rows, not ibf
    if o == 'prepend':
        s.prepend_file_id_to_name()
        return s, [r[:7] + (r[1] + '_' + r[7],) + r[8:] if r[0] == 'SPEAKER' else r for r in rows], ibf
    if o == 'adj':
        s.merge_adjacent_segments(op[1])
        w = adjacent(rows, op[1])
        ck.eq(rows_of(s), w, 'merge of adjacent segments, margin %s, of %s' % (op[1], rows))
        s.index_by_file = ibf
        return s, w, ibf
    if o == 'over':
        s.eliminate_overlaps()
        return s, overlaps(rows), ibf
    before = rows_of(s)
    nibf = ibf
    if o == 'copy':
        new, want = s.copy(), rows
        ck.check(new == s and not (new != s), 'a copy is not equal to its source')
        t = s.copy()
        t.merge_adjacent_segments(1e6)
        t.index_by_file = not ibf
    elif o == 'io':
        p = os.path.join(d, 't.rttm')
        s.save(p)
        new, want = RTTM.load(p, index_by_file=ibf), rows
        txt = [l.split(' ') for l in open(p).read().split('\n') if l]
        ck.eq([(l[0], l[1], int(l[2]), float(l[3]), float(l[4]), l[5], l[6], l[7], num(l[8]), l[9]) for l in txt], rows, 'text of the file')
    elif o in ('split', 'filter'):
        ks = uniq(r[1] for r in rows) if ibf else list(range(len(rows)))
        if o == 'split':
            sel, keep = split_keys(ks, op[1], op[2]), True
        else:
            sel, keep = op[1], op[2]
        if keep:
            want = [r for k in sel for r in rows if r[1] == k] if ibf else [rows[k] for k in sel]
        else:
            want = [r for j, r in enumerate(rows) if (r[1] if ibf else j) not in sel]
            if ibf:
                want = [r for k in sorted(set(r[1] for r in want)) for r in want if r[1] == k]
        if not valid(want):
            return s, rows, ibf
        new = s.split(op[1], op[2]) if o == 'split' else s.filter(list(sel), **kept(keep))
        if not keep:
            # the order of the files that remain is not part of the property
            got = rows_of(new)
            ck.eq(sorted(map(repr, got)), sorted(map(repr, want)), 'rows after dropping %s' % (sel,))
            ck.check(valid(got), 'order within the files after dropping')
            want = got
    elif o == 'merge':
        if op[1] == 'other':
            if any(r[1] in ('o1', 'o2') for r in rows):
                return s, rows, ibf
            new, want, nibf = RTTM.merge([s, build(OTHER, not ibf)], index_by_file=not ibf), rows + OTHER, not ibf
        else:
            ks = uniq(r[1] for r in rows) if ibf else list(range(len(rows)))
            n = min(3, len(ks))
            parts = [s.split(i, n) for i in range(1, n + 1)]
            new, want = RTTM.merge(parts, index_by_file=ibf), [r for k in ks for r in rows if r[1] == k] if ibf else rows
    ck.eq(rows_of(s), before, 'source table after %s' % (op,))
    return new, want, nibf


def look(ck, s, rows, ibf):
    ck.eq(rows_of(s), rows, 'rows')
    ck.eq(len(s), len(rows), 'number of rows')
    ck.check(s.index_by_file == ibf, 'index_by_file')
    files = uniq(r[1] for r in rows)
    ck.eq((s.file_id.tolist(), s.tbeg.tolist(), s.tdur.tolist(), s.name.tolist()), tuple([r[k] for r in rows] for k in (1, 3, 4, 7)), 'columns')
    ck.eq(sorted(s.unique_file_id.tolist()), sorted(files), 'files')
    ck.eq(s.num_files, len(files), 'number of files')
    spk = [r for r in rows if r[0] == 'SPEAKER']
    ck.eq(s.total_num_spks, len(set(r[7] for r in spk)), 'number of speakers')
    per = {f: len(set(r[7] for r in spk if r[1] == f)) for f in files}
    ck.eq(dict(s.num_spks_per_file), per, 'speakers of each file')
    ck.close(s.avg_num_spks_per_file, sum(per.values()) / len(per), 'average number of speakers')
    for f in files:
        mine = set(r[7] for r in spk if r[1] == f)
        ck.eq(sorted(s.get_files_with_names_diff_to_file(f).tolist()), sorted(set(r[1] for r in spk if r[7] not in mine)), 'files with other names than %s' % f)
    it = list(itertools.islice(iter(s), len(rows) + 2))
    if ibf:
        ck.eq(len(it), len(files), 'number of files iterated')
        got = {}
        for q in it:
            ck.check(not q.index_by_file, 'index of the rows of a file')
            got[q.file_id[0]] = rows_of(q)
        want = {f: [r for r in rows if r[1] == f] for f in files}
        ck.eq(got, want, 'iteration by file')
        for f in files:
            ck.eq(rows_of(s[f]), want[f], 'rows of file %s' % f)
            ck.check(f in s, 'file %s is not in the table' % f)
        ck.check('absent' not in s, 'an absent file is in the table')
        ck.raises(lambda: s['absent'], 'absent file')
    else:
        ck.eq([row_of(q) for q in it], rows, 'iteration by row')
        for i in range(len(rows)):
            ck.eq(row_of(s[i]), rows[i], 'row %d' % i)
    sl = s.to_segment_list()
    ck.eq([(a, float(b), float(c)) for a, b, c in zip(sl.file_id.tolist(), sl.tbeg, sl.tend)], [(r[1], r[3], r[3] + r[4]) for r in rows], 'segment list')
    ids = sl.segment_id.tolist()
    for i in range(len(rows)):
        for j in range(i):
            a, b = rows[i], rows[j]
            ck.check((ids[i] == ids[j]) == (a[1] == b[1] and a[3] == b[3] and a[4] == b[4]) or (abs(a[3] - b[3]) < 1e-3 and abs(a[4] - b[4]) < 1e-3), lambda: 'segment ids %s and %s of rows %s %s' % (ids[i], ids[j], a, b))


def explore(ck, d, s, rows, ibf, depth, first, hist):
    ops = ops_for(rows, ibf)
    if hist and len(hist) + depth >= 3:
        seen, red = set(), []
        for o in ops:
            k = (o[0], o[-1] if o[0] in ('filter', 'merge', 'adj') else None)
            if k not in seen:
                seen.add(k)
                red.append(o)
        ops = red
    for i, op in enumerate(ops):
        if first is not None and i != first:
            continue
        t = s.copy()
        try:
            t2, w, ibf2 = apply(ck, d, t, rows, ibf, op)
            ck.step()
            look(ck, t2, w, ibf2)
        except Exception as e:
            ck.fail('start %s, after %s: %s: %s' % (rows if not hist else '...', hist + [op], type(e).__name__, e))
        ck.state((w, ibf2))
        if depth > 1 and w:
            explore(ck, d, t2, w, ibf2, depth - 1, None, hist + [op])
        else:
            ck.trace()


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for si in range(len(STARTS)):
        for ibf in (True, False):
            yield dict(kind='seq', si=si, ibf=ibf, depth=1)
    yield dict(kind='make')
    yield dict(kind='names')
    for k in range(1, (4 if tier == 'quick' else 5) + 1):
        for a in range(6):
            yield dict(kind='adj', k=k, a=a)
    for dp in range(2, depth + 1):
        for si in (range(len(STARTS)) if dp == 2 or tier != 'quick' else (1, 2, 4, 5)):
            for ibf in (True, False):
                for i in range(len(ops_for(STARTS[si], ibf))):
                    yield dict(kind='seq', si=si, ibf=ibf, depth=dp, first=i)


def run_case(ck, c):
    d = ck.dir()
    kind = c['kind']
    if kind == 'seq':
        rows, ibf = STARTS[c['si']], c['ibf']
        s = build(rows, ibf)
        look(ck, s, rows, ibf)
        ck.state((rows, ibf))
        explore(ck, d, s, rows, ibf, c['depth'], c.get('first'), [])
        ck.sample('table %d indexed by %s' % (c['si'], 'file' if ibf else 'row'))
    elif kind == 'adj':
        k = c['k']
        # each next segment: (start relative to the start of the previous, duration, speaker)
        steps = [(ds, du, n) for ds in (0.0, 0.5, 1.5) for du in (0.25, 1.0, 2.0) for n in 'AB']
        if k >= 4:
            steps = [(ds, du, n) for ds in (0.5, 1.5) for du in (0.25, 1.0) for n in 'AB']
        if k >= 5:
            steps = [q for q in steps if q[1] == 1.0 or q[0] == 0.5]
        first = [(du, n) for du in (0.25, 1.0, 2.0) for n in 'AB'][c['a']]
        for tail in itertools.product(steps, repeat=k - 1):
            rows, t = [R('f', 1.0, first[0], first[1])], 1.0
            for ds, du, n in tail:
                t += ds
                rows.append(R('f', t, du, n))
            for margin in (0, 0.25, 0.5):
                s = build(rows, True)
                s.merge_adjacent_segments(margin)
                ck.eq(rows_of(s), adjacent(rows, margin), 'merge of adjacent segments of %s, margin %s' % ([(r[3], r[4], r[7]) for r in rows], margin))
                ck.step()
            if not nested(rows):
                s = build(rows, len(tail) % 2 == 0)
                s.eliminate_overlaps()
                got = rows_of(s)
                ck.eq(got, overlaps(rows), 'overlap removal of %s' % ([(r[3], r[4], r[7]) for r in rows],))
                ck.check(all(x[3] + x[4] <= y[3] for x, y in zip(got, got[1:])), 'segments still overlap')
                ck.step()
            # activity of each speaker, sampled in the middle of every 1/8 s
            s = build(rows, True)
            m = s.to_matrix('f', frame_shift=0.25)
            names = sorted(set(r[7] for r in rows))
            want = np.zeros((int(max(r[3] + r[4] for r in rows) * 4), len(names)), int)
            for r in rows:
                want[int(r[3] * 4):int((r[3] + r[4]) * 4), names.index(r[7])] = 1
            ck.eq(m, want, 'activity matrix of %s' % ([(r[3], r[4], r[7]) for r in rows],))
            ck.step()
            ck.trace()
            ck.state(rows)
    elif kind == 'names':
        from hyperion.utils.segment_list import SegmentList
        grid = [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 4.0]
        for si, rows in enumerate(STARTS[:6]):
            for ibf in (True, False):
                s = build(rows, ibf)
                segs = []
                for f in uniq(r[1] for r in rows) + ['none']:
                    for a, b in itertools.combinations(grid, 2):
                        segs.append(('%s-%g-%g' % (f, a, b), f, a, b))
                for order in (segs, segs[::-1], sorted(segs, key=lambda q: (q[2], q[3], q[1]))):
                    q = list(zip(*order))
                    sl = SegmentList.create(list(q[0]), list(q[1]), list(q[2]), list(q[3]))
                    for ty in ('SPEAKER', 'NOISE'):
                        want = []
                        for _, f, a, b in order:
                            n = uniq(r[7] for r in rows if r[0] == ty and r[1] == f and (r[3] <= a < r[3] + r[4] or r[3] < b <= r[3] + r[4]))
                            want.append(n)
                        for fn in (s.get_segment_names, s.get_segment_names_slow):
                            if fn == s.get_segment_names_slow and len(order) > 60 and order is not segs:
                                continue
                            nm, cnt = fn(sl, segment_type=ty)
                            ck.eq(nm.tolist(), ['@'.join(n) if n else NA for n in want], 'names of the segments of table %d' % si)
                            ck.eq(cnt.tolist(), [len(n) for n in want], 'number of names')
                            ck.step()
                    ck.trace()
                    ck.state((si, ibf, want))
    elif kind == 'make':
        make(ck, d)


def make(ck, d):
    from hyperion.utils.rttm import RTTM
    from hyperion.utils.segment_list import SegmentList
    from hyperion.utils.ext_segment_list import ExtSegmentList
    p = os.path.join(d, 'x.rttm')
    f = ['f1', 'f1', 'f2']
    tb, te = [0.0, 1.0, 0.5], [0.75, 3.0, 0.625]
    for names in (['A', 'B', 'A'], [0, 1, 0], np.array([3, 3, 4])):
        for conf in (None, [0.5, 0.25, 1.0]):
            for chnl in (None, [2, 1, 2]):
                for pre in (False, True):
                    for src in range(2):
                        if src == 0:
                            s = RTTM.create_spkdiar(f, tb, [b - a for a, b in zip(tb, te)], names, conf=conf, chnl=chnl, prepend_file_id=pre)
                        else:
                            s = RTTM.create_spkdiar_from_segments(SegmentList.create(['a', 'b', 'c'], f, tb, te), names, conf=conf, chnl=chnl, prepend_file_id=pre)
                        want = [R(f[i], tb[i], te[i] - tb[i], ('%s_%s' % (f[i], names[i]) if pre else names[i]), ch=(chnl or [1] * 3)[i], cf=(conf or [NA] * 3)[i]) for i in range(3)]
                        look(ck, s, want, True)
                        s.save(p)
                        want = [r[:7] + (str(r[7]),) + r[8:] for r in want]
                        t = RTTM.load(p)
                        look(ck, t, want, True)
                        t.save(p)
                        look(ck, RTTM.load(p, index_by_file=False), want, False)
                        ck.step(3)
                        ck.trace()
                        ck.state(want)
    # extended segments: several segments share one name
    e = ExtSegmentList.create(['s1', 's2', 's3', 's4'], ['f1', 'f1', 'f1', 'f2'], [0.0, 1.0, 2.0, 0.0], [1.0, 2.0, 2.5, 1.0], ['e1', 'e2', 'e1', 'e3'],
                              name={'e1': 'A', 'e2': 'B', 'e3': 'C'}, score={'e1': 0.5, 'e2': 1.5, 'e3': 2.5})
    for pre in (False, True):
        s = RTTM.create_spkdiar_from_ext_segments(e, prepend_file_id=pre)
        q = [('f1', 0.0, 1.0, 'A', 0.5), ('f1', 1.0, 1.0, 'B', 1.5), ('f1', 2.0, 0.5, 'A', 0.5), ('f2', 0.0, 1.0, 'C', 2.5)]
        look(ck, s, [R(a, b, x, (a + '_' if pre else '') + n, cf=z) for a, b, x, n, z in q], True)
        ck.step()
    # duration left out: nothing to compare but the text of the file
    s = RTTM.create(['SPEAKER', 'NOISE'], ['f', 'g'], tbeg=[0.0, 1.0])
    ck.eq(s.tdur.tolist(), [NA, NA], 'durations that were not given')
    ck.raises(lambda: build([R('f', 2.0, 1.0, 'A'), R('f', 1.0, 1.0, 'A')]), 'rows of a file out of order')
    # equality
    base = STARTS[2]
    var = [base, base[:-1], [base[0][:4] + (3.0,) + base[0][5:]] + base[1:], [base[0][:7] + ('Q',) + base[0][8:]] + base[1:], [base[0][:8] + (0.75,) + base[0][9:]] + base[1:]]
    objs = [(i, ibf, build(v, ibf)) for i, v in enumerate(var) for ibf in (True, False)]
    for i, x, a in objs:
        for j, y, b in objs:
            ck.check(bool(a == b) == (i == j and x == y) and bool(a != b) == (not (i == j and x == y)), 'equality of tables %d and %d' % (i, j))
    # statistics
    for rows in STARTS:
        s = build(rows)
        info, hist, n = s.compute_stats()
        du = sorted(r[4] for r in rows)
        k = len(du)
        ck.close([info['mean'], info['min'], info['max'], info['median']], [sum(du) / k, du[0], du[-1], (du[k // 2] + du[(k - 1) // 2]) / 2], 'duration statistics')
        ck.eq(int(hist[0].sum()), k, 'durations in the histogram')
        ck.eq(n, len(set(r[7] for r in rows)), 'number of speakers')
        h = s.compute_stats(nbins_dur=3)[1]
        ck.eq(len(h[0]), 3, 'bins')
        ck.step(2)
    ck.trace()
