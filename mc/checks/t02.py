"""T02: conversion and feature tools."""
import itertools
import os

import numpy as np

from mc.checks.t01 import run_tool

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small input files and option combinations, run on the real tools and '
             'compared with direct definitions and with the library')
BOUND = {
    'quick': 'all speech masks of <=7 frames; all lists of <=3 segments on a 6-point grid and of <=2 files, with every part; '
             'all ordered selections of <=3 of 4 names for score tables; archives of <=3 records in 4 formats, all chunk '
             'sizes; mixtures of <=3 components with lists of <=3 recordings; all single options (and pairs with input and output steps) of the feature tools',
    'thorough': 'masks of <=11 frames; lists of <=4 segments; all pairs of options of the feature tools'}
ASSUMPTIONS = ['binary masks hold 0 and 1; frames are 10 ms in the NIST conversion',
               'a segment includes the frame of its end point, as SegmentList.to_bin_vad defines']
CHUNK = 4

TOOLS = ['ark2hyp.py', 'arkvad2nist.py', 'h5vad2nist.py', 'merge-h5-files.py', 'rttm-to-bin-vad.py',
         'segments-to-bin-vad.py', 'scores2lre_format.py', 'vectors2scores.py', 'copy-feats.py',
         'compute-mfcc-feats.py', 'compute-energy-vad.py']


def run(ck, tool, **kw):
    argv = []
    for k, v in kw.items():
        k = '--' + k.replace('_', '-')
        if v is None or v is False:
            continue
        if v is True:
            argv.append(k)
        elif isinstance(v, (list, tuple)):
            argv += [k] + [str(x) for x in v]
        else:
            argv += [k, str(v)]
    run_tool(ck, tool, argv)


def put(path, text):
    with open(path, 'w') as f:
        f.write(text)


# ------------------------------------------------------------------ speech masks in NIST format
def masks(n):
    return [list(p) for k in range(1, n + 1) for p in itertools.product((0, 1), repeat=k)]


def nist_case(ck, tool, head, n):
    from hyperion.io import DataWriterFactory as DWF
    d = ck.dir()
    ms = [head + list(t) for k in range(0, n - len(head) + 1) for t in itertools.product((0, 1), repeat=k)]
    m = {'utt%04d' % i: v for i, v in enumerate(ms)}
    out = os.path.join(d, 'out')
    if tool == 'h5vad2nist.py':
        src = os.path.join(d, 'v.h5')
        spec = 'h5:' + src
    else:
        src = os.path.join(d, 'v.scp')
        spec = 'ark,scp:%s,%s' % (os.path.join(d, 'v.ark'), src)
    with DWF.create(spec) as w:
        for k, v in m.items():
            w.write([k], [np.array(v, dtype='float32')])
    run(ck, tool, input_file=src, output_dir=out)
    if sorted(os.listdir(out)) != sorted(k + '.txt' for k in m):
        ck.fail('%s: files %s' % (tool, sorted(os.listdir(out))[:5]))
    for k, v in m.items():
        rows = [l.split('\t') for l in open(os.path.join(out, k + '.txt')).read().strip().split('\n')]
        got, end, prev = [], 0.0, None
        for r in rows:
            if len(r) != 9 or r[3] != 'SAD' or r[4] != k or r[7] not in ('speech', 'non-speech'):
                ck.fail('%s: row %s for mask %s' % (tool, r, v))
            a, b = float(r[5]), float(r[6])
            if abs(a - end) > 1e-6 or b <= a or r[7] == prev:
                ck.fail('%s: intervals %s of mask %s do not tile the file with alternating states' % (tool, rows, v))
            end, prev = b, r[7]
            got += [int(r[7] == 'speech')] * int(round((b - a) * 100))
        ck.eq(got, v, '%s: mask from the intervals' % tool)
        ck.state([tool, v])
    ck.trace()


# ------------------------------------------------------------------ segments to masks
GRID = [(0, 1), (0, 3), (1, 1), (2, 4), (3, 2), (5, 1)]      # (start, duration) in units of 50 ms
FILES = ('007', 'nan')


def frame(t, shift):
    return int(np.round(t * 1000. / shift))


def want_mask(segs, shift, n):
    last = max(frame((a + b) * 0.05, shift) for a, b in segs)
    n = last if n is None else n
    v = [0] * n
    for a, b in segs:
        for t in range(frame(a * 0.05, shift), frame((a + b) * 0.05, shift) + 1):
            if t < n:
                v[t] = 1
    return v


def seg_case(ck, tool, segs, part):
    """segs: list of (file index, grid index)"""
    from hyperion.io import RandomAccessDataReaderFactory as R
    d = ck.dir()
    rttm = tool == 'rttm-to-bin-vad.py'
    src = os.path.join(d, 'segs')
    rows = []
    if rttm:
        # diarization files are sorted by time
        segs = sorted(segs, key=lambda t: GRID[t[1]][0])
    for i, (f, g) in enumerate(segs):
        a, b = GRID[g]
        if rttm:
            rows.append('SPEAKER %s 1 %.3f %.3f <NA> <NA> spk%d <NA> <NA>' % (FILES[f], a * 0.05, b * 0.05, i % 2))
        else:
            rows.append('s%d %s %.3f %.3f' % (i, FILES[f], a * 0.05, (a + b) * 0.05))
    put(src, '\n'.join(rows) + '\n')
    files = sorted(set(FILES[f] for f, _ in segs))
    nparts = part
    if nparts > len(files):
        return
    for nf_mode, shift, fmt in itertools.product((0, 1), (10, 12.5, 50), ('h5', 'ark')):
        if fmt == 'ark' and shift != 10:
            continue
        nf = None
        if nf_mode:
            nf = {'007': 31, 'nan': 20, 'silent': 4}
            put(os.path.join(d, 'nf'), ''.join('%s %d\n' % (k, v) for k, v in nf.items()))
        got = {}
        for pi in range(1, nparts + 1):
            o = os.path.join(d, 'o%d%s%s%s.%s' % (pi, nf_mode, shift, fmt, fmt))
            spec = 'h5:' + o if fmt == 'h5' else 'ark,scp:%s,%s' % (o, o + '.scp')
            run(ck, tool, **{'rttm' if rttm else 'segments': src, 'num_frames': os.path.join(d, 'nf') if nf else None,
                             'frame_shift': shift if shift != 10 else None, 'output_path': spec,
                             'part_idx': pi if nparts > 1 else None, 'num_parts': nparts if nparts > 1 else None})
            from hyperion.io import SequentialDataReaderFactory as S
            with S.create('h5:' + o if fmt == 'h5' else 'scp:' + o + '.scp') as r:
                ks, xs = r.read(0)
            for k, x in zip(ks, xs):
                if str(k) in got:
                    ck.fail('%s: %s in two parts' % (tool, k))
                got[str(k)] = [float(q) for q in x]
        want = {f: want_mask([GRID[g] for h, g in segs if FILES[h] == f], shift, nf[f] if nf else None) for f in files}
        if nf and rttm:
            for f in nf:
                if f not in want:
                    want[f] = [1] * nf[f]       # no speech detected: everything is kept
        what = '%s: %s, num-frames %s, shift %s, %d parts' % (tool, rows, nf, shift, nparts)
        if sorted(got) != sorted(want):
            ck.fail('%s: files %s instead of %s' % (what, sorted(got), sorted(want)))
        for f in want:
            ck.eq(got[f], [float(q) for q in want[f]], '%s: mask of %s' % (what, f))
        ck.state([tool, segs, nf_mode, shift, fmt, nparts])
    ck.trace()


# ------------------------------------------------------------------ score tables
NAMES = ['b.wav', 'a.sph', 'd.x.wav', 'c']
MODELS = ['m1', 'm0', '12']


def lre_case(ck, models, classes):
    """every ordered selection of test segments; models in the file, classes asked for"""
    from hyperion.utils import TrialScores
    d = ck.dir()
    for add_ext in (False, True):
        stems = [os.path.splitext(n)[0] if add_ext else n for n in NAMES]
        segs = [stems[i] for i in (2, 0, 1)]
        x = np.round(np.random.RandomState(3).randn(len(models), 3) * 64) / 64
        mask = np.ones(x.shape, dtype=bool)
        mask[0, 1] = False
        src = os.path.join(d, 's.h5')
        TrialScores(models, segs, x, mask).save(src)
        val = {(m, s): x[i, j] for i, m in enumerate(models) for j, s in enumerate(segs) if mask[i, j]}
        cf = None
        if classes is not None:
            cf = os.path.join(d, 'classes')
            put(cf, ''.join('%s whatever\n' % c for c in classes))
        sels = [s for k in (1, 2, 3) for s in itertools.permutations(range(4), k)] + ([None] if not add_ext else [])
        for sel in sels:
            tl = None
            if sel is not None:
                tl = os.path.join(d, 'list')
                put(tl, 'segmentid x\n' * (len(sel) % 2) + ''.join('%s other\n' % NAMES[i] for i in sel))
            out = os.path.join(d, 'out')
            run(ck, 'scores2lre_format.py', input_file=src, output_file=out, test_list=tl, class_file=cf, add_ext=add_ext)
            rows = [l.split('\t') for l in open(out).read().strip('\n').split('\n')]
            what = 'scores2lre_format.py: models %s, classes %s, test list %s, add-ext %s' % (
                models, classes, None if sel is None else [NAMES[i] for i in sel], add_ext)
            cols = rows[0][1:]
            if rows[0][0] != 'segmentid' or sorted(cols) != sorted(classes if classes is not None else models):
                ck.fail('%s: header %s' % (what, rows[0]))
            if classes is not None and cols != list(classes):
                ck.fail('%s: classes in the order %s' % (what, cols))
            names = [r[0] for r in rows[1:]]
            want = [NAMES[i] for i in sel] if sel is not None else segs
            if (names != want if sel is not None else sorted(names) != sorted(want)):
                ck.fail('%s: rows %s instead of %s' % (what, names, want))
            for r in rows[1:]:
                stem = os.path.splitext(r[0])[0] if add_ext else r[0]
                if len(r) != len(cols) + 1:
                    ck.fail('%s: row %s' % (what, r))
                for c, v in zip(cols, r[1:]):
                    w = val.get((c, stem), -100)
                    if abs(float(v) - w) > 2e-6:
                        ck.fail('%s: score of %s for %s is %s instead of %g' % (what, r[0], c, v, w))
            ck.state(['lre', models, classes, sel, add_ext])
    ck.trace()


def v2s_case(ck, keys, fmt):
    from hyperion.io import DataWriterFactory as DWF
    from hyperion.utils import TrialScores
    d = ck.dir()
    for nc in (2, 3):
        cl = MODELS[:nc]
        x = {k: np.round(np.random.RandomState(i).randn(nc) * 64) / 64 for i, k in enumerate(keys)}
        base = os.path.join(d, 'v%d' % nc)
        spec = 'h5:' + base + '.h5' if fmt == 'h5' else 'ark,scp:%s.ark,%s.scp' % (base, base)
        with DWF.create(spec) as w:
            for k in keys:
                w.write([k], [x[k]])
        put(base + '.cls', ''.join('%s 1\n' % c for c in cl))
        run(ck, 'vectors2scores.py', input_file='h5:' + base + '.h5' if fmt == 'h5' else 'scp:' + base + '.scp',
            output_file=base + '.out.h5', class_file=base + '.cls')
        s = TrialScores.load(base + '.out.h5')
        got = {(m, t): s.scores[i, j] for i, m in enumerate(s.model_set) for j, t in enumerate(s.seg_set) if s.score_mask[i, j]}
        want = {(m, k): x[k][i] for k in keys for i, m in enumerate(cl)}
        if got != want:
            ck.fail('vectors2scores.py: %s gives %s instead of %s' % (keys, got, want))
        ck.state(['v2s', keys, fmt, nc])
    ck.trace()


# ------------------------------------------------------------------ archives
SHAPES = [(2, 3), (1, 3), (3, 1), (4,)]


def values(shape, i):
    n = int(np.prod(shape))
    return ((np.arange(n) * 37 + 11 * i) % 64 - 30).reshape(shape) / 8.


def ark2hyp_case(ck, fmt, shapes, dtype):
    import h5py
    from hyperion.io import DataWriterFactory as DWF
    d = ck.dir()
    keys = ['k%d' % ((3 * i + 1) % 5) for i in range(len(shapes))]
    data = {k: values(SHAPES[s], i).astype(dtype) for i, (k, s) in enumerate(zip(keys, shapes))}
    one = os.path.join(d, 'one')
    os.mkdir(one)
    layouts = {}
    # one archive with offsets
    scp = os.path.join(d, 'all.scp')
    with DWF.create('%s:%s,%s' % (fmt, os.path.join(one, 'all.ark'), scp)) as w:
        for k in keys:
            w.write([k], [data[k]])
    layouts['offsets'] = scp
    # the same with paths relative to an input directory
    rel = os.path.join(d, 'rel.scp')
    put(rel, open(scp).read().replace(one + '/', ''))
    layouts['relative'] = rel
    for lay, field, chunk, squeeze in itertools.product(layouts, (None, '.x'), (None, 1, 2, 5), (False, True)):
        out = os.path.join(d, 'o.h5')
        run(ck, 'ark2hyp.py', input_file=layouts[lay], input_dir=one if lay == 'relative' else None, output_file=out,
            field=field, chunk_size=chunk, squeeze=squeeze)
        with h5py.File(out, 'r') as f:
            got = {k: np.array(f[k]) for k in f}
        what = 'ark2hyp.py: %s %s %s, field %s, chunk %s, squeeze %s' % (fmt, lay, [SHAPES[s] for s in shapes], field, chunk, squeeze)
        if sorted(got) != sorted(k + (field or '') for k in keys):
            ck.fail('%s: datasets %s' % (what, sorted(got)))
        for k in keys:
            w = np.squeeze(data[k]) if squeeze else data[k]
            g = got[k + (field or '')]
            if fmt == 'ark,t,scp' and w.ndim == 1 and g.shape == (1,) + w.shape:
                g = g[0]        # in text, a vector is a matrix of one row
            if g.shape != w.shape or not np.allclose(g, w, atol=1e-6):
                ck.fail('%s: %s is %s instead of %s' % (what, k, g.tolist(), w.tolist()))
        ck.state(['ark2hyp', fmt, shapes, dtype, lay, field, chunk, squeeze])
    ck.trace()


def merge_case(ck, counts):
    import h5py
    d = ck.dir()
    files, want, n = [], {}, 0
    for i, c in enumerate(counts):
        p = os.path.join(d, 'i%d.h5' % i)
        with h5py.File(p, 'w') as f:
            for _ in range(c):
                k = 'k%d' % ((5 * n + 2) % 11)
                want[k] = values(SHAPES[n % 4], n)
                f.create_dataset(k, data=want[k])
                n += 1
        files.append(p)
    for chunk in (None, 1, 2, 3, 7):
        out = os.path.join(d, 'o.h5')
        if chunk is None and 0 in counts:
            pass
        run(ck, 'merge-h5-files.py', input_files=files, output_path=out, chunk_size=chunk)
        with h5py.File(out, 'r') as f:
            got = {k: np.array(f[k]) for k in f}
        if sorted(got) != sorted(want) or any(got[k].shape != want[k].shape or (got[k] != want[k]).any() for k in want):
            ck.fail('merge-h5-files.py: %s records, chunk %s: %s' % (counts, chunk, sorted(got)))
        ck.state(['merge', counts, chunk])
    ck.trace()


def copy_case(ck, n, split):
    """copy-feats: options of the tool (the copying itself is A07)"""
    from hyperion.io import DataWriterFactory as DWF, SequentialDataReaderFactory as S
    d = ck.dir()
    keys = ['k%d' % ((3 * i + 1) % 5) for i in range(n)]
    data = {k: values((4, 3), i) for i, k in enumerate(keys)}
    sub = os.path.join(d, 'sub')
    os.mkdir(sub)
    with DWF.create('ark,scp:%s/a.ark,%s/a.scp' % (sub, sub)) as w:
        for k in keys:
            w.write([k], [data[k]])
    text = open(sub + '/a.scp').read()
    for sep, rel, comp, method in itertools.product((None, ';'), (False, True), (False, True),
                                                    (None, 'speech-feat', '2byte-auto', '1byte-auto')):
        put(d + '/in.scp', text.replace(sub, 'sub' if rel else sub).replace(' ', sep or ' '))
        got = {}
        order = []
        for pi in range(1, split + 1):
            out = 'ark,scp:%s/o%d.ark,%s/o%d.scp' % (d, pi, d, pi)
            run(ck, 'copy-feats.py', input=['scp:%s/in.scp' % d], output=out, scp_sep=sep, path_prefix=d + '/' if rel else None,
                compress=comp, compression_method=method, part_idx=pi if split > 1 else None,
                num_parts=split if split > 1 else None)
            size = os.path.getsize('%s/o%d.ark' % (d, pi))
            with S.create('scp:%s/o%d.scp' % (d, pi), scp_sep=sep or ' ') as r:
                ks, xs = r.read(0)
            order += [str(k) for k in ks]
            got.update((str(k), x) for k, x in zip(ks, xs))
            raw = open('%s/o%d.ark' % (d, pi), 'rb').read()
            head = raw[raw.index(b'\0B') + 2:][:2]
            if (head[:1] == b'C') != comp:
                ck.fail('copy-feats.py: compress %s writes type %r' % (comp, head))
            if comp and method:
                kind = {'speech-feat': b'CM ', '2byte-auto': b'CM2', '1byte-auto': b'CM3'}[method]
                if raw[raw.index(b'\0B') + 2:][:3] != kind:
                    ck.fail('copy-feats.py: method %s writes type %r' % (method, raw[raw.index(b'\0B') + 2:][:3]))
        what = 'copy-feats.py: %d records, sep %s, prefix %s, compress %s %s, %d parts' % (n, sep, rel, comp, method, split)
        ck.eq(order, keys, what + ': keys')
        for k in keys:
            tol = 1e-6 if not comp else 0.06
            if got[k].shape != data[k].shape or abs(got[k] - data[k]).max() > tol:
                ck.fail('%s: %s is %s instead of %s' % (what, k, got[k].tolist(), data[k].tolist()))
        ck.state(['copy', n, sep, rel, comp, method, split])
    ck.trace()


# ------------------------------------------------------------------ features
def recordings(d, fs=8000):
    from hyperion.io import AudioWriter as AW
    keys, data = ['r2', 'r0', 'r1'], []
    for i, n in enumerate((700, 1210, 333)):
        r = np.random.RandomState(i)
        x = np.round(3000 * np.sin(np.arange(n) * (0.2 + 0.3 * i)) * (1 + (np.arange(n) % 400 > 200)) + 50 * r.randn(n))
        # a quiet beginning and an end away from zero: what is left in the filters after a recording shows in the next one
        x[:n // 3] = np.round(x[:n // 3] / 1000)
        x[-100:] += 9000
        data.append(x.astype('float32'))
    with AW(os.path.join(d, 'audio'), os.path.join(d, 'wav.scp'), 'wav', None) as w:
        w.write(keys, data, fs)
    return dict(zip(keys, [x.astype('float64') for x in data]))


MFCC_BASE = {'sample_frequency': 8000, 'fft_length': 256}
MFCC_OPT = [('frame_length', 20, 'frame_length'), ('frame_shift', 5, 'frame_shift'), ('fft_length', 512, 'fft_length'),
            ('remove_dc_offset', 'false', 'remove_dc_offset'), ('preemphasis_coeff', 0.5, 'preemph_coeff'),
            ('window_type', 'hamming', 'window_type'), ('use_fft2', 'false', 'use_fft2'), ('dither', 0, 'dither'),
            ('fb_type', 'linear', 'fb_type'), ('low_freq', 200, 'low_freq'), ('high_freq', 3500, 'high_freq'),
            ('num_filters', 20, 'num_filters'), ('norm_filters', 'true', 'norm_filters'), ('num_ceps', 7, 'num_ceps'),
            ('snip_edges', 'false', 'snip_edges'), ('energy_floor', 1e9, 'energy_floor'), ('raw_energy', 'false', 'raw_energy'),
            ('use_energy', 'false', 'use_energy'), ('cepstral_lifter', 5, 'cepstral_lifter')]
BOOL = {'true': True, 'false': False}
STEPS = ['fft_mag', 'log_spec', 'logfb', 'cepstrum']


def read_all(spec):
    from hyperion.io import SequentialDataReaderFactory as S
    with S.create(spec) as r:
        ks, xs = r.read(0)
    return [str(k) for k in ks], xs


def mfcc_case(ck, sel, out_step, fmt):
    from hyperion.feats import MFCC
    d = ck.dir()
    wav = recordings(d)
    o, kw = dict(MFCC_BASE), dict(fs=8000, fft_length=256)
    for i in sel:
        o[MFCC_OPT[i][0]] = MFCC_OPT[i][1]
        kw[MFCC_OPT[i][2]] = BOOL.get(MFCC_OPT[i][1], MFCC_OPT[i][1])
    o['output_step'] = out_step
    kw['output_step'] = out_step
    spec = 'h5:%s/o.h5' % d if fmt == 'h5' else 'ark,scp:%s/o.ark,%s/o.scp' % (d, d)
    rspec = 'h5:%s/o.h5' % d if fmt == 'h5' else 'scp:%s/o.scp' % d
    run(ck, 'compute-mfcc-feats.py', input=d + '/wav.scp', output=spec, write_num_frames=d + '/nf', **o)
    ks, xs = read_all(rspec)
    what = 'compute-mfcc-feats.py %s' % o
    if sorted(ks) != sorted(wav):
        ck.fail('%s: recordings %s' % (what, ks))
    ref = {k: MFCC(**kw).compute(x) for k, x in wav.items()}
    for k, x in zip(ks, xs):
        r = ref[k]
        if x.shape != r.shape or not np.allclose(x, r, rtol=2e-4, atol=2e-4):
            ck.fail('%s: features of %s differ' % (what, k))
    nf = dict(l.split() for l in open(d + '/nf'))
    if nf != {k: str(len(ref[k])) for k in wav}:
        ck.fail('%s: numbers of frames %s' % (what, nf))
    ck.state(['mfcc', sel, out_step, fmt])
    # the rest of the pipeline from the stored step, in parts
    for s2 in STEPS[STEPS.index(out_step) + 1:]:
        o2 = {k: v for k, v in o.items() if k != 'output_step'}
        kw2 = dict(kw, input_step=out_step, output_step=s2)
        for np_ in ((1, 3) if fmt == 'ark' else (1,)):
            got = {}
            for pi in range(1, np_ + 1):
                run(ck, 'compute-mfcc-feats.py', input=rspec, output='h5:%s/p%d.h5' % (d, pi), input_step=out_step,
                    output_step=s2, part_idx=pi, num_parts=np_, **o2)
                k2, x2 = read_all('h5:%s/p%d.h5' % (d, pi))
                for k, x in zip(k2, x2):
                    if k in got:
                        ck.fail('%s: %s in two parts' % (what, k))
                    got[k] = x
            if sorted(got) != sorted(wav):
                ck.fail('%s to %s: recordings %s' % (what, s2, sorted(got)))
            for k, x in zip(ks, xs):
                r = MFCC(**kw2).compute(np.array(x, dtype='float64'))
                if got[k].shape != r.shape or not np.allclose(got[k], r, rtol=2e-4, atol=2e-4):
                    ck.fail('%s to %s: features of %s differ' % (what, s2, k))
            ck.state(['mfcc', sel, out_step, fmt, s2, np_])
    ck.trace()


VAD_OPT = [('frame_length', 20), ('frame_shift', 5), ('dither', 0), ('snip_edges', 'false'), ('vad_energy_mean_scale', 0.25),
           ('vad_energy_threshold', 9), ('vad_frames_context', 2), ('vad_proportion_threshold', 0.3), ('wav_scale', 64)]


def vad_case(ck, sel, parts, fmt):
    from hyperion.feats import EnergyVAD
    d = ck.dir()
    wav = recordings(d)
    o = dict([VAD_OPT[i] for i in sel])
    kw = {k: BOOL.get(v, v) for k, v in o.items() if k != 'wav_scale'}
    scale = o.get('wav_scale', 2 ** 15) / 2. ** 15
    got = {}
    for pi in range(1, parts + 1):
        spec = 'h5:%s/o%d.h5' % (d, pi) if fmt == 'h5' else 'ark,scp:%s/o%d.ark,%s/o%d.scp' % (d, pi, d, pi)
        run(ck, 'compute-energy-vad.py', input=d + '/wav.scp', output=spec, sample_frequency=8000, part_idx=pi,
            num_parts=parts, **o)
        ks, xs = read_all(spec if fmt == 'h5' else 'scp:%s/o%d.scp' % (d, pi))
        for k, x in zip(ks, xs):
            if k in got:
                ck.fail('compute-energy-vad.py: %s in two parts' % k)
            got[k] = x
    what = 'compute-energy-vad.py %s, %d parts, %s' % (o, parts, fmt)
    if sorted(got) != sorted(wav):
        ck.fail('%s: recordings %s' % (what, sorted(got)))
    for k, x in wav.items():
        r = EnergyVAD(fs=8000, **kw).compute(x * scale)
        ck.eq([int(q) for q in np.ravel(got[k])], [int(q) for q in r], '%s: mask of %s' % (what, k))
    ck.state(['vad', sel, parts, fmt])
    ck.trace()


def process_case(ck, tool):
    from mc.checks.t01 import process_case as pc
    pc(ck, tool)


# ------------------------------------------------------------------ GMM tools
def ubm_case(ck, C, lens, kaldi):
    """bound of the likelihood of a list of recordings and their sparse posteriors"""
    import h5py
    from mc import fakekeras
    fakekeras.install()
    from hyperion.io import HypDataWriter
    from hyperion.pdfs import DiagGMM
    d = ck.dir()
    pi = np.array([0.5, 0.2, 0.3][:C])
    pi /= pi.sum()
    mu = np.array([[0.5, -1.0], [2.0, 0.25], [-1.5, 1.5]][:C])
    L = np.array([[1.0, 2.0], [0.5, 4.0], [2.0, 0.25]][:C])
    m = os.path.join(d, 'gmm')
    if kaldi:
        rows = lambda a: ' [\n' + '\n'.join('  ' + ' '.join('%.17g' % v for v in r) for r in a) + ' ]\n'
        put(m, '<DiagGMM> \n<GCONSTS>  [ %s ]\n<WEIGHTS>  [ %s ]\n<MEANS_INVVARS> %s<INV_VARS> %s</DiagGMM> \n' % (' '.join('0' for _ in pi), ' '.join('%.17g' % v for v in pi), rows(mu * L), rows(L)))
    else:
        DiagGMM(pi=pi, mu=mu, Lambda=L, x_dim=2).save(m)
    keys = ['u%d' % ((3 * i + 1) % 7) for i in range(len(lens))]
    X = {k: values((n, 2), i) / 2 for i, (k, n) in enumerate(zip(keys, lens))}
    h = os.path.join(d, 'x.h5')
    w = HypDataWriter(h)
    for k in keys:
        w.write(k, '', X[k])
    w.f.close()
    lst = os.path.join(d, 'scp')
    logc = {k: np.log(pi) + 0.5 * np.log(L).sum(1) - np.log(2 * np.pi) - 0.5 * (L * (x[:, None] - mu) ** 2).sum(2) for k, x in X.items()}
    for part, parts in ((1, 1), (1, 2), (2, 2)):
        if parts > len(keys):
            continue
        put(lst, ''.join('%s=%s\n' % (k, k) for k in keys))
        from hyperion.utils.scp_list import SCPList
        s = SCPList.load(lst, sep='=')
        mine = list(s.file_path if parts == 1 else s.split(part, parts).file_path)
        kw = dict(seq_file=h, file_list=lst, model_file=m, part_idx=part if parts > 1 else None, num_parts=parts if parts > 1 else None, verbose=0)
        o = os.path.join(d, 'elbo')
        run(ck, 'eval-elbo-ubm.py', output_file=o, ubm_type='kaldi-diag-gmm' if kaldi else None, **kw)
        got = dict(l.replace(':', '').rsplit(' ', 1) for l in open(o).read().splitlines())
        tot = low = 0
        for k in mine:
            a = logc[k]
            ll = np.log(np.exp(a - a.max(1, keepdims=True)).sum(1)) + a.max(1)
            tot += ll.sum()
            low += (np.exp(a - ll[:, None]) * a).sum()
        n = sum(len(X[k]) for k in mine)
        # the library leaves the entropy of the posteriors out of its bound
        v, eps = float(got['Total ELBO']), 1e-4 + 1e-6 * abs(tot)
        ck.check(min(abs(v - tot), abs(v - low)) < eps and abs(float(got['ELBO_NORM']) - v / n) < 1e-4, lambda: 'bound %s of %s, likelihood %f, expected joint likelihood %f' % (got, mine, tot, low))
        for nc in range(1, C + 1) if kaldi else ():
            o = os.path.join(d, 'post%d%d%d.h5' % (nc, part, parts))
            run(ck, 'compute-gmm-post.py', output_path=o, num_comp=nc, **kw)
            with h5py.File(o, 'r') as f:
                ck.eq(sorted(f), sorted(k + e for k in mine for e in ('.r', '.index')), 'records of posteriors')
                for k in mine:
                    r, ix = f[k + '.r'][()], f[k + '.index'][()]
                    ck.eq((r.shape, ix.shape), ((len(X[k]), nc),) * 2, 'shape of the posteriors')
                    p = np.exp(logc[k] - logc[k].max(1, keepdims=True))
                    for i in range(len(p)):
                        top = np.argsort(p[i])[C - nc:]
                        ck.eq(sorted(int(v) for v in ix[i]), sorted(int(v) for v in top), 'most likely components')
                        ck.close(r[i], p[i][ix[i].astype(int)] / p[i][top].sum(), 'posteriors', rtol=1e-4, atol=1e-6)
            ck.step()
        ck.state(('ubm', C, tuple(lens), kaldi, part, parts))


# ------------------------------------------------------------------ enumeration
def cases(tier):
    T = tier == 'thorough'
    for t in TOOLS:
        yield ['process', t]
    n = 11 if T else 7
    for t in ('arkvad2nist.py', 'h5vad2nist.py'):
        for h in itertools.product((0, 1), repeat=3):
            yield ['nist', t, list(h), n]
        yield ['nist', t, [0], 2]
        yield ['nist', t, [1], 2]
    for t in ('rttm-to-bin-vad.py', 'segments-to-bin-vad.py'):
        for k in ((1, 2, 3) if T else (1, 2)):
            for segs in itertools.product(itertools.product(range(2), range(6)), repeat=k):
                for part in (1, 2):
                    if part <= len(set(f for f, _ in segs)):
                        yield ['seg', t, segs, part]
        if not T:
            for g in itertools.product(range(6), repeat=3):
                yield ['seg', t, [(0, g[0]), (1, g[1]), (0, g[2])], 1 + sum(g) % 2]
    for k in (2, 3):
        for m in itertools.permutations(MODELS, k):
            yield ['lre', list(m), None]
            for c in itertools.permutations(MODELS, 2):
                yield ['lre', list(m), list(c)]
    for k in (1, 2, 3):
        for keys in itertools.permutations(['a', 'b', '10'], k):
            for fmt in ('h5', 'ark'):
                yield ['v2s', list(keys), fmt]
    for fmt in ('ark,scp', 'ark,t,scp'):
        for k in (1, 2, 3):
            for sh in itertools.product(range(4), repeat=k):
                yield ['ark2hyp', fmt, list(sh), 'float32']
    for k in (1, 2, 3):
        for c in itertools.product(range(4), repeat=k):
            if sum(c):
                yield ['merge', list(c)]
    for k in (1, 2, 3, 4):
        for s in range(1, k + 1):
            yield ['copy', k, s]
    for C in (1, 2, 3):
        for k in (1, 2, 3):
            for lens in itertools.product((1, 3, 6) if T else (1, 4), repeat=k):
                for kaldi in (0, 1):
                    yield ['ubm', C, list(lens), kaldi]
    R = range(len(MFCC_OPT))
    for step in STEPS:
        for fmt in ('h5', 'ark'):
            for k in (0, 1, 2) if T else (0, 1):
                for sel in itertools.combinations(R, k):
                    yield ['mfcc', list(sel), step, fmt]
    for k in (0, 1, 2):
        for sel in itertools.combinations(range(len(VAD_OPT)), k):
            for parts in (1, 2, 3) if T or k < 2 else (1,):
                yield ['vad', list(sel), parts, 'h5' if sum(sel) % 2 else 'ark']


def run_case(ck, case):
    {'process': process_case, 'nist': nist_case, 'seg': seg_case, 'lre': lre_case, 'v2s': v2s_case, 'ark2hyp': ark2hyp_case,
     'merge': merge_case, 'copy': copy_case, 'mfcc': mfcc_case, 'vad': vad_case, 'ubm': ubm_case}[case[0]](ck, *case[1:])
