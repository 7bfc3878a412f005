"""D01: data directory tools."""
import itertools
from mc.datadir import Box

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small data directories, options and shuffle orders on the real shell tools (Kaldi helpers replaced by stand-ins), against a set model'
BOUND = {
    'quick': 'fixing: every file of a data directory with every subset of 3 utterances of 2 speakers, alone and in pairs of single losses, with and without segments, in sorted and reversed order, run twice; '
             'combining: every placement of each file in 1-3 directories; subsets: all groupings of up to 4 utterances into speakers x every number x 7 modes x every shuffle order and every list; '
             'short utterances, small speakers, missing voice activity and trial filters: all assignments to 3-4 utterances',
    'thorough': 'subsets of up to 6 utterances, triples of losses'}
ASSUMPTIONS = ['speaker names are prefixes of utterance names, one line for each name', 'the helpers of Kaldi (filter_scp.pl, utt2spk_to_spk2utt.pl, spk2utt_to_utt2spk.pl, subset_scp.pl, shuffle_list.pl, parse_options.sh, get_segments_for_data.sh, run.pl, feat-to-len) behave as documented', 'utterances that lie in a segments file name their recording there']
CHUNK = 1

UTT = ('utt2spk', 'utt2uniq', 'feats.scp', 'vad.scp', 'text', 'segments', 'utt2lang', 'utt2dur', 'utt2num_frames')
NEED = ('feats.scp', 'text', 'segments', 'utt2lang')     # an utterance has to be in these, where they exist
SPK = ('cmvn.scp', 'spk2gender')
U3 = ['a-1', 'a-2', 'b-1']
MODES = ('--per-spk', '--speakers', '--first', '--last', '', '--shortest', '--spk-list', '--utt-list')


def cases(tier):
    q = tier == 'quick'
    files = ['utt2spk', 'utt2uniq', 'feats.scp', 'vad.scp', 'text', 'utt2lang', 'utt2dur', 'utt2num_frames', 'wav.scp', 'segments', 'cmvn.scp', 'spk2gender', 'reco2file_and_channel', 'reco2dur']
    for seg in (0, 1):
        for f in files:
            yield dict(kind='fix1', seg=seg, f=f)
        for i, f in enumerate(files):
            yield dict(kind='fix2', seg=seg, f=f, others=files[i + 1:])
            if not q:
                for j, g in enumerate(files[i + 1:]):
                    yield dict(kind='fix3', seg=seg, f=f, g=g, others=files[i + 2 + j:])
    yield dict(kind='fixbad')
    for k in (1, 2, 3):
        for fi in range(len(COMB)):
            yield dict(kind='combine', k=k, f=COMB[fi])
    yield dict(kind='combine2')
    N = 4 if q else 6
    for n in range(1, N + 1):
        for sizes in groupings(n):
            for m in MODES:
                yield dict(kind='subset', sizes=sizes, mode=m)
    for seg in (0, 1):
        yield dict(kind='subfiles', seg=seg)
    yield dict(kind='short')
    for n in range(1, N + 1):
        yield dict(kind='few', n=n)
    for seg in (0, 1):
        yield dict(kind='vad', seg=seg)
    yield dict(kind='trials')
    for nj in (1, 2, 3):
        yield dict(kind='jobs', nj=nj)


COMB = ('utt2spk', 'utt2uniq', 'segments', 'utt2lang', 'utt2dur', 'reco2dur', 'feats.scp', 'text', 'cmvn.scp', 'vad.scp', 'reco2file_and_channel', 'wav.scp', 'spk2gender', 'extra')


def groupings(n):
    """numbers of utterances of speakers, in order"""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for r in groupings(n - k):
            yield [k] + r


def run_case(ck, c):
    with Box() as b:
        globals()[c['kind']](ck, b, c)
    ck.trace()


# ---- the model ----

def spk(u):
    return u.split('-')[0]


def rows(f, utts, seg):
    """lines of file f for these utterances"""
    if f == 'utt2spk':
        return ['%s %s' % (u, spk(u)) for u in utts]
    if f == 'segments':
        return ['%s rec_%s 0.5 %d.25' % (u, u, 2 + i) for i, u in enumerate(utts)]
    if f in ('wav.scp', 'reco2file_and_channel', 'reco2dur'):
        return ['%s%s some %s words' % ('rec_' if seg else '', u, f) for u in utts]
    if f in SPK or f == 'spk2utt':
        s = sorted(set(spk(u) for u in utts))
        return ['%s %s' % (x, ' '.join(u for u in utts if spk(u) == x) if f == 'spk2utt' else 'val_' + x) for x in s]
    if f == 'feats.scp':
        return ['%s ark%d:%d' % (u, i, 10 + i) for i, u in enumerate(utts)]
    return ['%s val of %s' % (u, u) for u in utts]


def full(utts, seg, files=None):
    D = {f: rows(f, utts, seg) for f in (files or UTT + SPK + ('wav.scp', 'reco2file_and_channel', 'reco2dur', 'spk2utt'))}
    if not seg:
        D.pop('segments', None)
    return D


def keys(lines):
    return [x.split()[0] for x in lines]


def only(lines, ks):
    return [x for x in lines if x.split()[0] in ks]


def fixed(D):
    """the directory after fixing, or None if nothing can be kept"""
    D = {f: sorted(v) for f, v in D.items()}
    if not D.get('utt2spk'):
        return None
    seg = 'segments' in D
    if seg:
        if 'wav.scp' not in D:
            return None
        have = set(keys(D['wav.scp']))
        D['segments'] = [x for x in D['segments'] if x.split()[1] in have]
    U = set(keys(D['utt2spk']))
    ok = set(x.split()[1] for x in D['utt2spk'])
    for f in SPK:
        if f in D:
            ok &= set(keys(D[f]))
    U = {x.split()[0] for x in D['utt2spk'] if x.split()[1] in ok}
    for f in NEED + (() if seg else ('wav.scp',)):
        if f in D:
            U &= set(keys(D[f]))
    if not U:
        return None
    for f in UTT + (() if seg else ('wav.scp', 'reco2dur')):
        if f in D:
            D[f] = only(D[f], U)
    S = set(x.split()[1] for x in D['utt2spk'])
    for f in SPK:
        if f in D:
            D[f] = only(D[f], S)
    if seg:
        R = set(x.split()[1] for x in D['segments'])
        for f in ('wav.scp', 'reco2file_and_channel', 'reco2dur'):
            if f in D:
                D[f] = only(D[f], R)
    D['spk2utt'] = ['%s %s' % (s, ' '.join(x.split()[0] for x in D['utt2spk'] if x.split()[1] == s)) for s in sorted(S)]
    return D


def expect(ck, b, p, rc, want, what, order=True):
    if want is None:
        ck.check(rc != 0, lambda: '%s: reported success, with %s' % (what, b.read(p)))
        ck.step()
        return
    ck.check(rc == 0, lambda: '%s: failed: %s' % (what, b.log[-400:]))
    got = b.read(p)
    for f in sorted(want):
        g = got.get(f)
        w = want[f]
        if not order and g is not None:
            g, w = sorted(g), sorted(w)
        g = None if g is None else [' '.join(x.split()) for x in g]
        ck.check(g == w, lambda: '%s: %s has %s, should have %s' % (what, f, g, w))
    ck.step()
    ck.state(sorted(got.items()))


# ---- fixing ----

def fix(ck, b, D, what, revs=(False, True), twice=True):
    for rev in revs:
        d = {f: (v[::-1] if rev else v) for f, v in D.items()}
        p = b.new(d)
        rc = b.run('hyp_utils/fix_data_dir.sh', p)
        w = fixed(d)
        expect(ck, b, p, rc, w, what + (', reversed' if rev else ''))
        if w is not None and rev and twice:
            expect(ck, b, p, b.run('hyp_utils/fix_data_dir.sh', p), w, what + ', fixed twice')


def fix1(ck, b, c):
    f, seg = c['f'], c['seg']
    if f == 'segments' and not seg:
        return
    for k in range(4):
        for sub in itertools.combinations(U3, k):
            if seg and f == 'segments' and not sub:
                continue
            D = full(U3, seg)
            D[f] = rows(f, list(sub) + (['c-1'] if k % 2 else []), seg)
            if f == 'utt2spk':
                D['spk2utt'] = rows('spk2utt', [x.split()[0] for x in D['utt2spk']], seg)
            fix(ck, b, D, 'fixing a directory whose %s lists %s' % (f, D[f]), (k % 2 == 1,) if ck.tier == 'quick' else (False, True), ck.tier != 'quick' or (k == 1 and sub == ('a-1',)))
            # only that file beside the necessary ones
            if k == 2:
                E = {g: D[g] for g in ('utt2spk', 'spk2utt', f) + (('segments', 'wav.scp') if seg else ())}
                p = b.new(E)
                expect(ck, b, p, b.run('hyp_utils/fix_data_dir.sh', p), fixed(E), 'fixing a directory with %s of %s alone' % (f, D[f]))
    D = full(U3, seg)
    D.pop(f, None)
    p = b.new(D)
    expect(ck, b, p, b.run('hyp_utils/fix_data_dir.sh', p), fixed(D), 'fixing a directory without ' + f)


def fix2(ck, b, c):
    f, seg = c['f'], c['seg']
    for g in c['others']:
        if 'segments' in (f, g) and not seg:
            continue
        for x, y in ([((0, 2), (0, 1), (2, 2))[(len(f) + len(g)) % 3]] if ck.tier == 'quick' else ((0, 2), (0, 1), (2, 2))):
            D = full(U3, seg)
            D[f] = rows(f, [u for i, u in enumerate(U3) if i != x], seg)
            D[g] = rows(g, [u for i, u in enumerate(U3) if i != y], seg)
            D['spk2utt'] = rows('spk2utt', keys(D['utt2spk']), seg)
            p = b.new(D)
            expect(ck, b, p, b.run('hyp_utils/fix_data_dir.sh', p), fixed(D), 'fixing a directory without %s in %s and %s in %s' % (U3[x], f, U3[y], g))


def fix3(ck, b, c):
    f, g, seg = c['f'], c['g'], c['seg']
    for h in c['others']:
        if 'segments' in (f, g, h) and not seg:
            continue
        for lost in ((0, 1, 2), (2, 0, 0), (1, 1, 2)):
            D = full(U3, seg)
            for z, x in zip((f, g, h), lost):
                D[z] = rows(z, [u for i, u in enumerate(U3) if i != x], seg)
            D['spk2utt'] = rows('spk2utt', keys(D['utt2spk']), seg)
            p = b.new(D)
            expect(ck, b, p, b.run('hyp_utils/fix_data_dir.sh', p), fixed(D), 'fixing a directory with losses %s of %s' % (lost, (f, g, h)))


def fixbad(ck, b, c):
    D = full(U3, 0)
    D.pop('utt2spk')
    for d in (D, {f: v for f, v in full(U3, 1).items() if f != 'wav.scp'}):
        p = b.new(d)
        expect(ck, b, p, b.run('hyp_utils/fix_data_dir.sh', p), None, 'fixing a directory with %s' % sorted(d))
    # several segments of one recording; a recording without segments
    for lost in itertools.product((0, 1), repeat=3):
        D = full(U3, 1)
        D['segments'] = ['a-1 r1 0 1', 'a-2 r1 1 2', 'b-1 r2 0 1']
        D['wav.scp'] = [x for x, l in zip(('r1 p1', 'r2 p2', 'r3 p3'), lost) if not l]
        D['reco2dur'] = ['r1 5', 'r2 6', 'r3 7']
        D['reco2file_and_channel'] = ['r1 f A', 'r2 f B', 'r3 f A']
        p = b.new(D)
        expect(ck, b, p, b.run('hyp_utils/fix_data_dir.sh', p), fixed(D), 'fixing segments of recordings %s' % D['wav.scp'])
    # a line that is there twice
    for f in UTT + SPK:
        D = full(U3, 1)
        w = fixed(D)
        D[f] = D[f] + D[f][:2]
        p = b.new(D)
        expect(ck, b, p, b.run('hyp_utils/fix_data_dir.sh', p), w, 'fixing a directory with lines twice in ' + f)


# ---- combining ----

def combined(ds, extra=()):
    out = {}
    for f in ('utt2spk', 'utt2lang', 'utt2dur', 'reco2dur', 'feats.scp', 'text', 'cmvn.scp', 'vad.scp', 'reco2file_and_channel', 'wav.scp', 'spk2gender') + tuple(extra):
        if all(f in d for d in ds):
            out[f] = [x for d in ds for x in d[f]]
    if any('utt2uniq' in d for d in ds):
        out['utt2uniq'] = [x for d in ds for x in (d['utt2uniq'] if 'utt2uniq' in d else ['%s %s' % (u, u) for u in keys(d['utt2spk'])])]
    if any('segments' in d for d in ds):
        out['segments'] = [x for d in ds for x in (d['segments'] if 'segments' in d else ['%s %s 0 %s' % (k, k, v) for k, v in (y.split(None, 1) for y in d['utt2dur'])])]
    return {f: sorted(set(v)) for f, v in out.items()}


def combine(ck, b, c):
    """file f is in some of k directories"""
    k, f = c['k'], c['f']
    names = [['b-1', 'c-1'], ['a-1', 'a-2'], ['d-3', 'e-1']][:k]
    for there in itertools.product((0, 1), repeat=k):
        seg = [f == 'segments' and t for t in there]
        ds = []
        for t, u, s in zip(there, names, seg):
            D = full(u, s, UTT + SPK + ('wav.scp', 'reco2dur', 'reco2file_and_channel', 'spk2utt', 'extra'))
            D['utt2dur'] = ['%s %d.5' % (x, 3 + i) for i, x in enumerate(u)]
            if not t:
                D.pop(f, None)
            elif f == 'segments':
                D[f] = rows(f, u, 1)
            ds.append(D)
        if f == 'utt2spk' and not all(there):
            p = b.new()
            rc = b.run('hyp_utils/combine_data.sh', p, *[b.new(D) for D in ds])
            ck.check(rc != 0, 'combining directories without utt2spk reported success')
            ck.step()
            continue
        for extra in ((), ('extra',)) if f in ('extra', 'utt2lang') else ((),):
            for skip in (True, False) if k < 3 or ck.tier != 'quick' else (False,):
                src = [b.new(D) for D in ds]
                p = b.new({'stale': ['x'], 'utt2lang': ['zz en'], 'feats.scp': ['zz 1']})
                a = (['--extra-files', ' '.join(extra)] if extra else []) + (['--skip-fix', 'true'] if skip else [])
                rc = b.run('hyp_utils/combine_data.sh', *(a + [p] + src))
                w = combined(ds, extra)
                what = 'combining %s with %s in %s, options %s' % (names, f, there, a)
                full_w = fixed(w) if not skip else dict(w, spk2utt=rows('spk2utt', keys(w['utt2spk']), 0))
                expect(ck, b, p, rc, full_w, what)
                got = set(b.read(p))
                ck.check(full_w is None or got <= set(full_w), lambda: '%s: left or made %s' % (what, sorted(got - set(full_w))))
                for s, D in zip(src, ds):
                    ck.check(b.read(s) == D, what + ': a source changed')


def combine2(ck, b, c):
    """the same utterances in two directories"""
    for n in range(4):
        for sub in itertools.combinations(U3, n):
            for seg in (0, 1):
                ds = [full(['a-2', 'b-2'], seg), full(U3, seg)]
                ds[0] = {f: sorted(set(v) | set(x for x in ds[1].get(f, []) if x.split()[0].replace('rec_', '') in sub)) for f, v in ds[0].items()}
                for D in ds:
                    for f in ('segments', 'feats.scp'):
                        if f in D:
                            D[f] = ['%s rec_%s 0 1' % (u, u) for u in sorted(set(keys(D[f])))]
                    D['spk2utt'] = rows('spk2utt', keys(D['utt2spk']), seg)
                p = b.new()
                rc = b.run('hyp_utils/combine_data.sh', p, *[b.new(D) for D in ds])
                expect(ck, b, p, rc, fixed(combined(ds)), 'combining directories that share %s' % (sub,))


# ---- subsets ----

def subset(ck, b, c):
    sizes, mode = c['sizes'], c['mode']
    n = sum(sizes)
    S = 'abcdef'
    utts = ['%s-%d' % (S[i], j) for i, k in enumerate(sizes) for j in range(1, k + 1)]
    spks = [S[i] for i in range(len(sizes))]
    lens = {u: (i * 7) % 5 + 1 for i, u in enumerate(utts)}
    D = full(utts, 0)
    D['feats.scp'] = ['%s x:%d' % (u, lens[u]) for u in utts]
    src = b.new(D)
    per = {s: [u for u in utts if spk(u) == s] for s in spks}
    if mode in ('--spk-list', '--utt-list'):
        pool = spks if mode == '--spk-list' else utts
        for k in range(1, len(pool) + 1):
            for sub in itertools.combinations(pool, k):
                for order in (sub, sub[::-1] + ('zz',)):
                    lst = b.new({'list': list(order)}) + '/list'
                    p = b.new()
                    rc = b.run('hyp_utils/subset_data_dir.sh', mode, lst, src, p)
                    keep = [u for u in utts if (spk(u) if mode == '--spk-list' else u) in sub]
                    chosen(ck, b, p, rc, D, keep, 'the %s %s of %s' % (mode, order, utts))
        return
    for m in range(1, n + 2):
        orders = itertools.permutations(range(len(spks))) if mode == '--speakers' else [()]
        for order in orders:
            p = b.new()
            rc = b.run('hyp_utils/subset_data_dir.sh', *(([mode] if mode else []) + [src, m, p]), env={'VF_ORDER': ','.join(map(str, order))})
            what = 'subset %s %d of %s' % (mode, m, utts) + (' in order %s' % (order,) if order else '')
            if mode not in ('--per-spk', '--speakers') and m > n:
                ck.check(rc != 0, what + ': more than there are')
                ck.step()
                continue
            ck.check(rc == 0, lambda: '%s: failed: %s' % (what, b.log[-300:]))
            got = keys(b.read(p)['utt2spk'])
            ck.check(len(set(got)) == len(got) and set(got) <= set(utts), lambda: '%s: took %s' % (what, got))
            if mode == '--per-spk':
                ck.check(all(sum(spk(u) == s for u in got) == min(m, len(per[s])) for s in spks), lambda: '%s: took %s' % (what, got))
            elif mode == '--speakers':
                keep, tot = [], 0
                for i in order:
                    if tot < m:
                        keep += per[spks[i]]
                        tot += len(per[spks[i]])
                ck.check(sorted(got) == sorted(keep), lambda: '%s: took %s, should take %s' % (what, got, keep))
            else:
                ck.check(len(got) == m, lambda: '%s: took %s' % (what, got))
                if mode == '--first':
                    ck.eq(got, utts[:m], what)
                elif mode == '--last':
                    ck.eq(got, utts[n - m:], what)
                elif mode == '--shortest':
                    ck.eq(sorted(lens[u] for u in got), sorted(lens.values())[:m], what + ': lengths')
            chosen(ck, b, p, rc, D, got, what)


def chosen(ck, b, p, rc, D, keep, what, seg=0, extra=()):
    S = set(spk(u) for u in keep)
    want = {f: only(D[f], keep) for f in D if f in UTT + ('wav.scp', 'utt2warp') + tuple(extra)}
    for f in SPK + ('spk2warp',):
        if f in D:
            want[f] = only(D[f], S)
    want['spk2utt'] = rows('spk2utt', [u for u in keys(D['utt2spk']) if u in keep], 0)
    rec = set(x.split()[1] for x in want['segments']) if seg else set(keys(want['wav.scp']))
    for f in ('wav.scp', 'reco2file_and_channel'):
        if f in D:
            want[f] = only(D[f], rec)
    expect(ck, b, p, rc, want, what, order=False)


def subfiles(ck, b, c):
    """which files the directory has"""
    seg = c['seg']
    for n in (1, 2, 3):
        for keep in itertools.combinations(U3, n):
            lst = b.new({'list': list(keep)}) + '/list'
            A = full(U3, seg)
            A['extra1'] = rows('extra1', U3, seg)
            A['extra2'] = rows('extra2', U3[::-1], seg)
            A['spk2warp'] = ['a 1', 'b 2']
            A['utt2warp'] = rows('utt2warp', U3, seg)
            for drop in [None] + sorted(A):
                if drop in ('utt2spk', 'spk2utt', 'wav.scp', 'segments'):
                    continue
                D = {f: v for f, v in A.items() if f != drop}
                p = b.new()
                rc = b.run('hyp_utils/subset_data_dir.sh', '--utt-list', '--extra-files', 'extra1 extra2', lst, b.new(D), p)
                what = 'subset %s of a directory %s %s' % (keep, 'without' if drop else 'with all files', drop or '')
                chosen(ck, b, p, rc, D, list(keep), what, seg, ('extra1', 'extra2'))
                ck.check(drop is None or drop not in b.read(p), what + ': made a file that was not there')


# ---- removing utterances ----

def short(ck, b, c):
    for opt in (None, 3):
        m = 400 if opt is None else opt
        for fr in itertools.product((m - 1, m, m + 1), repeat=3):
            for seg in (0, 1) if opt else (0,):
                D = full(U3, seg)
                D['utt2num_frames'] = ['%s %d' % (u, k) for u, k in zip(U3, fr)]
                p = b.new(D)
                rc = b.run(*(['hyp_utils/remove_short_utts.sh'] + (['--min-len', opt] if opt else []) + [p]))
                keep = [u for u, k in zip(U3, fr) if k >= m]
                if not keep:
                    ck.step()
                    continue
                E = dict(D, utt2spk=only(D['utt2spk'], keep))
                expect(ck, b, p, rc, fixed(E), 'removing utterances of %s frames below %d' % (fr, m))


def few(ck, b, c):
    for sizes in groupings(c['n']):
        utts = ['%s-%d' % ('abcdef'[i], j) for i, k in enumerate(sizes) for j in range(1, k + 1)]
        for m in [None] + list(range(1, c['n'] + 1)):
            D = full(utts, 0)
            p = b.new(D)
            rc = b.run(*(['hyp_utils/remove_spk_few_utts.sh'] + ([] if m is None else ['--min-num-utts', m]) + [p]))
            keep = [u for u in utts if sizes['abcdef'.index(spk(u))] >= (8 if m is None else m)]
            if not keep:
                ck.step()
                continue
            expect(ck, b, p, rc, fixed(dict(D, utt2spk=only(D['utt2spk'], keep))), 'removing speakers of %s with less than %s utterances' % (utts, m))
    if c['n'] == 1:
        utts = ['a-%d' % i for i in range(1, 9)] + ['b-%d' % i for i in range(1, 8)]
        D = full(utts, 0)
        p = b.new(D)
        expect(ck, b, p, b.run('hyp_utils/remove_spk_few_utts.sh', p), fixed(dict(D, utt2spk=only(D['utt2spk'], utts[:8]))), 'removing speakers with less than 8 utterances')


def vad(ck, b, c):
    seg = c['seg']
    for n in (1, 2, 3):
        for keep in itertools.combinations(U3, n):
            for alien in (0, 1):
                D = full(U3, seg)
                D['vad.scp'] = only(D['vad.scp'], keep) + (['z-1 x', 'z-2 x'] if alien else [])
                p = b.new(D)
                rc = b.run('hyp_utils/remove_utts_wo_vad.sh', p)
                w = fixed(dict(D, utt2spk=only(D['utt2spk'], keep)))
                w['vad.scp'] = only(D['vad.scp'], keep)
                expect(ck, b, p, rc, w if n < 3 else {f: v for f, v in w.items() if f != 'vad.scp'}, 'removing utterances without voice activity, %s has it' % D['vad.scp'])


def trials(ck, b, c):
    T = ['m1 s1 target', 'm1 s2 nontarget', 'm2 s1 nontarget', 'm2 s2 target', 's1 m1 target']
    p = b.new({'t': T})
    for v in ('fmodels', 'futts'):
        b.run('awk', '-v', '%s=%s/none' % (v, p), '-f', 'hyp_utils/filter_trials.awk', p + '/t')
        ck.check(not any(x in T for x in b.log.splitlines()), 'trials of a list that is not there')
    M = [None, [], ['m1'], ['m2 x', 's1'], ['m1', 'm2', 's1']]
    for fm in M:
        for fu in [None, [], ['s1'], ['s2 x', 'm1'], ['s1', 's2', 'm1']]:
            for k in range(len(T) + 1):
                for t in itertools.combinations(T, k):
                    if k not in (0, 1, 5) and (fm not in (None, M[2]) or fu is None):
                        continue
                    D = {'t': list(t)}
                    if fm is not None:
                        D['m'] = fm
                    if fu is not None:
                        D['u'] = fu
                    p = b.new(D)
                    a = (['-v', 'fmodels=%s/m' % p] if fm is not None else []) + (['-v', 'futts=%s/u' % p] if fu is not None else [])
                    rc = b.run('awk', *(a + ['-f', 'hyp_utils/filter_trials.awk', p + '/t']))
                    ms, us = None if fm is None else keys(fm), None if fu is None else keys(fu)
                    want = [x for x in t if (ms is None or x.split()[0] in ms) and (us is None or x.split()[1] in us)]
                    ck.check(rc == 0 and b.log.splitlines() == want, lambda: 'trials %s of models %s, utterances %s: got %s, want %s' % (t, fm, fu, b.log.splitlines(), want))
                    ck.step()
                    ck.state((fm, fu, t))


def jobs(ck, b, c):
    """voice activity in jobs: the list of the directory has every utterance once, with the frames that its marks define"""
    import os
    from mc.checks.t02 import frame
    nj = c['nj']
    utts = ['a-1', 'a-2', 'b-1', 'b-2']
    frames = [7, 12, 5, 9]
    spans = {'a-1': [(0.02, 0.05)], 'a-2': [(0.0, 0.03), (0.06, 0.11)], 'b-1': [(0.01, 0.03)], 'b-2': [(0.04, 0.09)]}
    for tool in ('segments', 'rttm'):
        for shift in (None, 20):
            D = full(utts, 0, ('utt2spk', 'wav.scp'))
            D['utt2num_frames'] = ['%s %d' % z for z in zip(utts, frames)]
            D['marks'] = [('%s-s%d %s %g %g' % (u, i, u, s, e)) if tool == 'segments' else 'SPEAKER %s 1 %g %g <NA> <NA> spk <NA> <NA>' % (u, s, e - s) for u in utts for i, (s, e) in enumerate(spans[u])]
            p = b.new(D)
            v = b.new()
            rc = b.run('hyp_utils/%s_to_bin_vad.sh' % tool, '--nj', nj, *((['--frame-shift', shift] if shift else []) + [p + '/marks', p, v]))
            what = '%s to voice activity in %d jobs' % (tool, nj)
            ck.check(rc == 0, lambda: '%s: failed: %s' % (what, b.log[-500:]))
            L = b.read(p).get('vad.scp', [])
            ck.eq(sorted(keys(L)), utts, what + ': utterances')
            from hyperion.io import RandomAccessDataReaderFactory as RF
            cwd = os.getcwd()
            os.chdir(b.top)
            try:
                r = RF.create('scp:%s/vad.scp' % p)
                x = r.read(utts)
            finally:
                os.chdir(cwd)
            sh = shift or 10
            for u, n, z in zip(utts, frames, x):
                want = [0] * n
                for lo, hi in spans[u]:
                    for t in range(frame(lo, sh), min(n, frame(hi, sh) + 1)):
                        want[t] = 1
                ck.eq([int(q) for q in z], want, '%s: frames of %s, spans %s' % (what, u, spans[u]))
                ck.step()
            ck.state((tool, nj, shift))
