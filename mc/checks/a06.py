"""A06: specifiers mean what they say."""
import itertools
import os
import numpy as np
from mc import feat

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of specifier strings up to a length, parsed by the real code and by a grammar, then used to build real readers and writers'
BOUND = {
    'quick': 'all option sequences of length <=4 over the writer options {h5,ark,scp,b,t,f,nf,p,bad} and the reader options {h5,ark,scp,p,o,s,cs,bg,b-free,bad}, with 0..3 file names, 1..3 fields; every built reader/writer exercised, with 8 compressions x 3 separators, prefixes, 1-3 parts, transforms',
    'thorough': 'option sequences of length <=5'}
ASSUMPTIONS = ['file names are plain tokens without separators']
CHUNK = 4
WOPT = ['h5', 'ark', 'scp', 'b', 't', 'f', 'nf', 'p', 'zz']
ROPT = ['h5', 'ark', 'scp', 'p', 'o', 's', 'cs', 'bg', 'zz']


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n + 1):
        for head in itertools.product(range(9), repeat=max(0, k - 2)):
            yield dict(kind='w', k=k, head=head)
            yield dict(kind='r', k=k, head=head)
    yield dict(kind='plain')
    yield dict(kind='eq')
    for opts in wgrammar(4):
        yield dict(kind='writer', opts=opts)
    for fmt in ('ark', 'h5', 'ark_t'):
        for rng in (False, True):
            for k in range(0, 4):
                yield dict(kind='reader', fmt=fmt, rng=rng, k=k)
    for opts in (('ark',), ('h5',), ('ark', 't'), ('ark', 'scp'), ('h5', 'scp'), ('scp', 'ark'), ('ark', 't', 'scp'), ('ark', 'f', 'scp')):
        yield dict(kind='wopts', opts=opts)
    for fmt in ('ark', 'h5', 'ark_t'):
        yield dict(kind='ropts', fmt=fmt)
    yield dict(kind='cli')


def wgrammar(n):
    """well formed writer option sequences"""
    for k in range(1, n + 1):
        for o in itertools.product(range(8), repeat=k):
            s = [WOPT[i] for i in o]
            if len(set(s)) < len(s) or ('f' in s and 'nf' in s) or ('b' in s and 't' in s):
                continue
            if ('h5' in s) + ('ark' in s) != 1:
                continue
            if 'nf' in s or ('b' in s and k > 3):
                continue
            yield s


def tails(k, head):
    return itertools.product(range(9), repeat=min(k, 2))


def wref(opts, files):
    """(spec_type, archive, script, archive_type, binary, flush, permissive) or None when it is malformed"""
    arch = script = atype = None
    i = 0
    for o in opts:
        if o in ('h5', 'ark', 'scp'):
            if o == 'scp':
                if script is not None:
                    return None
            elif atype is not None:
                return None
            if i >= len(files):
                return None
            if o == 'scp':
                script = files[i]
            else:
                atype, arch = o, files[i]
            i += 1
        elif o == 'zz':
            return None
    if arch is None and script is None:
        return None
    st = 'SCRIPT' if arch is None else ('ARCHIVE' if script is None else 'BOTH')
    return (st, arch, script, atype, not ('t' in opts and atype == 'ark'), 'f' in opts, 'p' in opts and atype == 'ark')


def run_case(ck, c):
    from hyperion.io.rw_specifiers import WSpecifier, RSpecifier, ArchiveType, WSpecType, RSpecType
    at = {ArchiveType.H5: 'h5', ArchiveType.ARK: 'ark', None: None}
    if c['kind'] == 'w':
        for t in tails(c['k'], c['head']):
            opts = [WOPT[i] for i in list(c['head']) + list(t)]
            for nf in (0, 1, 2, 3):
                files = ['/x/f%d.y' % i for i in range(nf)]
                s = ','.join(opts) + ':' + ','.join(files)
                need = sum(o in ('h5', 'ark', 'scp') for o in opts)
                if nf == 0:
                    continue
                ref = wref(opts, files)
                ck.step()
                if ref is None:
                    ck.raises(lambda: WSpecifier.create(s), 'malformed write specifier %s' % s)
                    continue
                if nf > need:
                    continue             # surplus names: not specified
                w = WSpecifier.create(s)
                got = (w.spec_type.name, w.archive, w.script, at[w.archive_type], bool(w.binary), bool(w.flush), bool(w.permissive))
                if ref[3] != 'ark':
                    got = got[:4] + (True,) + got[5:6] + (False,)
                ck.eq(got, ref, 'meaning of %s' % s)
                w2 = WSpecifier.create('  ' + s + ' \n')
                ck.check(w == w2 and not (w != w2), 'blanks around %s change its meaning' % s)
                ck.state(got)
                ck.trace()
                ck.raises(lambda: WSpecifier.create(s + ':x'), 'write specifier with three fields')
    elif c['kind'] == 'r':
        d = ck.dir()
        scps = {}
        for kind, line in (('ark', 'k /a/b.ark:12'), ('h5', 'k /a/b.h5'), ('arkr', 'k /a/b.ark:12[1:3]'), ('h5r', 'k /a/b.h5[1:3]')):
            scps[kind] = os.path.join(d, kind + '.scp')
            with open(scps[kind], 'w') as f:
                f.write(line + '\nk2 /other\n')
        for t in tails(c['k'], c['head']):
            opts = [ROPT[i] for i in list(c['head']) + list(t)]
            types = [o for o in opts if o in ('h5', 'ark', 'scp')]
            bad = len(types) != 1 or 'zz' in opts
            for src in ([('ark', scps['ark']), ('h5', scps['h5']), ('ark', scps['arkr']), ('h5', scps['h5r'])] if types == ['scp'] else [(types[0] if types else '', '/x/f')]):
                s = ','.join(opts) + ':' + src[1]
                ck.step()
                if bad:
                    ck.raises(lambda: RSpecifier.create(s), 'malformed read specifier %s' % s)
                    continue
                r = RSpecifier.create(s)
                got = (r.spec_type.name, r.archive, r.script, at[r.archive_type], bool(r.permissive))
                want = ('SCRIPT' if types == ['scp'] else 'ARCHIVE', src[1], src[1], src[0], 'p' in opts)
                ck.eq(got, want, 'meaning of %s' % s)
                if src[0] == 'ark':
                    ck.eq([bool(r.once), bool(r.is_sorted), bool(r.called_sorted), bool(r.background)],
                          ['o' in opts, 's' in opts, 'cs' in opts, 'bg' in opts], 'ordering options of %s' % s)
                ck.state(got[:1] + got[3:])
                ck.trace()
                ck.raises(lambda: RSpecifier.create(s + ':x:y'), 'read specifier with too many fields')
                if types != ['scp']:
                    ck.raises(lambda: RSpecifier.create(s + ',/x/g'), 'read specifier with two file names')
    elif c['kind'] == 'plain':
        for s in ('file.h5', ' file.h5 ', '/a/b/c'):
            w, r = WSpecifier.create(s), RSpecifier.create(s)
            ck.eq((w.spec_type.name, w.archive.strip(), w.script, at[w.archive_type], bool(w.flush)), ('ARCHIVE', s.strip(), None, 'h5', False), 'plain file name')
            ck.eq((r.spec_type.name, r.archive.strip(), at[r.archive_type], bool(r.permissive)), ('ARCHIVE', s.strip(), 'h5', False), 'plain file name')
            ck.step(2)
        for C in (WSpecifier, RSpecifier):
            for s in ('', ' ', '\n', 'a:b:c', 'ark:a:b:c', 'foo:x', ',:x'):
                ck.raises(lambda: C.create(s), 'malformed specifier %r' % s)
                ck.step()
        ck.trace()
    elif c['kind'] == 'eq':
        W = ['a', 'h5:a', 'h5:b', 'ark:a', 'ark,t:a', 'ark,f:a', 'ark,scp:a,b', 'ark,scp:b,a', 'scp,ark:b,a', 'ark,t,scp:a,b', 'ark,p:a', 'scp:a', 'h5,scp:a,b', 'h5,f:a']
        cls = {'a': 'h5:a', 'scp,ark:b,a': 'ark,scp:a,b'}
        same_p = lambda x, y: cls.get(x, x) == cls.get(y, y)
        R = ['a', 'h5:a', 'h5:b', 'ark:a', 'ark,p:a', 'ark,o:a', 'ark,s:a', 'ark,cs:a', 'ark,bg:a', 'h5,p:a']
        for C, L in ((WSpecifier, W), (RSpecifier, R)):
            for x in L:
                for y in L:
                    a, b = C.create(x), C.create(y)
                    ck.check((a == b) == same_p(x, y) and (a != b) == (not same_p(x, y)), 'equality of %s and %s' % (x, y))
                    ck.step()
        ck.trace()
    elif c['kind'] == 'writer':
        writer(ck, c)
    elif c['kind'] == 'reader':
        reader(ck, c)
    elif c['kind'] == 'wopts':
        wopts(ck, c)
    elif c['kind'] == 'ropts':
        ropts(ck, c)
    elif c['kind'] == 'cli':
        cli(ck)


def writer(ck, c):
    """The writer does what the options say: type, text or binary, script, flushing."""
    from hyperion.io import DataWriterFactory as F
    d = ck.dir()
    opts = c['opts']
    files = []
    arch = scp = None
    for o in opts:
        if o in ('h5', 'ark'):
            arch = os.path.join(d, 'out.' + o)
            files.append(arch)
        elif o == 'scp':
            scp = os.path.join(d, 'out.scp')
            files.append(scp)
    s = ','.join(opts) + ':' + ','.join(files)
    data = [feat.mat((2, 3), i) for i in range(2)]
    w = F.create(s)
    w.write('k0', data[0])
    if 'f' in opts:
        ck.check(os.path.getsize(arch) > 0, 'flush: nothing in the archive after a write')
        if scp:
            with open(scp) as f:
                ck.check(f.read().startswith('k0 '), 'flush: nothing in the script after a write')
        # what another process sees at this moment
        import shutil
        cp = os.path.join(d, 'copy.' + ('h5' if 'h5' in opts else 'ark'))
        shutil.copy(arch, cp)
        try:
            r = feat.seq(('h5:' if 'h5' in opts else 'ark:') + cp)
            k, x = r.read()
            r.close()
        except Exception as e:
            ck.fail('flush: the archive cannot be read after a write: %s' % type(e).__name__)
        os.remove(cp)
        ck.check([str(q) for q in k] == ['k0'] and feat.same_data(x, data[:1]), 'flush: the record written is not in the archive')
    w.write(['k1'], [data[1]])
    w.close()
    ck.step(2)
    with open(arch, 'rb') as f:
        b = f.read()
    if 'h5' in opts:
        ck.check(b[1:4] == b'HDF', 'not an HDF5 file')
        kind = 'h5'
    else:
        kind = 'ark'
        ck.check(b.startswith(b'k0 ') and (b'\0' not in b) == ('t' in opts), 'text and binary are mixed up')
    ck.check(sorted(os.listdir(d)) == sorted(os.path.basename(f) for f in files), lambda: 'files written: %s' % os.listdir(d))
    r = feat.seq(kind + ':' + arch)
    k, x = r.read()
    r.close()
    ck.check([str(q) for q in k] == ['k0', 'k1'] and feat.same_data(x, data), 'data differ')
    if scp:
        r = feat.ran('scp:' + scp)
        ck.check(feat.same_data(r.read(['k1', 'k0']), data[::-1]), 'data behind the script differ')
        r.close()
        with open(scp) as f:
            ck.eq([l.strip().split(' ')[1].split(':')[0] for l in f], [arch, arch], 'archive named in the script')
    ck.state(s.replace(d, ''))
    ck.trace()


METH = ['auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1']


def contents(arch):
    if not arch.endswith('h5'):
        with open(arch, 'rb') as f:
            return f.read()
    import h5py
    with h5py.File(arch, 'r') as f:
        return {k: (str(f[k].dtype), f[k].shape, np.asarray(f[k]).tobytes(), sorted((a, str(v)) for a, v in f[k].attrs.items())) for k in f}


def wopts(ck, c):
    """compression, its method and the separator of the script reach the writer"""
    from hyperion.io import DataWriterFactory as F
    from hyperion.io.rw_specifiers import WSpecifier
    from hyperion.io.ark_data_writer import ArkDataWriter
    from hyperion.io.h5_data_writer import H5DataWriter
    opts = c['opts']
    data = [np.abs(np.round(feat.mat((9, 3), i))) % 2 + i * 0 for i in range(2)]
    for method, sep, spec in itertools.product([None] + METH, (' ', '=', '@'), (0, 1)):
        d = ck.dir()
        arch = [os.path.join(d, n + ('.h5' if 'h5' in opts else '.ark')) for n in 'xy']
        scp = [os.path.join(d, n + '.scp') if 'scp' in opts else None for n in 'xy']
        kw = dict(scp_sep=sep)
        if method:
            kw.update(compress=True, compression_method=method)
        fl = {o: f for o, f in zip([o for o in opts if o in ('ark', 'h5', 'scp')], [arch[0], scp[0]] if opts[0] != 'scp' else [scp[0], arch[0]])}
        s = ','.join(opts) + ':' + ','.join(fl.values())
        w = F.create(WSpecifier.create(s) if spec else s, **kw)
        if 'h5' in opts:
            w2 = H5DataWriter(arch[1], scp[1], **kw)
        else:
            w2 = ArkDataWriter(arch[1], scp[1], binary='t' not in opts, flush='f' in opts, **kw)
        for x in (w, w2):
            x.write(['k0', 'k1'], data)
            x.close()
        what = '%s, compression %s, separator %r: ' % (opts, method, sep)
        ck.check(contents(arch[0]) == contents(arch[1]), what + 'the archive is not the one of its writer')
        if scp[0]:
            with open(scp[0]) as f, open(scp[1]) as g:
                t, u = f.read(), g.read()
            ck.eq(t.replace('/x.', '/y.'), u, what + 'script')
            ck.check(all(l.startswith('k%d' % i + sep) for i, l in enumerate(t.split('\n')[:-1])), what + 'separator of the script')
        ck.step()
        ck.state((opts, method, sep))
    ck.trace()


def ropts(ck, c):
    """separator, prefix of the paths, parts and transform reach the readers"""
    d = ck.dir()
    fmt = c['fmt']
    h5 = feat.is_h5(fmt)
    keys = ['a', 'b', 'c', 'd']
    data = [feat.mat((3, 2), i) for i in range(4)]

    class T(object):
        def predict(self, x):
            return 2 * x + 1
    for sep, pre, tr in itertools.product((' ', '=', '@'), (False, True), (None, T())):
        spec, arch, scp = feat.wspec(d, fmt, 'n%d' % ord(sep))
        feat.write(spec, keys, data, scp_sep=sep)
        if pre:
            with open(scp) as f:
                t = f.read()
            with open(scp, 'w') as f:
                f.write(t.replace(d + '/', ''))
        want = [tr.predict(x) for x in data] if tr else data
        for kind, f in (('scp', scp), ('h5' if h5 else 'ark', arch)):
            kw = dict(transform=tr)
            if kind == 'scp':
                kw.update(scp_sep=sep, path_prefix=d + '/' if pre else None)
            s = kind + ':' + f
            what = '%s, separator %r, prefix %s, transform %s' % (kind, sep, pre, tr is not None)
            for n in (1, 2, 3):
                got = []
                for part in range(1, n + 1):
                    if n > 1 and kind == 'ark':
                        continue
                    r = feat.seq(s, part_idx=part, num_parts=n, **kw)
                    k, x = r.read()
                    r.close()
                    got += list(zip([str(q) for q in k], x))
                    ck.step()
                if got or n == 1:
                    ck.eq([g[0] for g in got], keys, what + ', %d parts: keys' % n)
                    ck.check(feat.same_data([g[1] for g in got], want), what + ', %d parts: data' % n)
            if kind != 'ark':
                for p in ('', 'p,'):
                    r = feat.ran(p + s, **kw)
                    ck.check(feat.same_data(r.read(['c', 'a']), [want[2], want[0]]), what + ': random access')
                    if p:
                        x = r.read(['zz', 'b'])
                        ck.check(len(x[0]) == 0 and feat.same_data(x[1:], want[1:2]), what + ': permissive')
                    else:
                        ck.raises(lambda: r.read(['b', 'zz']), what + ': absent key')
                    r.close()
                    ck.step()
            ck.state((kind, sep, pre, tr is not None))
        ck.trace()


def reader(ck, c):
    d = ck.dir()
    fmt = c['fmt']
    data = [feat.mat((4, 2), i) for i in range(3)]
    keys = ['a', 'b', 'c']
    spec, arch, scp = feat.wspec(d, fmt)
    feat.write(spec, keys, data)
    want = data
    if c['rng']:
        if fmt == 'ark_t':
            return
        with open(scp) as f:
            lines = f.read().split('\n')
        with open(scp, 'w') as f:
            f.write('\n'.join(l + '[1:3]' if l else l for l in lines))
        want = [x[1:3] for x in data]
    kind = 'h5' if feat.is_h5(fmt) else 'ark'
    flags = ['p', 'o', 's', 'cs', 'bg']
    for fl in itertools.permutations(flags, c['k']):
        for pos in range(c['k'] + 1):
            o = list(fl)
            o.insert(pos, 'scp')
            s = ','.join(o) + ':' + scp
            r = feat.seq(s)
            k, x = r.read()
            r.close()
            ck.check([str(q) for q in k] == keys and feat.same_data(x, want), 'sequential %s' % s)
            r = feat.ran(s)
            ck.check(feat.same_data(r.read(['c', 'a']), [want[2], want[0]]), 'random %s' % s)
            if 'p' in fl:
                x = r.read(['a', 'zz'])
                ck.check(feat.same_data(x[:1], want[:1]) and len(x[1]) == 0, 'permissive %s' % s)
            else:
                ck.raises(lambda: r.read(['a', 'zz']), 'absent key through %s' % s)
            r.close()
            if pos == 0:
                o = list(fl) + [kind]
                s = ','.join(o) + ':' + arch
                r = feat.seq(s)
                k, x = r.read()
                r.close()
                ck.check([str(q) for q in k] == keys and feat.same_data(x, data), 'sequential %s' % s)
                if kind == 'ark':
                    ck.raises(lambda: feat.ran(s), 'random access to a bare archive')
                else:
                    r = feat.ran(s)
                    ck.check(feat.same_data(r.read(['c', 'a']), [data[2], data[0]]), 'random %s' % s)
                    if 'p' in fl:
                        ck.check(len(r.read(['zz'])[0]) == 0, 'permissive %s' % s)
                    else:
                        ck.raises(lambda: r.read(['zz']), 'absent key through %s' % s)
                    r.close()
            ck.step(3)
            ck.trace()
            ck.state((fmt, c['rng'], o))
    if kind == 'h5':
        r = feat.seq(arch)
        ck.check(feat.same_data(r.read()[1], data), 'plain file name')
        r.close()
        r = feat.ran(arch)
        ck.check(feat.same_data(r.read(keys), data), 'plain file name')
        r.close()


def cli(ck):
    """Command-line options reach the reader or writer they were given for, with any prefix."""
    import argparse
    from hyperion.io import DataWriterFactory as DW, SequentialDataReaderFactory as SR, RandomAccessDataReaderFactory as RR
    d = ck.dir()
    keys = ['a', 'b', 'c', 'd']
    data = [feat.mat((3, 2), i) for i in range(4)]
    for fmt in ('ark', 'h5'):
        spec, arch, scp = feat.wspec(d, fmt, fmt)
        feat.write(spec, keys, data, scp_sep='=')
        with open(scp) as f:
            t = f.read()
        with open(scp, 'w') as f:
            f.write(t.replace(d + '/', ''))
        for prefix in (None, 'in', 'xx'):
            for np_, pi in ((1, 1), (2, 1), (2, 2), (4, 3)):
                pre = '--' + (prefix + '-' if prefix else '')
                ap = argparse.ArgumentParser()
                SR.add_argparse_args(ap, prefix)
                if prefix != 'xx':
                    SR.add_argparse_args(ap, 'xx')
                a = vars(ap.parse_args([pre + 'scp-sep', '=', pre + 'path-prefix', d + '/', pre + 'part-idx', str(pi), pre + 'num-parts', str(np_)]))
                a['other'] = 1
                kw = SR.filter_args(prefix, **a)
                from hyperion.io.ark_data_reader import SequentialArkScriptDataReader as A
                from hyperion.io.h5_data_reader import SequentialH5ScriptDataReader as H
                r = (A if fmt == 'ark' else H)(scp, **kw)
                k, x = r.read()
                r.close()
                n = 4 // np_
                ck.check([str(q) for q in k] == keys[(pi - 1) * n:pi * n] and feat.same_data(x, data[(pi - 1) * n:pi * n]), 'options with prefix %s' % prefix)
                ck.step()
            ap = argparse.ArgumentParser()
            RR.add_argparse_args(ap, prefix)
            a = vars(ap.parse_args([pre + 'scp-sep', '=', pre + 'path-prefix', d + '/']))
            kw = RR.filter_args(prefix, **a)
            from hyperion.io.ark_data_reader import RandomAccessArkDataReader as A
            from hyperion.io.h5_data_reader import RandomAccessH5ScriptDataReader as H
            r = (A if fmt == 'ark' else H)(scp, **kw)
            ck.check(feat.same_data(r.read(['d', 'a']), [data[3], data[0]]), 'options with prefix %s' % prefix)
            r.close()
            ck.step()
            ck.state((fmt, prefix))
    for method in ('auto', '2byte-auto', '1byte-auto', 'speech-feat'):
        ap = argparse.ArgumentParser()
        DW.add_argparse_args(ap)
        a = vars(ap.parse_args(['--compress', '--compression-method', method, '--scp-sep', '=']))
        w = DW.create('ark,scp:%s/c.ark,%s/c.scp' % (d, d), **DW.filter_args(**a))
        w.write('k', feat.mat((12, 2), 0))
        w.close()
        with open(d + '/c.ark', 'rb') as f:
            b = f.read()
        tok = {'auto': b'CM ', 'speech-feat': b'CM ', '2byte-auto': b'CM2 ', '1byte-auto': b'CM3 '}[method]
        ck.check(b.startswith(b'k \0B' + tok), 'compression %s was not applied' % method)
        with open(d + '/c.scp') as f:
            ck.check(f.read().startswith('k='), 'separator was not applied')
        ck.step()
    ck.trace()
