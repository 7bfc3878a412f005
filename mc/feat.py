"""Datasets, writers and readers shared by the archive checks (A01..A07)."""
import itertools
import os
import numpy as np


def mat(shape, idx, scale=1.0):
    """Deterministic data whose values are exact in float32 and in 6 decimals, positive and
    negative, and different for every record, row and column."""
    shape = tuple(shape)
    n = int(np.prod(shape))
    v = (np.arange(n, dtype=np.float64) * 7 + 3 * idx + 1)
    v = ((v * 37) % 1024 - 500) / 64.0 + idx
    return (v * scale).reshape(shape)


# format -> (option string, has_script, is_h5)
FORMATS = {
    'ark': ('ark,scp', False),
    'ark_t': ('ark,t,scp', False),
    'ark_f': ('ark,f,scp', False),
    'h5': ('h5,scp', True),
}


def wspec(d, fmt, name='a', script=True):
    """(wspecifier, archive path, script path)"""
    opts, h5 = FORMATS[fmt]
    arch = os.path.join(d, name + ('.h5' if h5 else '.ark'))
    scp = os.path.join(d, name + '.scp')
    if not script:
        opts = opts.replace(',scp', '')
        return '%s:%s' % (opts, arch), arch, None
    return '%s:%s,%s' % (opts, arch, scp), arch, scp


def is_h5(fmt):
    return FORMATS[fmt][1]


def write(spec, keys, data, groups=None, **kw):
    """groups: sizes of the consecutive write calls; None: a single call"""
    from hyperion.io import DataWriterFactory as F
    w = F.create(spec, **kw)
    if groups is None:
        groups = [len(keys)]
    i = 0
    for g in groups:
        if g == 's':                       # single record, passed as a bare key
            w.write(keys[i], data[i])
            i += 1
        else:
            w.write(keys[i:i + g], data[i:i + g])
            i += g
    w.close()


def compositions(n):
    """All ways of cutting n records into consecutive write calls; 1 also as a bare key."""
    if n == 0:
        return [[]]
    out = []
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            out.append([k] + rest)
            if k == 1:
                out.append(['s'] + rest)
    return out


def seq(spec, **kw):
    from hyperion.io import SequentialDataReaderFactory as F
    return F.create(spec, **kw)


def ran(spec, **kw):
    from hyperion.io import RandomAccessDataReaderFactory as F
    return F.create(spec, **kw)


def same_data(got, want, exact=True):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        g = np.asarray(g)
        if g.shape != w.shape:
            return False
        if exact:
            if not (np.array_equal(g, w) or np.array_equal(g.astype('float64'), w.astype('float32').astype('float64'))):
                return False
        elif not np.allclose(g, w, atol=2e-6, rtol=0):
            return False
    return True


def keys_of(ks):
    return [str(k) for k in ks]
