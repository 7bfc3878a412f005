"""Sequence data sets for the batch generators and sequence readers, and a controlled random source."""
import contextlib
import os
import numpy as np

DIM = 2
_REAL = np.random.RandomState


def utt(i, n):
    """frame j of utterance i: (100 i + j, -(100 i + j)); every frame value tells where it is from"""
    v = 1000.0 * (i + 1) + np.arange(n, dtype=float)
    return np.stack([v, -v], axis=1)


def dataset(d, lengths, classes, order=None, fmt='h5', labels='u2c'):
    """writes the archive, the script and the label file; returns (rspecifier, label file, keys)"""
    from hyperion.io import DataWriterFactory as F
    n = len(lengths)
    keys = ['u%d' % ((i * 3 + 1) % 10) + 'abcdefghij'[i] for i in range(n)]
    arch = os.path.join(d, 'd.' + fmt)
    spec = '%s,scp:%s,%s' % (fmt, arch, arch + '.scp')
    w = F.create(spec)
    for i in range(n):
        w.write([keys[i]], [utt(i, lengths[i])])
    w.close()
    lab = os.path.join(d, labels)
    with open(lab, 'w') as f:
        for i in (order if order is not None else range(n)):
            f.write('%s %s\n' % (keys[i], classes[i]))
    return 'scp:' + arch + '.scp', lab, keys


def locate(ck, x, keys, lengths, what):
    """(utterance, first frame, number of frames) of a chunk; a chunk must be a run of consecutive frames"""
    x = np.asarray(x)
    ck.check(x.ndim == 2 and x.shape[1] == DIM and x.shape[0] >= 1, lambda: '%s: shape %s' % (what, x.shape))
    v = x[:, 0]
    ck.check(np.array_equal(x[:, 1], -v), what + ': columns of a chunk')
    u = int(v[0] // 1000) - 1
    f = int(v[0]) % 1000
    ck.check(np.array_equal(v, v[0] + np.arange(len(v))), lambda: '%s: frames %s are not consecutive' % (what, v.tolist()))
    ck.check(0 <= u < len(lengths) and f + len(v) <= lengths[u], lambda: '%s: frames %s are not of one utterance' % (what, v.tolist()))
    return u, f, len(v)


class Chooser(object):
    """Decides the outcome of every random draw: `script` lists, per draw, 0 (lowest), 1 (highest) or 2 (middle);
    draws behind its end take the lowest value.  Records how many free draws there were."""

    def __init__(self, script):
        self.script = list(script)
        self.n = 0

    def pick(self, lo, hi):
        """value in lo..hi-1"""
        if hi <= lo:
            raise ValueError('low >= high')
        if hi - lo == 1:
            return lo
        c = self.script[self.n] if self.n < len(self.script) else 0
        self.n += 1
        return [lo, hi - 1, (lo + hi - 1) // 2][c]

    def state(chooser):
        class RS(_REAL):
            def randint(self, low, high=None, size=None, dtype=int):
                if high is None:
                    low, high = 0, low
                if size is None:
                    return chooser.pick(int(low), int(high))
                out = np.empty(size, dtype=int)
                for k in range(out.size):
                    out.flat[k] = chooser.pick(int(low), int(high))
                return out
        return RS


@contextlib.contextmanager
def controlled(script):
    c = Chooser(script)
    RS = c.state()
    np.random.RandomState = RS
    try:
        yield c
    finally:
        np.random.RandomState = _REAL


def expect(keys, idx, classes, order=None):
    """class index of each key, classes numbered in sorted order or as listed"""
    cl = sorted(set(classes)) if order is None else order
    return {k: cl.index(c) for k, c in zip(keys, classes)}
