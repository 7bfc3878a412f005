"""Exact reference definitions for the detection metrics (fractions, brute force)."""
import itertools
from fractions import Fraction as Fr


def blocks(n):
    """All sequences of (targets, nontargets) blocks of tied scores with n scores in all."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for a in range(k + 1):
            for rest in blocks(n - k):
                yield ((a, k - a),) + rest


def mixed(n):
    for b in blocks(n):
        if sum(x for x, _ in b) and sum(y for _, y in b):
            yield b


def points(b):
    """Operating points, from accept-all to reject-all, of blocks in ascending score order."""
    nt, nn = sum(x for x, _ in b), sum(y for _, y in b)
    m, f = 0, nn
    out = [(Fr(0), Fr(1))]
    for x, y in b:
        m += x
        f -= y
        out.append((Fr(m, nt), Fr(f, nn)))
    return out


def hull(p):
    """Strict vertices of the lower convex hull of points ordered by growing miss, falling fa."""
    h = []
    for q in p:
        while len(h) >= 2 and cross(h[-2], h[-1], q) <= 0:
            h.pop()
        h.append(q)
    # drop repeated points
    out = []
    for q in h:
        if not out or out[-1] != q:
            out.append(q)
    return out


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def eer(h):
    """Crossing of the polyline with miss == fa."""
    for (m0, f0), (m1, f1) in zip(h, h[1:]):
        d0, d1 = m0 - f0, m1 - f1
        if d0 <= 0 <= d1:
            if d0 == d1:
                return m0
            t = -d0 / (d1 - d0)
            return m0 + t * (m1 - m0)
    raise AssertionError(h)


def pav(y):
    """Least-squares non-decreasing fit by the min-max formula."""
    n = len(y)
    y = [Fr(v) for v in y]
    cs = [Fr(0)]
    for v in y:
        cs.append(cs[-1] + v)
    av = lambda a, b: (cs[b + 1] - cs[a]) / (b + 1 - a)
    return [max(min(av(a, b) for b in range(i, n)) for a in range(i + 1)) for i in range(n)]


def multisets(levels, lo, hi):
    for k in range(lo, hi + 1):
        for c in itertools.combinations_with_replacement(levels, k):
            yield c


def blocks_of(tar, non):
    return tuple((sum(1 for t in tar if t == v), sum(1 for t in non if t == v)) for v in sorted(set(tar) | set(non)))
