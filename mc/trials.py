"""Reference model shared by the checks of trial lists, trial keys and score tables.

State: an ordered list of models, an ordered list of segments and a map pair -> value.
The state space of a small universe (every ordered choice of models and segments, every
content) is enumerated completely and every operation is applied in every state, so that
operation sequences of any length inside the universe are covered step by step.
"""
import itertools

MODELS = ('m2', 'm10')
SEGS = ('s3', 's1', 's20')
FOREIGN_M, FOREIGN_S = 'm1', 's2'


def ordered(names):
    for k in range(1, len(names) + 1):
        for c in itertools.permutations(names, k):
            yield c


def subsets(names):
    for k in range(0, len(names) + 1):
        for c in itertools.combinations(names, k):
            yield c


def parts(x, i, n):
    return list(x[(i - 1) * len(x) // n: i * len(x) // n])


class Kind(object):
    """empty: value of a pair without trial; mk(models, segs, d) builds the real object;
    rd(obj) -> (models, segs, d); or_(a, b) merge of two values; ext: list of file extensions"""


def compare(ck, K, obj, models, segs, d, what, ordered_=True, drop=False, tol=0):
    gm, gs, gd = K.rd(obj)
    if drop:
        mm = sorted({m for m in models for s in segs if d[m, s] != K.empty})
        ss = sorted({s for m in models for s in segs if d[m, s] != K.empty})
    else:
        mm, ss = list(models), list(segs)
    if not ordered_ or drop:
        ck.eq(sorted(gm), sorted(mm), what + ': models')
        ck.eq(sorted(gs), sorted(ss), what + ': segments')
    else:
        ck.eq(gm, mm, what + ': models')
        ck.eq(gs, ss, what + ': segments')
    for m in mm:
        for s in ss:
            g, w = gd[m, s], d[m, s]
            if tol and g != w and g is not None and w is not None:
                ck.check(abs(g - w) <= tol, lambda: '%s: pair (%s, %s) is %r, not %r' % (what, m, s, g, w))
            else:
                ck.check(g == w, lambda: '%s: pair (%s, %s) is %r, not %r' % (what, m, s, g, w))
    K.extra(ck, obj, gm, gs, what, drop)


def explore(ck, K, models, segs, d, probes=True):
    """Every operation in the state (models, segs, d)."""
    import os
    models, segs = list(models), list(segs)

    def fresh():
        return K.mk(models, segs, d)

    o = fresh()
    ck.state((K.name, models, segs, sorted((k, str(v)) for k, v in d.items())))
    compare(ck, K, o, models, segs, d, 'construction')
    ck.eq((o.num_models, o.num_tests), (len(models), len(segs)), 'sizes')

    def after(obj, mm, ss, dd, what, **kw):
        compare(ck, K, obj, mm, ss, dd, what, **kw)
        ck.step()
        ck.trace()
        compare(ck, K, o, models, segs, d, what + ': the source object')
        if probes and mm and ss and not kw.get('drop'):
            gm, gs, gd = K.rd(obj)
            p = obj.copy()
            p.sort()
            compare(ck, K, p, sorted(gm), sorted(gs), gd, what + ', then sort')
            q = obj.filter([gm[-1]], list(reversed(gs)))
            compare(ck, K, q, [gm[-1]], list(reversed(gs)), gd, what + ', then filter')
            ck.step(2)

    after(o.copy(), models, segs, d, 'copy')
    p = o.copy()
    p.sort()
    after(p, sorted(models), sorted(segs), d, 'sort')
    base = ck.dir()
    for ext in K.exts:
        f = os.path.join(base, 'x' + ext)
        o.save(f)
        q = K.cls().load(f)
        if ext == '.txt':
            after(q, models, segs, d, 'save and load ' + ext, drop=True, tol=K.txt_tol)
        else:
            after(q, models, segs, d, 'save and load ' + ext)
        os.unlink(f)
    for fm in ordered(models):
        for fs in ordered(segs):
            after(o.filter(list(fm), list(fs)), fm, fs, d, 'filter keeping %s %s' % (fm, fs))
    import numpy as np
    after(o.filter(np.array(models[::-1]), np.array(segs[::-1])), models[::-1], segs[::-1], d, 'filter with arrays')
    for fm in subsets(models):
        for fs in subsets(segs):
            km = [m for m in models if m not in fm]
            ks = [s for s in segs if s not in fs]
            if km and ks:
                after(o.filter(list(fm), list(fs), keep=False), km, ks, d,
                      'filter removing %s %s' % (fm, fs), ordered_=False)
    # a filter with an unknown name is refused
    ck.raises(lambda: o.filter([FOREIGN_M], segs), 'filter with an unknown model')
    ck.raises(lambda: o.filter(models, [segs[0], FOREIGN_S]), 'filter with an unknown segment')
    for nm in range(1, len(models) + 1):
        for ns in range(1, len(segs) + 1):
            pieces = []
            for i in range(1, nm + 1):
                for j in range(1, ns + 1):
                    r = o.split(i, nm, j, ns)
                    after(r, parts(models, i, nm), parts(segs, j, ns), d, 'part %d/%d %d/%d' % (i, nm, j, ns))
                    pieces.append(r)
            for lst in (pieces, pieces[::-1]):
                after(K.cls().merge(lst), models, segs, d, 'merge of a %dx%d split' % (nm, ns), ordered_=False)
    # merge with other lists: overlapping and disjoint
    for om, os_, od in K.others():
        clash = any(d.get(k, K.empty) != K.empty and od[k] != K.empty for k in od if k in d)
        other = K.mk(om, os_, od)
        um = models + [m for m in om if m not in models]
        us = segs + [s for s in os_ if s not in segs]
        if clash and not K.overlap_ok:
            ck.raises(lambda: K.cls().merge([o, other]), 'merge of lists that both score a trial')
            continue
        ud = {}
        for m in um:
            for s in us:
                a, b = d.get((m, s), K.empty), od.get((m, s), K.empty)
                ud[m, s] = K.or_(a, b)
        if K.conflict(ud):
            continue
        after(K.cls().merge([o, other]), um, us, ud, 'merge with %s x %s' % (om, os_), ordered_=False)
        after(K.cls().merge([other, o]), um, us, ud, 'merge of %s x %s with it' % (om, os_), ordered_=False)
        compare(ck, K, other, om, os_, od, 'the merged-in object')
    # equality
    ck.check(o == o.copy() and not (o != o.copy()), 'a copy is not equal to the object')
    k0 = (models[-1], segs[0])
    d2 = dict(d)
    d2[k0] = K.change(d[k0])
    o2 = K.mk(models, segs, d2)
    ck.check(not (o == o2) and o != o2, 'objects that differ in a pair are equal')
    ck.check(not (o == K.mk(models + [FOREIGN_M], segs,
                            {**d, **{(FOREIGN_M, s): K.empty for s in segs}})), 'objects of other sizes are equal')


def shapes():
    for ms in ordered(MODELS):
        for ss in ordered(SEGS):
            yield ms, ss
