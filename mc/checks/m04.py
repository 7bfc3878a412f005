"""M04: accuracy and confusion matrices count every decision once."""
import io
import itertools
import contextlib
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of pairs of label sequences, each table compared with counting'
BOUND = {'quick': 'all pairs of sequences of 1-4 labels of 3 (integer and text labels, 4 label sets, weights, open-set variants with disjoint, equal and overlapping label sets)',
         'thorough': 'all pairs of sequences of 1-5 labels of 3'}
ASSUMPTIONS = ['rows without trials are not defined when normalised', 'at least one decision falls in the asked label set']
CHUNK = 1
INT = [0, 1, 2]
ALPH = [('int', [0, 1, 2]), ('int', [5, 3, 9]), ('int', [-2, 0, 7]), ('str', ['b', 'a', 'cc'])]


def cases(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for t in itertools.product(range(3), repeat=n):
            yield dict(t=list(t))
    yield dict(kind='write')


def table(y, p, lt, lp, w):
    C = [[0] * len(lp) for _ in lt]
    for a, b, x in zip(y, p, w):
        if a in lt and b in lp:
            C[lt.index(a)][lp.index(b)] += x
    return np.array(C)


def norm_eq(ck, got, C, what):
    s = C.sum(axis=1)
    for i in range(len(C)):
        if s[i] > 0:
            ck.close(got[i], C[i] / s[i], what)
            ck.close(float(np.sum(got[i])), 1.0, 'sum of a row, ' + what)


def run_case(ck, c):
    if c.get('kind') == 'write':
        return write(ck)
    n = len(c['t'])
    for p in itertools.product(range(3), repeat=n):
        for ai, (kind, al) in enumerate(ALPH):
            if ai in (1, 2) and n > 3:
                continue
            try:
                one(ck, [al[i] for i in c['t']], [al[i] for i in p], al, kind)
            except Exception as e:
                ck.fail('true %s, predicted %s: %s: %s' % ([al[i] for i in c['t']], [al[i] for i in p], type(e).__name__, e))


def one(ck, y, p, al, kind):
    from hyperion.metrics.confusion_matrix import compute_confusion_matrix, compute_xlabel_confusion_matrix
    from hyperion.metrics.acc import compute_accuracy
    n = len(y)
    Y, P = np.array(y), np.array(p)
    W = [(1, 2, 0.5, 3, 0.25)[i] for i in range(n)]
    ok = [a == b for a, b in zip(y, p)]
    ck.close(compute_accuracy(Y, P), sum(ok) / n, 'accuracy')
    ck.close(compute_accuracy(Y, P, normalize=False), sum(ok), 'number of correct decisions')
    ck.close(compute_accuracy(y, p, sample_weight=W), sum(w for w, o in zip(W, ok) if o) / sum(W), 'weighted accuracy')
    seen = sorted(set(y) | set(p))
    for labels in (None, al, al[::-1], al[:2]):
        L = seen if labels is None else labels
        if not set(L) & set(y):
            continue
        arg = labels if labels is None else np.array(labels)
        C = table(y, p, L, L, [1] * n)
        ck.eq(compute_confusion_matrix(Y, P, arg, normalize=False), C, 'confusion matrix, labels %s' % (labels,))
        norm_eq(ck, compute_confusion_matrix(Y, P, labels=arg), C, 'normalised confusion matrix, labels %s' % (labels,))
        Cw = table(y, p, L, L, W)
        ck.close(compute_confusion_matrix(y, p, arg, normalize=False, sample_weight=W), Cw, 'weighted confusion matrix')
        ck.step(3)
        ck.state(C)
    # open set: the labels of the two sides are different sets
    for ltr, lte in ((None, None), (al, None), (None, al[::-1]), (al[:2], al[1:]), (al[::-1], al)):
        Lt = sorted(set(y)) if lte is None else lte
        Lp = sorted(set(p)) if ltr is None else ltr
        if not any(a in Lt for a in y):
            continue
        atr = None if ltr is None else np.array(ltr)
        ate = None if lte is None else np.array(lte)
        Y, P = np.array(y), np.array(p)
        C = table(y, p, Lt, Lp, [1] * n)
        got = compute_xlabel_confusion_matrix(Y, P, atr, ate, normalize=False)
        ck.eq(np.asarray(got), C, 'open-set confusion matrix, train labels %s, test labels %s' % (ltr, lte))
        norm_eq(ck, compute_xlabel_confusion_matrix(Y, P, labels_train=atr, labels_test=ate), C, 'normalised open-set confusion matrix')
        got = compute_xlabel_confusion_matrix(Y, P, atr, ate, normalize=False, sample_weight=W)
        ck.close(got, table(y, p, Lt, Lp, W), 'weighted open-set confusion matrix')
        ck.eq(Y, np.array(y), 'the true labels were changed')
        ck.eq(P, np.array(p), 'the predicted labels were changed')
        if ltr is not None:
            ck.eq(atr, np.array(ltr), 'the train labels were changed')
        if lte is not None:
            ck.eq(ate, np.array(lte), 'the test labels were changed')
        ck.step(3)
    # given as lists
    got = compute_xlabel_confusion_matrix(list(y), list(p), list(al), list(al), normalize=False)
    ck.eq(np.asarray(got), table(y, p, al, al, [1] * n), 'open-set confusion matrix of lists')
    ck.trace()


def write(ck):
    from hyperion.metrics.confusion_matrix import write_confusion_matrix, print_confusion_matrix
    for C, L, Q in ((np.array([[3, 1], [0, 12]]), ['a', 'b'], None), (np.array([[0.75, 0.25], [0, 1.0]]), ['a', 'b'], ['x', 'y']),
                    (np.array([[2, 0, 5]]), ['long_label_name'], ['a', 'b', 'much_longer_label']), (np.array([[2.5, 0.5], [1.0, 10.0]]), ['a', 'b'], None)):
        for out in ('file', 'std'):
            f = io.StringIO()
            if out == 'file':
                write_confusion_matrix(f, C, L, Q)
            else:
                with contextlib.redirect_stdout(f):
                    print_confusion_matrix(C, L, Q)
            rows = [r.split() for r in f.getvalue().splitlines()]
            ck.eq(rows[0], list(Q or L), 'header')
            ck.eq([r[0] for r in rows[1:]], L, 'row labels')
            ck.close(np.array([[float(v) for v in r[1:]] for r in rows[1:]]), C, 'values')
            ck.step()
    ck.trace()
