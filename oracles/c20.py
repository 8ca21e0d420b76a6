from fractions import Fraction
import math
import numpy as np
from .gens import *


def gen_groups(g, n, least=1):
    if g.flip(0.25) or n < least:
        return None, [list(range(n))]
    k = g.int(1, 4)
    while True:
        k = max(1, min(k, n // least))
        lab = [i for i in range(k) for _ in range(least)]
        lab += [g.int(0, k - 1) for _ in range(n - len(lab))]
        break
    lab = np.array(lab)[g.rng.permutation(n)]
    names = g.rng.choice(20, size=k, replace=False) - 5
    gr = names[lab]
    if g.flip(0.15):
        gr = np.array(['g%d' % v for v in gr])
    return gr, [[i for i in range(n) if lab[i] == j] for j in range(k)]


def check_folds(g, folds, k, n):
    g.chk(len(folds) == k, 'number of folds', got=len(folds), expected=k)
    for tr, te in folds:
        g.chk(np.ndim(tr) == 1 and np.ndim(te) == 1, 'index arrays')
        tr, te = np.asarray(tr).tolist(), np.asarray(te).tolist()
        g.chk(tr == sorted(set(tr)) and te == sorted(set(te)),
              'index sets are not sorted', train=tr, test=te)
        g.chk(sorted(tr + te) == list(range(n)),
              'training and test sets are no partition', train=tr, test=te)


def call(g, cv, X, gr):
    k = g.int(0, 2)
    if gr is None and k == 0:
        return [(a.copy(), b.copy()) for a, b in cv.split(X)]
    if k == 1:
        y = np.arange(len(X))
        return [(a.copy(), b.copy()) for a, b in cv.split(X, y, gr)]
    if k == 2:      # folds kept as they are yielded
        return list(cv.split(X, groups=gr))
    return [(a.copy(), b.copy()) for a, b in cv.split(X, groups=gr)]


def gen_X(g, n):
    return g.choice([np.zeros(n), g.rng.randint(0, 5, size=(n, 2)),
                     g.rng.rand(n, 3)])


def case_kfold(g):
    from kamrecsys.model_selection import KFoldWithinGroups
    k = g.int(2, 5)
    n = g.int(k, 20)
    gr, members = gen_groups(g, n, least=k)
    sh = g.flip()
    cv = KFoldWithinGroups(n_splits=k, shuffle=sh,
                           random_state=g.int(0, 99) if sh else None)
    if k == 3 and not sh:
        cv = KFoldWithinGroups()
    g.note(n=n, k=k, groups=None if gr is None else gr.tolist(), shuffle=sh)
    g.chk(cv.get_n_splits() == k, 'get_n_splits')
    folds = call(g, cv, gen_X(g, n), gr)
    check_folds(g, folds, k, n)
    alltest = sorted(i for tr, te in folds for i in np.asarray(te).tolist())
    g.chk(alltest == list(range(n)), 'each sample is tested exactly once',
          got=alltest)
    for mem in members:
        sizes = [len(set(mem) & set(np.asarray(te).tolist()))
                 for tr, te in folds]
        g.chk(max(sizes) - min(sizes) <= 1, 'group balance', sizes=sizes,
              group=mem)
    if not sh:
        again = [(a.tolist(), b.tolist())
                 for a, b in cv.split(np.zeros(n), groups=gr)]
        g.chk(again == [(np.asarray(a).tolist(), np.asarray(b).tolist())
                        for a, b in folds], 'splits are reproducible')


def case_shuffle(g):
    from kamrecsys.model_selection import ShuffleSplitWithinGroups
    k = g.int(1, 4)
    ts = g.choice([0.1, 0.2, 0.25, 0.5, 0.34, 1, 2])
    n = g.int(4, 24)
    gr, members = gen_groups(g, n, least=4)
    kw = dict(n_splits=k, test_size=ts, random_state=g.int(0, 99))
    if isinstance(ts, float) and g.flip(0.2):
        kw['train_size'] = 1. - ts
        if any(math.ceil(len(m) * ts - 1e-9) +
               math.floor(len(m) * (1 - ts) + 1e-9) != len(m)
               for m in members):
            del kw['train_size']
    if ts == 0.1 and 'train_size' not in kw and g.flip():
        del kw['test_size']
    cv = ShuffleSplitWithinGroups(**kw)
    g.note(n=n, kw=kw, groups=None if gr is None else gr.tolist())
    g.chk(cv.get_n_splits() == k, 'get_n_splits')
    folds = call(g, cv, gen_X(g, n), gr)
    check_folds(g, folds, k, n)
    for tr, te in folds:
        te = set(np.asarray(te).tolist())
        for mem in members:
            e = ts if isinstance(ts, int) else int(math.ceil(
                ts * len(mem)))
            g.chk(len(te & set(mem)) == e, 'test proportion of a group',
                  got=len(te & set(mem)), expected=e, group=mem)


def case_interlaced(g):
    from kamrecsys.model_selection import InterlacedKFold
    k = g.int(2, 6)
    n = g.int(k, 20)
    cv = InterlacedKFold(n_splits=k)
    if k == 3:
        cv = InterlacedKFold()
    g.note(n=n, k=k)
    g.chk(cv.get_n_splits() == k, 'get_n_splits')
    gr = None if g.flip() else g.rng.randint(0, 3, size=n)
    folds = call(g, cv, gen_X(g, n), gr)
    check_folds(g, folds, k, n)
    for f, (tr, te) in enumerate(folds):
        g.chk(np.asarray(te).tolist() == list(range(f, n, k)),
              'sample i is in the test set of fold i mod k', fold=f,
              got=np.asarray(te).tolist())


def case_bad(g):
    from kamrecsys.model_selection import KFoldWithinGroups, InterlacedKFold
    c = g.choice([KFoldWithinGroups, InterlacedKFold])
    g.note(cls=c.__name__)
    g.raises(ValueError, lambda: c(n_splits=g.int(-2, 1)),
             'fewer than two folds were accepted')
    k = g.int(2, 6)
    n = g.int(1, k - 1)
    g.note(n=n, k=k)
    g.raises(ValueError, lambda: list(c(n_splits=k).split(np.zeros(n))),
             'more folds than samples were accepted')


FAMILIES = [(case_kfold, 3), (case_shuffle, 3), (case_interlaced, 2),
            (case_bad, 1)]
