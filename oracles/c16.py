import numpy as np
from .gens import *
from . import mf


def gen_arr(g):
    n = g.int(1, 8)
    k = g.int(0, 7)
    if k <= 2:
        a = g.rng.randint(0, 2, size=n)
    elif k == 3:
        a = np.full(n, g.int(0, 1))
    elif k == 4:
        a = g.rng.randint(0, 3, size=n)
    elif k == 5:
        a = g.rng.randint(-1, 2, size=n)
    elif k == 6:
        a = g.choice([np.array([0.5]), np.array([0., 1., 0.5]),
                      np.array([0., 1e-9]), np.array([1., 1 + 1e-9]),
                      np.array([0., 1., 0.999999999]), np.array([2, 2]),
                      np.array([0, 2]), np.array([1, 2]), np.array([-1, 0]),
                      np.array([0, 1, 2]), np.array([5])])
    else:
        a = np.full(n, g.choice([2, -1, 0.5, 3.]))
    if g.flip(0.5):
        a = a.astype(float)
    return a


def both(a):
    s = set(np.asarray(a, dtype=float).tolist())
    return s <= {0., 1.}, s == {0., 1.}


def case_test(g):
    from kamrecsys.utils import is_binary_score
    a = gen_arr(g)
    g.note(score=a.tolist())
    anyb, full = both(a)
    arg = g.choice([a, a.tolist(), tuple(a.tolist())])
    if g.flip(0.2):
        arg = a.reshape(1, -1)
    g.chk(bool(is_binary_score(arg)) == anyb, 'binary test', expected=anyb)
    g.chk(bool(is_binary_score(arg, allow_uniform=True)) == anyb,
          'binary test', expected=anyb)
    g.chk(bool(is_binary_score(arg, allow_uniform=False)) == full,
          'binary test without uniform arrays', expected=full)


def case_fit(g):
    from kamrecsys.data import EventWithScoreData
    from kamrecsys.item_finder import LogisticPMF
    n = g.int(2, 8)
    ev = g.rng.randint(0, 4, size=(n, 2))
    k = g.int(0, 5)
    dom = g.choice([(0, 1, 1), [0, 1, 1], np.array([0., 1., 1.])])
    sc = g.rng.randint(0, 2, size=n)
    sc[:2] = [0, 1]
    if k == 1:
        sc[:] = g.int(0, 1)
    elif k == 2:
        sc = sc.astype(float)
        sc[g.int(0, n - 1)] = g.choice([0.5, 2., -1., 1.0000001])
    elif k == 3:
        dom = g.choice([(1, 5, 1), (0, 1, 0.5), (0, 2, 1), (0, 1, 0.25),
                        (-1, 1, 1), (0, 4, 1), (0, 1, 2), (1, 2, 1)])
    elif k == 4:
        sc = g.rng.randint(1, 6, size=n)
        dom = (1, 5, 1)
    d = EventWithScoreData()
    d.set_event(ev, sc, dom)
    if k == 5:
        d.n_score_levels = g.choice([3, 1, 5, 0])
    g.note(events=ev.tolist(), scores=sc.tolist(), domain=list(dom),
           n_score_levels=d.n_score_levels)
    ok = (np.array_equal(np.asarray(dom, dtype=float), [0, 1, 1]) and
          both(sc)[1] and d.n_score_levels == 2)
    m = LogisticPMF(k=1, random_state=0)

    def fit():
        with FakeOptimizer(lambda f, df, x0, b: result(x0, 1.0)):
            m.fit(d)
    if ok:
        fit()
        g.same(np.asarray(m.score_domain, dtype=float), [0, 1, 1],
               'score domain of the model')
        g.chk(m.n_score_levels == 2, 'number of score levels')
    else:
        g.raises(ValueError, fit, 'non-binary data were accepted')
    # binarized data are accepted
    d2 = EventWithScoreData()
    d2.set_event(ev, g.rng.randint(1, 6, size=n), (1, 5, 1))
    d2.binarize_score()
    if both(d2.score)[1]:
        with FakeOptimizer(lambda f, df, x0, b: result(x0, 1.0)):
            LogisticPMF(k=1, random_state=0).fit(d2)


def auc(y, s):
    p = [b for a, b in zip(y, s) if a == 1]
    n = [b for a, b in zip(y, s) if a == 0]
    return sum((1. if a > b else 0.5 if a == b else 0.)
               for a in p for b in n) / (len(p) * len(n))


def case_stats(g):
    from kamrecsys.metrics import item_finder_report, item_finder_statistics
    y = gen_arr(g)
    n = len(y)
    s = g.rng.rand(n)
    if g.flip(0.4):
        s = np.round(s * 3) / 3
    anyb, full = both(y)
    g.note(y_true=y.tolist(), y_pred=s.tolist())
    fs = [('report', lambda a, b: item_finder_report(a, b, disp=False)),
          ('statistics', item_finder_statistics)]
    for name, f in fs:
        ya, sa = (y.tolist(), s.tolist()) if g.flip(0.3) else (y.copy(),
                                                               s.copy())
        if not anyb:
            g.raises(ValueError, lambda: f(ya, sa),
                     name + ' accepted non-binary scores')
            continue
        r = f(ya, sa)
        g.same(ya, y, name + ' changed its argument')
        g.same(sa, s, name + ' changed its argument')
        key = 'area under the curve'
        g.chk((key in r) == full, name + ': AUC exactly when both classes '
              'occur', got=sorted(r))
        if full:
            g.close(r[key], auc(y.tolist(), s.tolist()), name + ': AUC')
        g.chk(int(r['n_samples']) == n, name + ': n_samples')
        g.close(r['true']['mean'], np.mean(y.astype(float)), 'true mean')
        g.close(r['true']['stdev'], np.std(y.astype(float)), 'true stdev')
        g.close(r['predicted']['mean'], np.mean(s), 'predicted mean')
        g.close(r['predicted']['stdev'], np.std(s), 'predicted stdev')


FAMILIES = [(case_test, 3), (case_fit, 2), (case_stats, 2)]
