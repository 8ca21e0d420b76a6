import numpy as np
from .gens import *
from . import mf
from .c13 import setup, model

B = 34.538776394910684


def case_sigmoid(g):
    from kamrecsys.utils import safe_sigmoid
    n = g.int(1, 12)
    x = g.rng.randn(n) * g.choice([1., 10., 100., 1e4, 1e300])
    x = np.r_[x, [0., B, -B, 35., -35., 1e308, -1e308, np.inf, -np.inf, 36.5,
                  -36.5, 800., -800.]]
    x = np.sort(x)
    g.note(x=x.tolist())
    x0 = x.copy()
    s = np.asarray(safe_sigmoid(x))
    g.same(x, x0, 'the argument was modified')
    g.chk(s.shape == x.shape, 'shape')
    g.chk(np.all(np.diff(s) >= 0), 'monotone', got=s)
    g.chk(np.all(s >= 1e-15 * (1 - 1e-6)) and
          np.all(s <= 1 - 1e-15 * (1 - 0.1)) and np.all(s > 0) and
          np.all(s < 1), 'range of values', got=s)
    from scipy.special import expit
    g.close(s, expit(np.clip(x, -B, B)), 'clipped logistic function',
            rtol=1e-9, atol=0)
    for v in (x[0], x[n // 2], 0.3):
        g.close(float(safe_sigmoid(float(v))),
                float(expit(np.clip(v, -B, B))), 'scalar argument',
                rtol=1e-9, atol=0)
    a = g.rng.randn(2, 3) * 30
    g.close(safe_sigmoid(a), expit(np.clip(a, -B, B)), 'matrix argument',
            rtol=1e-9, atol=0)


def rand_tables(g, m, c):
    def col(n):
        t = g.rng.dirichlet(np.ones(n), size=c.k).T
        return t * 0.999 + 0.001 / n
    m.pZ_ = g.rng.dirichlet(np.ones(c.k)) * 0.99 + 0.01 / c.k
    m.pXgZ_ = np.r_[col(len(c.ids[0])), np.ones((1, c.k))]
    m.pYgZ_ = np.r_[col(len(c.ids[1])), np.ones((1, c.k))]
    m.pRgZ_ = col(c.m)


def plsa(g, expectation):
    d, ev, sc, c = setup(g)
    m = model(c, None, maxiter=g.int(1, 3), use_expectation=expectation)
    m.fit(d, **c.fit_kw)
    if g.flip():
        rand_tables(g, m, c)
    nx, ny = len(c.ids[0]), len(c.ids[1])
    pairs = np.array([[u, i] for u in range(nx + 1) for i in range(ny + 1)])
    pr = np.zeros((len(pairs), c.m))
    for r, (u, i) in enumerate(pairs):
        w = m.pZ_ * m.pXgZ_[u] * m.pYgZ_[i]
        pr[r] = m.pRgZ_.dot(w)
        pr[r] /= pr[r].sum()
    return m, c, pairs, pr


def case_expectation(g):
    m, c, pairs, pr = plsa(g, True)
    got = np.asarray(m.raw_predict(pairs))
    g.close(got, pr.dot(c.levels), 'expectation of the rating', atol=1e-9)
    tol = 1e-9 * (1 + abs(c.levels).max())
    g.chk(np.all(got >= c.levels[0] - tol) and
          np.all(got <= c.levels[-1] + tol), 'range of predictions', got=got)


def case_mode(g):
    m, c, pairs, pr = plsa(g, False)
    got = np.asarray(m.raw_predict(pairs))
    for s, p in zip(got, pr):
        j = int(np.argmin(np.abs(c.levels - s)))
        g.chk(abs(c.levels[j] - s) < 1e-9, 'a score level', got=s)
        g.chk(p[j] >= p.max() * (1 - 1e-9), 'a level of maximal probability',
              got=s, distribution=p)


def case_probabilities(g):
    m, d, ev, sc, c = mf.make(g, g.choice(['LogisticPMF',
                                           'ImplicitLogisticPMF']))
    scale = g.choice([1., 10., 100., 1e4])
    mf.fit_with(g, m, d, c, lambda f, df, x0, b: result(
        g.rng.randn(len(x0)) * scale, 1.0))
    u, i = mf.grid(c)
    pairs = np.r_[np.c_[u, i], [[c.nu, c.ni]], [[0, c.ni]], [[c.nu, 0]]]
    got = np.asarray(m.raw_predict(pairs))
    g.note(scale=scale)
    g.chk(np.all(got > 0) and np.all(got < 1),
          'probabilities strictly between 0 and 1', got=got)


FAMILIES = [(case_sigmoid, 2), (case_expectation, 2), (case_mode, 2),
            (case_probabilities, 2)]
