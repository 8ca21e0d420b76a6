import numpy as np
from .gens import *
from . import mf


def run(g, which, grad=False, twice=False):
    m, d, ev, sc, c = mf.make(g, which)
    box = {}

    def cb(f, df, x0, b):
        box['pts'] = mf.points(g, x0, len(x0))
        box['f'] = [float(f(np.array(x))) for x in box['pts']]
        if grad:
            box['g'] = None if df is None else \
                [np.array(df(np.array(x)), dtype=float) for x in box['pts']]
            box['fd'] = []
            x = box['pts'][1]
            for j in range(len(x)):
                h = 1e-5
                a, e = x.copy(), x.copy()
                a[j] += h
                e[j] -= h
                box['fd'].append((f(a) - f(e)) / (2 * h))
        if twice:
            box['f2'] = [float(f(np.array(x))) for x in box['pts']]
        box['x0'] = x0
        v = mf.probe(g, len(x0))
        box['v'] = v
        return result(v, 1.0)
    mf.fit_with(g, m, d, c, cb)
    g.chk(len(box['x0']) == c.size, 'number of optimized parameters',
          got=len(box['x0']), expected=c.size)
    lay = mf.Layout(g, m, c, box['v'])
    return m, d, ev, sc, c, box, lay


def inside(lay, x, c):
    u, i = mf.grid(c)
    return np.max(np.abs(mf.linear(lay.split(x), u, i))) < 30


def loss_ok(g, which):
    m, d, ev, sc, c, box, lay = run(g, which, twice=True)
    for x, fx in zip(box['pts'], box['f']):
        if which != 'PMF' and not inside(lay, x, c):
            continue
        g.note(at=x.tolist())
        g.close(fx, mf.ref_loss(lay.split(x), c), 'loss of ' + which,
                rtol=1e-6)
    g.close(box['f2'], box['f'], 'the loss is a function of the parameters')
    # the loss in terms of the predictions of the fitted model
    pr = m.raw_predict(c.pairs)
    box2 = {}

    def cb(f, df, x0, b):
        box2['f'] = float(f(np.array(box['v'])))
        return result(box['v'], 1.0)
    m2 = type(m)(C=c.C, k=c.k, random_state=1)
    mf.fit_with(g, m2, d, c, cb)
    mu, bu, bi, p, q = mf.params_of(m2, c)
    reg = 0.5 * c.C * (np.sum(bu ** 2) + np.sum(bi ** 2) + np.sum(p ** 2) +
                       np.sum(q ** 2))
    if which == 'PMF':
        ref = 0.5 * np.sum((c.sc - m2.raw_predict(c.pairs)) ** 2) + reg
        g.close(box2['f'], ref, 'loss in terms of predictions', rtol=1e-6)
    elif inside(lay, box['v'], c) and \
            np.max(mf.linear(lay.split(box['v']), *mf.grid(c))) < 20:
        if which == 'LogisticPMF':
            y, s = c.sc, m2.raw_predict(c.pairs)
        else:
            u, i = mf.grid(c)
            y, s = c.mat[u, i], m2.raw_predict(np.c_[u, i])
        ref = -np.sum(y * np.log(s) + (1 - y) * np.log(1 - s)) + reg
        g.close(box2['f'], ref, 'loss in terms of predictions', rtol=1e-5)


def case_pmf(g):
    loss_ok(g, 'PMF')


def case_lpmf(g):
    loss_ok(g, 'LogisticPMF')


def case_ilpmf(g):
    loss_ok(g, 'ImplicitLogisticPMF')


FAMILIES = [(case_pmf, 1), (case_lpmf, 1), (case_ilpmf, 1)]
