import numpy as np
from .gens import *
from . import mf
from .c08 import mixture, ref_internal


def case_formula(g):
    m, d, ev, sc, c = mf.make(g)
    c.idx = list(c.index)
    box = {}

    def cb(f, df, x0, b):
        box['x'] = g.rng.randn(len(x0)) + 0.1
        return result(box['x'], 1.0)
    mf.fit_with(g, m, d, c, cb)
    par = mf.params_of(m, c)
    vals = np.sort(np.concatenate([np.ravel(x) for x in par]))
    g.close(vals, np.sort(box['x']), 'the parameters are those learned',
            rtol=0, atol=0)
    new = mixture(g, c, ev, g.int(1, 8))
    if g.flip(0.4):
        # every pair of known and one unknown
        us = c.ids[0] + unknown_ids(g, ev, 1)
        its = c.ids[1] + unknown_ids(g, ev, 1)
        new = np.zeros((len(us) * len(its), c.s), dtype=int)
        new[:, c.index[0]] = np.repeat(us, len(its))
        if c.index[0] != c.index[1]:
            new[:, c.index[1]] = np.tile(its, len(us))
    g.note(new=new.tolist())
    iev = ref_internal(c, ev, new)
    mu, bu, bi, p, q = par
    exp = np.empty(len(new))
    for r, (u, i) in enumerate(iev):
        z = mu
        if u < c.nu:
            z = z + bu[u]
        if i < c.ni:
            z = z + bi[i]
        if u < c.nu and i < c.ni:
            z = z + float(np.dot(p[u], q[i]))
        exp[r] = z if c.which == 'PMF' else mf.sig(z)
    g.close(np.ravel(m.predict(new)), exp, 'prediction formula of ' + c.which)
    g.close(m.raw_predict(iev), exp, 'raw prediction of ' + c.which)


def case_real_fit(g):
    """the same after a run of the real optimizer"""
    m, d, ev, sc, c = mf.make(g, maxiter=2)
    c.idx = list(c.index)
    m.fit(d, **c.fit_kw)
    mu, bu, bi, p, q = mf.params_of(m, c)
    u, i = mf.grid(c)
    z = mf.linear((mu, bu, bi, p, q), u, i)
    exp = z if c.which == 'PMF' else mf.sig(z)
    g.close(m.raw_predict(np.c_[u, i]), exp, 'prediction formula')
    unk = m.raw_predict(np.array([[c.nu, c.ni]]))
    g.close(np.ravel(unk), [mu if c.which == 'PMF' else mf.sig(mu)],
            'unknown user and item')


FAMILIES = [(case_formula, 5), (case_real_fit, 1)]
