"""shared parts of the matrix-factorization properties"""
import numpy as np
from .gens import *
from .core import Violation

EPS = 34.538776394910684


def sig(x):
    x = np.clip(np.asarray(x, dtype=float), -EPS, EPS)
    return 1. / (1. + np.exp(-x))


def make(g, which=None, min_n=1, **kw):
    """an unfitted model with data: model, data, events, scores, cfg"""
    from kamrecsys.score_predictor import PMF
    from kamrecsys.item_finder import LogisticPMF, ImplicitLogisticPMF
    which = which or g.choice(['PMF', 'LogisticPMF', 'ImplicitLogisticPMF'])
    k = g.int(1, 4)
    C = g.choice([0.01, 1.0, 0.3, 5, 2.5])
    cls = {'PMF': PMF, 'LogisticPMF': LogisticPMF,
           'ImplicitLogisticPMF': ImplicitLogisticPMF}[which]
    seed = g.int(0, 10 ** 6)
    m = cls(C=C, k=k, random_state=seed, **kw)
    if which == 'PMF':
        d, ev, sc, c = gen_rec_data(g, min_n=min_n)
    elif which == 'LogisticPMF':
        d, ev, sc, c = gen_rec_data(g, binary=True, min_n=min_n)
    else:
        from kamrecsys.data import EventData
        d, ev, sc, c = gen_rec_data(g, min_n=min_n)
        if g.flip():
            d = EventData(c.n_otypes, c.event_otypes)
            d.set_event(ev)
    c.which, c.k, c.C = which, k, C
    g.note(model=which, k=k, C=C, random_state=seed)
    # reference: known ids of the two columns, internal pairs
    c.ids = [ref_ids(ev, c.types, c.types[i]) for i in c.index]
    c.pairs = np.array([[c.ids[j].index(x) for x in ev[:, i].tolist()]
                        for j, i in enumerate(c.index)]).T
    c.nu, c.ni = len(c.ids[0]), len(c.ids[1])
    c.size = 1 + (c.nu + c.ni) * (1 + k)
    c.sc = np.asarray(sc, dtype=float)
    c.mat = np.zeros((c.nu, c.ni))
    c.mat[c.pairs[:, 0], c.pairs[:, 1]] = 1
    return m, d, ev, sc, c


def params_of(m, c):
    """learned parameters of the known objects"""
    return (np.asarray(m.mu_).ravel()[0], np.asarray(m.bu_)[:c.nu],
            np.asarray(m.bi_)[:c.ni], np.asarray(m.p_)[:c.nu],
            np.asarray(m.q_)[:c.ni])


class Layout(object):
    """which component of the parameter vector is which parameter"""

    def __init__(self, g, m, c, x):
        v = np.asarray(x, dtype=float)
        pos = {float(t): i for i, t in enumerate(v)}
        if len(pos) != len(v):
            raise RuntimeError('probe values are not distinct')

        def at(a, what, shape):
            a = np.asarray(a, dtype=float)
            if a.shape != shape:
                g.note(got=a.shape, expected=shape)
                raise Violation('shape of the learned ' + what)
            out = np.empty(shape, dtype=int)
            for i in np.ndindex(*shape):
                if float(a[i]) not in pos:
                    g.note(parameter=what, index=i, got=a[i])
                    raise Violation('a learned parameter is not a value '
                                    'returned by the optimizer')
                out[i] = pos[float(a[i])]
            return out
        mu, bu, bi, p, q = params_of(m, c)
        self.mu = at([mu], 'mu_', (1,))
        self.bu = at(bu, 'bu_', (c.nu,))
        self.bi = at(bi, 'bi_', (c.ni,))
        self.p = at(p, 'p_', (c.nu, c.k))
        self.q = at(q, 'q_', (c.ni, c.k))
        allp = np.concatenate([x.ravel() for x in (
            self.mu, self.bu, self.bi, self.p, self.q)])
        if sorted(allp.tolist()) != list(range(len(v))):
            g.note(size=len(v), used=sorted(allp.tolist()))
            raise Violation('parameters and optimized values do not match '
                            'one to one')

    def split(self, x):
        x = np.asarray(x, dtype=float)
        return (x[self.mu[0]], x[self.bu], x[self.bi], x[self.p], x[self.q])


def linear(par, u, i):
    mu, bu, bi, p, q = par
    return mu + bu[u] + bi[i] + np.sum(p[u] * q[i], axis=-1)


def grid(c):
    u, i = np.meshgrid(np.arange(c.nu), np.arange(c.ni), indexing='ij')
    return u.ravel(), i.ravel()


def ref_loss(par, c):
    mu, bu, bi, p, q = par
    reg = 0.5 * c.C * (np.sum(bu ** 2) + np.sum(bi ** 2) + np.sum(p ** 2) +
                       np.sum(q ** 2))
    if c.which == 'PMF':
        e = c.sc - linear(par, c.pairs[:, 0], c.pairs[:, 1])
        return 0.5 * np.sum(e ** 2) + reg
    if c.which == 'LogisticPMF':
        u, i, y = c.pairs[:, 0], c.pairs[:, 1], c.sc
    else:
        u, i = grid(c)
        y = c.mat[u, i]
    z = linear(par, u, i)
    s = sig(z)
    return -np.sum(y * np.log(s) + (1 - y) * np.log(1 - s)) + reg


def ref_grad(par, c, lay, size):
    mu, bu, bi, p, q = par
    if c.which == 'PMF':
        u, i = c.pairs[:, 0], c.pairs[:, 1]
        r = linear(par, u, i) - c.sc
    elif c.which == 'LogisticPMF':
        u, i = c.pairs[:, 0], c.pairs[:, 1]
        r = sig(linear(par, u, i)) - c.sc
    else:
        u, i = grid(c)
        r = sig(linear(par, u, i)) - c.mat[u, i]
    gr = np.zeros(size)
    gr[lay.mu[0]] = np.sum(r)
    gbu, gbi = c.C * bu, c.C * bi
    gp, gq = c.C * p, c.C * q
    for a, b, x in zip(u, i, r):
        gbu[a] += x
        gbi[b] += x
        gp[a] += x * q[b]
        gq[b] += x * p[a]
    gr[lay.bu], gr[lay.bi], gr[lay.p], gr[lay.q] = gbu, gbi, gp, gq
    return gr


def probe(g, size):
    v = g.rng.permutation(size) + 1.0
    return v / 7.0 + 0.125


def fit_with(g, m, d, c, callback):
    with FakeOptimizer(callback) as fo:
        m.fit(d, **c.fit_kw)
    g.chk(fo.calls == 1, 'the optimizer is called once', calls=fo.calls)
    return m


def points(g, x0, size, scale=1.0):
    """parameter vectors at which objective functions are evaluated"""
    out = [np.array(x0)]
    for _ in range(3):
        out.append(g.rng.randn(size) * g.choice([0.1, 0.5, 1.0]) * scale)
    out.append(np.zeros(size))
    out.append(np.where(g.rng.rand(size) < 0.5, 0., g.rng.randn(size)))
    return out
