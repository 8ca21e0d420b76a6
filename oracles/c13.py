import numpy as np
from .gens import *


def setup(g, **kw):
    d, ev, sc, c = gen_rec_data(g)
    c.k = g.int(1, 4)
    c.alpha = g.choice([1.0, 0.1, 0.01, 2, 1, 5.5])
    c.seed = g.int(0, 10 ** 5)
    g.note(k=c.k, alpha=c.alpha, random_state=c.seed)
    c.ids = [ref_ids(ev, c.types, c.types[i]) for i in c.index]
    c.x = np.array([c.ids[0].index(v) for v in ev[:, c.index[0]].tolist()])
    c.y = np.array([c.ids[1].index(v) for v in ev[:, c.index[1]].tolist()])
    lo, hi, st = [float(v) for v in d.score_domain]
    c.m = int(round((hi - lo) / st)) + 1
    c.levels = np.linspace(lo, hi, c.m)
    c.r = np.array([int(np.argmin(np.abs(c.levels - s))) for s in sc])
    c.n = len(ev)
    return d, ev, sc, c


def model(c, hook=None, **kw):
    from kamrecsys.score_predictor import MultinomialPLSA

    class Hooked(MultinomialPLSA):
        def maximization_step(self, *a, **k):
            q = getattr(self, '_q', None)
            q = None if q is None else np.array(q)
            r = super(Hooked, self).maximization_step(*a, **k)
            hook(self, q)
            return r
    cls = Hooked if hook else MultinomialPLSA
    return cls(k=c.k, alpha=c.alpha, random_state=c.seed, **kw)


def tables(m):
    return tuple(np.array(getattr(m, a)) for a in (
        'pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_'))


def mstep(q, c):
    def cond(idx, n):
        t = np.zeros((n, c.k)) + c.alpha
        np.add.at(t, idx, q)
        return t / t.sum(axis=0, keepdims=True)
    pz = q.sum(axis=0) + c.alpha
    return (pz / pz.sum(), cond(c.x, len(c.ids[0])), cond(c.y, len(c.ids[1])),
            cond(c.r, c.m))


def joint(t, c):
    pz, px, py, pr = t
    return pz[None, :] * pr[c.r] * px[c.x] * py[c.y]


def estep(t, c):
    j = joint(t, c)
    return j / j.sum(axis=1, keepdims=True)


def nll(t, c):
    return -np.mean(np.log(joint(t, c).sum(axis=1)))


def valid(g, t, c, what, extra=False):
    names = ['pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_']
    shapes = [(c.k,), (len(c.ids[0]), c.k), (len(c.ids[1]), c.k), (c.m, c.k)]
    for n, a, s in zip(names, t, shapes):
        g.chk(a.shape == s, '%s: shape of %s' % (what, n), got=a.shape,
              expected=s)
        g.chk(np.all(a > 0), '%s: entries of %s are positive' % (what, n),
              table=a)
        g.close(a.sum(axis=0), np.ones(s[1:]) if len(s) > 1 else 1.0,
                '%s: %s sums to one' % (what, n))


def fitted_tables(g, m, c, what):
    t = tables(m)
    nx, ny = len(c.ids[0]), len(c.ids[1])
    g.chk(t[1].shape == (nx + 1, c.k) and t[2].shape == (ny + 1, c.k),
          what + ': one extra row for unknown users and items',
          got=(t[1].shape, t[2].shape))
    g.chk(np.all(t[1][nx] == 1) and np.all(t[2][ny] == 1),
          what + ': the extra rows are ones')
    t = (t[0], t[1][:nx], t[2][:ny], t[3])
    valid(g, t, c, what)
    return t


def tabs_close(g, a, b, what):
    for n, x, y in zip(['pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_'], a, b):
        g.close(x, y, '%s: %s' % (what, n), rtol=1e-6, atol=1e-9)


def case_steps(g):
    d, ev, sc, c = setup(g)
    T = g.int(1, 5)
    seq = []

    def hook(m, q):
        t = tables(m)
        valid(g, t, c, 'after a maximization step')
        if q is not None and q.shape == (c.n, c.k):
            tabs_close(g, t, mstep(q, c), 'maximization step')
        seq.append(t)
    tol = g.choice([1e-10, 1e-15, 0.0])
    m = model(c, hook, maxiter=T, tol=tol)
    m.fit(d, **c.fit_kw)
    for a, b in zip(seq, seq[1:]):
        tabs_close(g, b, mstep(estep(a, c), c), 'one iteration of EM')
    final = fitted_tables(g, m, c, 'after fitting')
    tabs_close(g, final, seq[-1], 'fitted tables are those of the last step')
    losses = [nll(t, c) for t in seq]
    fr = m.fit_results_
    g.close(fr['initial_loss'], losses[0], 'initial loss', rtol=1e-7)
    g.close(fr['final_loss'], losses[-1], 'final loss', rtol=1e-7)
    g.chk(fr['n_iterations'] == len(seq) - 1, 'number of iterations',
          got=fr['n_iterations'], expected=len(seq) - 1)


def case_stop(g):
    d, ev, sc, c = setup(g)
    T = g.choice([1, 2, 3, 5, 8, 30])
    seq = []
    tol = g.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-10, 0.5, 10.])
    probe = model(c, lambda m, q: seq.append(tables(m)), maxiter=T, tol=-1.)
    probe.fit(d, event_index=c.index_arg)
    losses = [nll(t, c) for t in seq]
    if any(abs(l) < 1e-9 for l in losses):
        return
    prec = [abs((b - a) / b) for a, b in zip(losses, losses[1:])]
    if g.flip(0.4) and prec:
        # a tolerance that is reached exactly at a chosen iteration
        j = g.int(0, len(prec) - 1)
        tol = prec[j] * 1.01 + 1e-13
    if any(abs(p - tol) < 1e-6 * tol + 1e-14 for p in prec):
        return
    hit = [i for i, p in enumerate(prec) if p < tol]
    n_ref = hit[0] + 1 if hit else T
    g.note(tol=tol, maxiter=T, precisions=prec)
    m = model(c, None, maxiter=T, tol=tol)
    m.fit(d, **c.fit_kw)
    fr = m.fit_results_
    g.chk(fr['n_iterations'] == n_ref, 'number of iterations',
          got=fr['n_iterations'], expected=n_ref)
    g.chk(fr['n_iterations'] <= T, 'at most the allowed iterations')
    g.chk(bool(fr['success']) == bool(hit), 'success exactly when the '
          'tolerance was reached', got=fr['success'], expected=bool(hit))
    g.chk((int(fr['status']) == 0) == bool(hit), 'status', got=fr['status'])
    t = fitted_tables(g, m, c, 'after fitting')
    g.close(fr['final_loss'], nll(t, c), 'final loss is that of the fitted '
            'tables', rtol=1e-7)
    g.close(fr['final_loss'], losses[n_ref], 'final loss', rtol=1e-6)
    g.close(fr['initial_loss'], losses[0], 'initial loss', rtol=1e-6)
    for key, val in [('n_users', len(c.ids[0])), ('n_items', len(c.ids[1])),
                     ('n_events', c.n)]:
        g.chk(int(fr[key]) == val, key, got=fr[key], expected=val)


def case_refit(g):
    """a second fit reports the second run"""
    d, ev, sc, c = setup(g)
    T = g.int(1, 6)
    tol = g.choice([10., 0.5, 1e-1, 1e-2, 1e-3, 1e-6, 1e-12])
    e = d.filter_event(np.arange(c.n) < g.int(1, c.n))
    g.note(maxiter=T, tolerance=tol, events_of_the_first_fit=e.n_events)
    m = model(c, None, maxiter=T, tol=tol)
    m.fit(e, **c.fit_kw)
    m.fit(d, **c.fit_kw)
    n = model(c, None, maxiter=T, tol=tol)
    n.fit(d, event_index=c.index_arg)
    fitted_tables(g, m, c, 'after a second fit')
    for k in ('success', 'status', 'n_iterations', 'n_events'):
        g.chk(m.fit_results_[k] == n.fit_results_[k],
              'second fit: ' + k, got=m.fit_results_[k],
              expected=n.fit_results_[k])
    for k in ('initial_loss', 'final_loss'):
        g.close(m.fit_results_[k], n.fit_results_[k], 'second fit: ' + k,
                rtol=1e-9)
    for a, b in zip(tables(m), tables(n)):
        g.close(a, b, 'second fit: tables', rtol=1e-9)


FAMILIES = [(case_steps, 2), (case_stop, 2), (case_refit, 1)]
