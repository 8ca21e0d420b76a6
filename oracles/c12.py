import numpy as np
from .gens import *
from . import mf
from .c08 import mixture


def case_results(g):
    kw = {}
    opts = None
    if g.flip():
        opts = {'gtol': 1e-4, 'maxiter': g.int(1, 30)}
        kw['options'] = opts
    if g.flip(0.4):
        kw['tol'] = 1e-3
    if g.flip(0.4):
        kw['maxiter'] = g.int(1, 9)
    if g.flip(0.3):
        kw['method'] = g.choice(['CG', 'L-BFGS-B', 'BFGS'])
    opts0, kw0 = snapshot(opts), snapshot(kw)
    m, d, ev, sc, c = mf.make(g, **kw)
    g.note(optimizer_kwargs=kw0)
    before = attrs(d, DATA_ATTRS)
    box = {}
    res = dict(success=g.flip(), status=g.int(0, 3), nit=g.int(0, 99),
               nfev=g.int(0, 99), njev=g.int(0, 99), message='msg %d' %
               g.int(0, 9))
    fval = float(g.rng.rand() * 10)

    def cb(f, df, x0, b):
        box['x0'] = x0.copy()
        box['f0'] = float(f(x0.copy()))
        box['v'] = mf.probe(g, len(x0))
        box['b'] = b
        # the vector handed over may be scratch space of the optimizer
        return result(box['v'].copy(), fval, **res)
    mf.fit_with(g, m, d, c, cb)
    mf.Layout(g, m, c, box['v'])
    fr = m.fit_results_
    for key, val in [('n_users', c.nu), ('n_items', c.ni),
                     ('n_events', len(ev)), ('n_parameters', c.size),
                     ('status', res['status'])]:
        g.chk(int(fr[key]) == val, 'fit_results_[%r]' % key, got=fr[key],
              expected=val)
    g.chk(bool(fr['success']) == res['success'], 'fit_results_ success')
    g.close(fr['final_loss'], fval, 'final loss', rtol=0)
    g.close(fr['initial_loss'], box['f0'],
            'initial loss is the loss at the start', rtol=1e-10)
    lay = mf.Layout(g, m, c, box['v'])
    g.close(fr['initial_loss'], mf.ref_loss(lay.split(box['x0']), c),
            'initial loss', rtol=1e-6)
    g.chk(equal_deep(before, attrs(d, DATA_ATTRS)),
          'fitting changed the data set')
    g.chk(equal_deep(opts0, opts), "fitting changed the caller's options",
          got=opts)
    g.chk(equal_deep(kw0, kw), "fitting changed the caller's arguments",
          got=kw)
    o = box['b'].get('options') or {}
    if 'maxiter' in kw0:
        g.chk(o.get('maxiter') == kw0['maxiter'], 'maxiter is passed on')
    elif opts0:
        g.chk(o.get('maxiter') == opts0['maxiter'], 'options are passed on')
    if opts0:
        g.chk(o.get('gtol') == opts0['gtol'], 'options are passed on')
    if 'method' in kw0:
        g.chk(box['b'].get('method') == kw0['method'], 'method is passed on')
    if 'tol' in kw0:
        g.chk(box['b'].get('tol') == kw0['tol'], 'tol is passed on')
    g.chk(m.event is None, 'training events are discarded')
    if hasattr(m, 'score'):
        g.chk(m.score is None, 'training scores are discarded')
    for t in range(c.n_otypes):
        for i, e in enumerate(ref_ids(ev, c.types, t)):
            g.chk(m.to_iid(t, e) == i and m.to_eid(t, i) == e,
                  'id tables are kept')


def case_independent(g):
    m, d, ev, sc, c = mf.make(g)
    mf.fit_with(g, m, d, c, lambda f, df, x0, b: result(
        g.rng.randn(len(x0)), 1.0))
    new = mixture(g, c, ev, 6)
    ref = np.array(m.predict(new))
    kept = [np.array(m.eid[t]) for t in range(c.n_otypes)]
    fr = snapshot(m.fit_results_)
    what = g.int(0, 4)
    g.note(later=what, new=new.tolist())
    if what == 0:
        ev2 = gen_events(g, c, ids=1)
        if hasattr(d, 'score'):
            d.set_event(ev2, np.ones(len(ev2)), (0, 1, 1))
        else:
            d.set_event(ev2)
    elif what == 1:
        d.n_objects[...] = 1
        for t in range(c.n_otypes):
            d.eid[t] = None
            d.iid[t] = {}
    elif what == 2:
        d.event[...] = 0
        d.n_objects += 3
        if getattr(d, 'score', None) is not None:
            d.score[...] = 0
    elif what == 3:
        e = d.filter_event(np.arange(d.n_events) == 0)
        e.event[...] = 0
        if hasattr(d, 'binarize_score'):
            d.binarize_score()
    else:
        # fitting another model to the same data
        m2 = type(m)(C=1.0, k=2, random_state=3)
        mf.fit_with(g, m2, d, c, lambda f, df, x0, b: result(
            g.rng.randn(len(x0)), 2.0))
    g.close(m.predict(new), ref, 'later changes of the data changed the '
            'predictions', rtol=0, atol=0)
    for t in range(c.n_otypes):
        g.same(m.eid[t], kept[t], 'later changes of the data changed the '
               'id tables')
    g.chk(equal_deep(fr, m.fit_results_), 'fitting results changed')


def case_refit(g):
    """a second fit describes the second run"""
    m, d, ev, sc, c = mf.make(g)
    mf.fit_with(g, m, d, c, lambda f, df, x0, b: result(
        g.rng.randn(len(x0)), 1.0))
    box = {}

    def cb(f, df, x0, b):
        box['v'] = mf.probe(g, len(x0))
        return result(box['v'], 2.5)
    from kamrecsys.data import EventWithScoreData, EventData
    if g.flip():
        keep = np.arange(len(ev))[:max(2, len(ev) // 2)]
        d2 = d.filter_event(keep)
        ev = ev[keep]
        if c.which == 'LogisticPMF' and len(np.unique(d2.score)) < 2:
            return
        c.ids = [ref_ids(ev, c.types, c.types[i]) for i in c.index]
        c.nu, c.ni = len(c.ids[0]), len(c.ids[1])
        c.size = 1 + (c.nu + c.ni) * (1 + c.k)
    else:
        d2 = d
    mf.fit_with(g, m, d2, c, cb)
    mf.Layout(g, m, c, box['v'])
    g.chk(int(m.fit_results_['n_events']) == len(ev), 'n_events after refit')
    g.chk(int(m.fit_results_['n_parameters']) == c.size,
          'n_parameters after refit')
    g.close(m.fit_results_['final_loss'], 2.5, 'final loss after refit')


def case_real(g):
    """with the real optimizer"""
    opts = {'maxiter': g.int(1, 4)}
    m, d, ev, sc, c = mf.make(g, options=opts)
    before = attrs(d, DATA_ATTRS)
    box = {}

    def cb(f, df, x0, b):
        return None
    import scipy.optimize as so
    real = so.minimize
    seen = []

    def spy(f, df, x0, b):
        r = real(f, x0, jac=df, method=b.get('method'), tol=b.get('tol'),
                 options=b.get('options'))
        seen.append((np.array(r.x), float(r.fun), float(f(x0.copy())),
                     float(f(np.array(r.x)))))
        return r
    mf.fit_with(g, m, d, c, spy)
    x, fun, f0, fx = seen[0]
    par = mf.params_of(m, c)
    vals = np.sort(np.concatenate([np.ravel(v) for v in par]))
    g.close(vals, np.sort(x), 'learned parameters', rtol=0, atol=0)
    g.close(m.fit_results_['final_loss'], fx, 'final loss', rtol=1e-9)
    g.close(m.fit_results_['initial_loss'], f0, 'initial loss', rtol=1e-9)
    g.chk(opts == {'maxiter': opts['maxiter']}, 'options were changed')
    g.chk(equal_deep(before, attrs(d, DATA_ATTRS)),
          'fitting changed the data set')


FAMILIES = [(case_results, 3), (case_independent, 2), (case_refit, 1),
            (case_real, 1)]
