import numpy as np
from .gens import *


_stub = []


def stub():
    if not _stub:
        from kamrecsys.item_finder import BaseImplicitItemFinder

        class Stub(BaseImplicitItemFinder):
            def raw_predict(self, ev):
                return np.zeros(len(ev))
        _stub.append(Stub)
    return _stub[0]()


def case_matrix(g):
    d, ev, sc, c = gen_rec_data(g)
    if g.flip():
        ev = ev[g.rng.randint(0, len(ev), size=len(ev) + g.int(0, 5))]
        from kamrecsys.data import EventData
        d = EventData(c.n_otypes, c.event_otypes)
        d.set_event(ev)
        g.note(events2=ev.tolist())
    ids = [ref_ids(ev, c.types, c.types[i]) for i in c.index]
    ref = np.zeros((len(ids[0]), len(ids[1])), dtype=int)
    for row in ev.tolist():
        ref[ids[0].index(row[c.index[0]]), ids[1].index(row[c.index[1]])] = 1
    r = stub()
    r.fit(d, event_index=c.index_arg)
    from scipy import sparse
    kinds = {'csr': sparse.isspmatrix_csr, 'csc': sparse.isspmatrix_csc,
             'lil': sparse.isspmatrix_lil,
             'array': lambda a: isinstance(a, np.ndarray)}
    for k in ['csr', 'csc', 'lil', 'array', None]:
        a, n = r.get_event_array() if k is None else r.get_event_array(k)
        if k is not None:
            g.chk(kinds[k](a), 'storage type', asked=k, got=type(a).__name__)
        g.chk(a.shape == ref.shape, 'one row per user, one column per item',
              got=a.shape, expected=ref.shape, storage=k)
        b = a if isinstance(a, np.ndarray) else a.toarray()
        g.note(storage=k)
        g.same(b, ref, 'implicit-feedback matrix')
        if not isinstance(a, np.ndarray):
            g.chk(a.count_nonzero() == ref.sum(), 'number of entries')
        g.same(n, ref.shape, 'numbers of users and items')
    for bad in ['coo', 'dense', '', 'CSR', None, 3, 'dok', 'arra', 'cs']:
        g.note(storage=bad)
        g.raises(TypeError, lambda: r.get_event_array(bad),
                 'an unsupported storage type was accepted')


def case_in_fit(g):
    """the training of the implicit model uses that matrix: repeated events
    do not count"""
    from . import mf
    m, d, ev, sc, c = mf.make(g, 'ImplicitLogisticPMF')
    out = []

    def cb(f, df, x0, b):
        x = np.linspace(-0.4, 0.5, len(x0))
        out.append(float(f(x)))
        return result(x, 1.0)
    mf.fit_with(g, m, d, c, cb)
    rep = ev[np.r_[np.arange(len(ev)), g.rng.randint(0, len(ev), size=4)]]
    rep = rep[g.rng.permutation(len(rep))]
    from kamrecsys.data import EventData
    d2 = EventData(c.n_otypes, c.event_otypes)
    d2.set_event(rep)
    m2 = type(m)(C=c.C, k=c.k, random_state=1)
    mf.fit_with(g, m2, d2, c, cb)
    g.note(repeated=rep.tolist())
    g.close(out[1], out[0], 'repeated events changed the objective')


FAMILIES = [(case_matrix, 3), (case_in_fit, 1)]
