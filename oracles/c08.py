import numpy as np
from .gens import *
from . import mf


_stub = []


def stub():
    if not _stub:
        from kamrecsys.base import BaseEventRecommender

        class Stub(BaseEventRecommender):
            def raw_predict(self, ev):
                ev = np.asarray(ev)
                w = np.array([1.0, 100.5, 10000.25, 1000000.75, 3e7, 7e8])
                return np.sum((ev + 0.125) * w[:ev.shape[1]], axis=1) + \
                    0.001 * np.prod(ev + 1.0, axis=1)

            def fit(self, data, event_index=None):
                super(Stub, self).fit(data, event_index)
                return self
        _stub.append(Stub)
    return _stub[0]()


def ref_internal(c, ev, new):
    out = np.empty((len(new), len(c.idx)), dtype=int)
    for j, e in enumerate(c.idx):
        ref = ref_ids(ev, c.types, c.types[e])
        for i, x in enumerate(np.asarray(new)[:, e].tolist()):
            out[i, j] = ref.index(x) if x in ref else len(ref)
    return out


def mixture(g, c, ev, m):
    unk = unknown_ids(g, ev, 5) or [10 ** 6]
    rows = []
    for _ in range(m):
        row = []
        for t in c.types:
            ref = ref_ids(ev, c.types, t)
            r = g.rng.rand()
            if r < 0.55 and ref:
                row.append(g.choice(ref))
            elif r < 0.85:
                row.append(g.choice(unk))
            else:
                row.append(g.choice(ev.ravel().tolist()))
        rows.append(row)
    return np.array(rows, dtype=int)


def check_predict(g, predict, expected, new, what):
    before = np.array(new)
    got = predict(new)
    g.chk(np.shape(got) == ((len(new),) if len(new) > 1 else ()),
          what + ': shape of the predictions', got=np.shape(got),
          events=len(new))
    g.close(np.ravel(got), expected, what + ': predicted scores')
    g.same(new, before, 'predict changed its argument')
    for i in range(len(new)):
        one = predict(new[i])
        g.chk(np.ndim(one) == 0, what + ': a single event gives a scalar',
              got=one)
        g.close(one, expected[i], what + ': single event')
    if len(new) > 1:
        o = g.rng.permutation(len(new))
        g.close(np.ravel(predict(new[o])), expected[o],
                what + ': permuted events')
        g.close(np.ravel(predict(new.tolist())), expected,
                what + ': events as a list')


def case_stub(g):
    from kamrecsys.data import EventData
    c = gen_types(g)
    ev = gen_events(g, c, ids=g.int(0, 1))
    d = EventData(c.n_otypes, c.event_otypes)
    d.set_event(ev)
    kind = g.int(0, 3)
    if kind == 0:
        c.idx, arg = list(range(c.s)), None
    else:
        c.idx = [int(i) for i in g.rng.permutation(c.s)[:g.int(1, c.s)]]
        if kind == 1 and g.flip(0.3):
            c.idx = c.idx + [c.idx[0]]
        arg = [tuple, list, np.array][kind - 1](c.idx)
    g.note(n_otypes=c.n_otypes, types=c.types, events=ev.tolist(),
           event_index=c.idx)
    r = stub()
    r.fit(d, arg)
    # the training events are the chosen columns
    ref = ref_internal(c, ev, ev)
    tev, nobj = r.get_event()
    g.same(tev, ref, 'training events are the chosen columns')
    g.same(nobj, [len(ref_ids(ev, c.types, c.types[e])) for e in c.idx],
           'numbers of objects of the chosen columns')
    new = mixture(g, c, ev, g.int(1, 6))
    g.note(new=new.tolist())
    check_predict(g, r.predict, r.raw_predict(ref_internal(c, ev, new)), new,
                  'stub')
    if g.flip():
        r.remove_data()
        check_predict(g, r.predict,
                      r.raw_predict(ref_internal(c, ev, new)), new,
                      'stub after remove_data')


def case_models(g):
    m, d, ev, sc, c = mf.make(g)
    c.idx = list(c.index)
    mf.fit_with(g, m, d, c, lambda f, df, x0, b: result(
        g.rng.randn(len(x0)), 1.0))
    new = mixture(g, c, ev, g.int(1, 5))
    g.note(new=new.tolist())
    iev = ref_internal(c, ev, new)
    check_predict(g, m.predict, m.raw_predict(iev), new, c.which)


def case_plsa(g):
    from kamrecsys.score_predictor import MultinomialPLSA
    d, ev, sc, c = gen_rec_data(g)
    c.idx = list(c.index)
    m = MultinomialPLSA(k=g.int(1, 3), random_state=g.int(0, 999), maxiter=2)
    m.fit(d, **c.fit_kw)
    new = mixture(g, c, ev, g.int(1, 5))
    g.note(new=new.tolist())
    check_predict(g, m.predict, m.raw_predict(ref_internal(c, ev, new)), new,
                  'MultinomialPLSA')


FAMILIES = [(case_stub, 4), (case_models, 2), (case_plsa, 1)]
