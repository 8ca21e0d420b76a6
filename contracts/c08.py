"""C08 Prediction for a list of events is per event, with the right columns
and types"""
from .common import *
from .mf import *
from kamrecsys.base import BaseEventRecommender
from kamrecsys.score_predictor import MultinomialPLSA
from kamrecsys.score_predictor.base import BaseScorePredictor
from kamrecsys.item_finder.base import BaseImplicitItemFinder


def fitted(h, base, cls, two):
    """fit keeps the tables of the data and selects the columns"""
    d = dataset(h, EventWithScoreData, min_events=1)
    m = h.call(cls)
    if two:
        c0, c1 = h.int('c0', 0, d.S), h.int('c1', 0, d.S)
        args, cols = [PList([c0, c1])], [c0, c1]
    else:
        args, cols = [], [ZERO, ONE]
        h.assume(le(num(2), d.S))
    h.call(base.fit, m, d.data, *args)
    ix = h.attr(m, 'event_index')
    h.elements('columns', ix, [2], lambda i: ite(eq(i, ZERO), *cols))
    col = lambda e: ite(eq(e, ZERO), *cols)
    h.elements('events of the model', h.attr(m, 'event'), [d.N, num(2)],
               lambda i, e: d.ev(i, col(e)))
    h.elements('numbers of objects of the model', h.attr(m, 'n_objects'),
               [2], lambda e: d.n(d.ot(col(e))))
    h.elements('types', h.attr(m, 'event_otypes'), [d.S], lambda e: d.ot(e))
    h.same('event size', h.attr(m, 's_event'), d.S)
    t = h.int('t', 0, d.K)
    E, D = (h.item(h.attr(m, n), t) for n in ('eid', 'iid'))
    h.elements('external ids', E, [d.n(t)], lambda i: d.eid(t, i))
    k = fresh('k', 'E')
    h.ensure('known ids', forall([k], and_(
        eq(D.dom(k), d.known(t, k)),
        imp(D.dom(k), eq(D.val(k), d.iid(t, k))))))
    h.unchanged('events of the data', d.a_ev, lambda i: d.ev(*i))
    h.unchanged('numbers of objects of the data', d.a_n, lambda i: d.n(*i))


def predicting(h, cls, base, nd, L):
    """predict calls the model once, on the internal ids of the selected
    columns, and returns its answers in order.  That the answer for a row
    depends on this row only is the contract of raw_predict (C09, C14)."""
    d = dataset(h, EventWithScoreData, min_events=1)
    m = h.call(cls)
    if L is None:
        L = h.int('L', 1)
        cols = h.array('col', [L], 'i', lo=0, hi=d.S)
        col = h.fun('col', 'I')
        args = [cols]
    else:
        h.assume(le(num(2), d.S))
        args, col, L = [], lambda e: e, num(2)
    h.call(base.fit, m, d.data, *args)
    # the caller's data set may change afterwards
    M = h.int('M', 1)
    x = lambda *i: app('x', tuple(to_term(j) for j in i), 'E')
    if nd == 1:
        a = Arr.make([d.S], lambda i: x(ZERO, *i), 'E')
        M = ONE
    else:
        a = Arr.make([M, d.S], lambda i: x(*i), 'E')
    seen = []

    def raw(args, kw):
        ev, = args
        seen.append((ev, ev.fn()))
        return h.array('answer', [ev.shape[0]])
    m.attrs['raw_predict'] = Opaque('raw_predict', {'__call__': raw})
    out = h.method(m, 'predict', a)

    def iid(i, c):
        k = x(i, c)
        return ite(d.known(d.ot(c), k), d.iid(d.ot(c), k), d.n(d.ot(c)))
    h.ensure('the model is applied once', TRUE if len(seen) == 1 else FALSE)
    ev, g = seen[0]
    h.shape('events for the model', ev, [M, L])
    h.ensure('events for the model are the internal ids', h.all(
        [M, L], lambda i, e: eq(tonum(g([i, e])), iid(i, col(e)))))
    want = h.fun('answer')
    if nd == 1:
        h.ensure('a scalar', TRUE if is_scalar(out) or
                 isinstance(out, Arr) and not out.shape else FALSE)
        h.same('prediction', out, want(ZERO))
    elif isinstance(out, Arr) and out.shape:
        h.elements('predictions', out, [M], want)
    else:
        h.same('a scalar for a single event only', M, ONE)
        h.same('prediction', out, want(ZERO))
    h.unchanged('argument', a, lambda i: x(*((ZERO,) * (2 - nd) + tuple(i))))


for _t in (False, True):
    contract('fit, %s columns' % ('any two' if _t else 'default'))(
        lambda h, t=_t: fitted(h, BaseScorePredictor, PMF, t))
for _c in (PMF, LogisticPMF, ImplicitLogisticPMF, MultinomialPLSA):
    _b = {LogisticPMF: BaseEventRecommender,
          ImplicitLogisticPMF: BaseImplicitItemFinder}.get(
              _c, BaseScorePredictor)
    for _d in (1, 2):
        for _l in (None, 2):
            if _b is not BaseScorePredictor and _l == 2:
                continue
            contract('%s.predict, %s, %s columns' % (
                _c.__name__, 'list of events' if _d == 2 else 'one event',
                'any' if _l is None else 'default'))(
                lambda h, c=_c, b=_b, d=_d, l=_l: predicting(h, c, b, d, l))
