"""C04 Filtering events equals rebuilding the data set from the kept events"""
from .common import *
import numpy as np


def filtered(h, cls, cond):
    """the filtered container against a new container that stores the kept
    events, in the selected order"""
    d = dataset(h, cls)
    N = d.N
    if cond == 'boolean':
        b = lambda i: app('cond', (to_term(i),), 'B')
        a = Arr.make([N], lambda i: b(*i), 'b')
    else:
        L = h.int('L', 0)
        a = h.array('sel', [L], 'i', lo=0, hi=N)
    f = h.method(d.data, 'filter_event', a)
    ev = h.attr(f, 'event')
    return d, a, f, ev


def rebuilt(h, cls, cond):
    d, a, f, ev = filtered(h, cls, cond)
    h.ensure('kind of the container', TRUE if f.cls is cls else FALSE)
    L = ev.shape[0]
    # the kept events with external ids
    if cond == 'boolean':
        kept = h.call(np.nonzero, a)[0]
        h.lemma('one row per kept event', eq(kept.shape[0], L))
    else:
        kept = a
        h.lemma('one row per selected event', eq(L, a.shape[0]))
    row = kept.fn()
    x = lambda i, e: d.eid(d.ot(e), d.ev(tonum(row([i])), e))
    xa = Arr.make([L, d.S], lambda i: x(*i), 'E')
    o = h.call(cls, n_otypes=d.K, event_otypes=d.a_ot)
    more = []
    if cls is EventWithScoreData:
        more = [h.array('sc2', [L]), PList([ONE, num(5), ONE])]
    h.method(o, 'set_event', xa, *more)
    t = h.int('t', 0, d.K)
    n1, E1, D1 = tables_of(h, f, d.K, d.S, d.ot, x, L, t)
    n2, E2, D2 = tables_of(h, o, d.K, d.S, d.ot, x, L, t)
    f1, f2 = E1.fn(), E2.fn()
    k = fresh('k', 'E')
    h.lemma('ids known to the filtered container', forall([k], imp(
        D1.dom(k), D2.dom(k))))
    h.lemma('ids known to the rebuilt container', forall([k], imp(
        D2.dom(k), D1.dom(k))))
    for n, m, p, q, D in ((n1, n2, f1, f2, D2), (n2, n1, f2, f1, D1)):
        i = fresh('i', 'I')
        h.lemma('listed in the other table', forall([i], imp(
            and_(le(ZERO, i), lt(i, n)), and_(
                le(ZERO, D.val(p([i]))), lt(D.val(p([i])), m),
                eq(q([D.val(p([i]))]), p([i]))))))
    h.induction('the same external ids in both tables', n1, lambda i: imp(
        lt(i, n2), eq(f1([i]), f2([i]))))
    for a, b, q, D in ((n1, n2, f2, D1), (n2, n1, f1, D2)):
        # b > a would mean one more id
        k = q([a])
        c = lt(a, b)
        h.lemma('an additional id would be known', imp(c, D.dom(k)))
        h.lemma('and would be in both tables', imp(c, and_(
            le(ZERO, D.val(k)), lt(D.val(k), a),
            eq(q([D.val(k)]), k))))
        h.lemma('and would be listed twice', imp(c, ltE(
            q([D.val(k)]), k)))
        h.lemma('hence there is none', not_(c))
    h.lemma('numbers of objects', eq(n1, n2))
    h.elements('external ids', E1, [n2], lambda i: f2([i]))
    k = fresh('k', 'E')
    h.lemma('internal ids', forall([k], imp(D1.dom(k), eq(
        D1.val(k), D2.val(k)))))
    h.shape('event', ev, [L, d.S])
    g, r = ev.fn(), h.attr(o, 'event').fn()
    h.ensure('events of this type', h.all([L, d.S], lambda i, e: imp(
        eq(d.ot(e), t), eq(tonum(g([i, e])), tonum(r([i, e]))))))
    h.same('number of events', h.attr(f, 'n_events'), L)
    h.elements('types', h.attr(f, 'event_otypes'), [d.S], lambda e: d.ot(e))
    h.same('event size', h.attr(f, 's_event'), d.S)
    h.same('number of types', h.attr(f, 'n_otypes'), d.K)


def nothing(h, cls):
    d = dataset(h, cls)
    o = h.call(cls, n_otypes=d.K, event_otypes=d.a_ot)
    a = h.array('sel', [h.int('L', 0)], 'i')
    h.ensure('None', TRUE if h.method(o, 'filter_event', a) is None
             else FALSE)


for _c in (EventData, EventWithScoreData):
    for _b in ('boolean', 'index'):
        contract('%s.filter_event, %s' % (_c.__name__, _b))(
            lambda h, c=_c, b=_b: rebuilt(h, c, b))
    contract('%s.filter_event, no events' % _c.__name__)(
        lambda h, c=_c: nothing(h, c))
