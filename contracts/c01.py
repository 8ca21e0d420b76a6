"""C01 External and internal object ids form exact one-to-one tables"""
from .common import *


def store(h, cls, default):
    K, N = h.int('K', 1), h.int('N', 1)
    if default:
        S, args = K, {}
        otf = lambda e: to_term(e)
    else:
        S, ot = types(h, K)
        args = dict(event_otypes=ot)
        otf = lambda e: app('otype', (to_term(e),), 'I')
    o = h.call(cls, n_otypes=K, **args)
    x = lambda *i: app('x', tuple(to_term(j) for j in i), 'E')
    a = Arr.make([N, S], lambda i: x(*i), 'E')
    more = [] if cls is EventData else [
        h.array('sc', [N]), PList([ONE, num(5), ONE])]
    h.method(o, 'set_event', a, *more)
    tables_of(h, o, K, S, otf, x, N)


def again(h):
    """storing other events replaces the tables"""
    K, N, N0 = h.int('K', 1), h.int('N', 1), h.int('N0', 1)
    S, ot = types(h, K)
    otf = lambda e: app('otype', (to_term(e),), 'I')
    o = h.call(EventData, n_otypes=K, event_otypes=ot)
    x = lambda *i: app('x', tuple(to_term(j) for j in i), 'E')
    y = lambda *i: app('y', tuple(to_term(j) for j in i), 'E')
    h.method(o, 'set_event', Arr.make([N0, S], lambda i: y(*i), 'E'))
    h.method(o, 'set_event', Arr.make([N, S], lambda i: x(*i), 'E'))
    tables_of(h, o, K, S, otf, x, N)


def lookup(h):
    """conversion of single ids with the tables of a container"""
    d = dataset(h, EventData)
    t = h.int('t', 0, d.K)
    i, k = h.int('i'), var('k', 'E')
    inr = and_(le(ZERO, i), lt(i, d.n(t)))
    try:
        e = h.method(d.data, 'to_eid', t, i)
        h.ensure('internal ids out of range are rejected', inr)
        h.ensure('external id', eq(to_term(e), d.eid(t, i)))
        h.same('round trip from an internal id',
               h.method(d.data, 'to_iid', t, e), i)
    except PyExc as e:
        h.ensure('ValueError is raised (got %s)' % e.cls.__name__,
                 TRUE if e.cls is ValueError else FALSE)
        h.ensure('only ids out of range are rejected', not_(inr))


def lookup_eid(h):
    d = dataset(h, EventData)
    t, k = h.int('t', 0, d.K), var('k', 'E')
    try:
        i = h.method(d.data, 'to_iid', t, k)
        h.ensure('unknown external ids are rejected', d.known(t, k))
        h.same('internal id', i, d.iid(t, k))
        h.ensure('round trip from an external id', eq(to_term(
            h.method(d.data, 'to_eid', t, i)), k))
    except PyExc as e:
        h.ensure('ValueError is raised (got %s)' % e.cls.__name__,
                 TRUE if e.cls is ValueError else FALSE)
        h.ensure('only unknown ids are rejected', not_(d.known(t, k)))


def lookup_array(h):
    """an array of internal ids"""
    d = dataset(h, EventData)
    t, m = h.int('t', 0, d.K), h.int('m', 0)
    a = h.array('ia', [m], 'i')
    f = a.fn()
    allin = h.all([m], lambda i: and_(le(ZERO, f([i])),
                                      lt(f([i]), d.n(t))))
    try:
        e = h.method(d.data, 'to_eid', t, a)
        h.ensure('internal ids out of range are rejected', allin)
        h.elements('external ids', e, [m], lambda i: d.eid(t, f([i])))
    except PyExc as e:
        h.ensure('ValueError is raised (got %s)' % e.cls.__name__,
                 TRUE if e.cls is ValueError else FALSE)
        h.ensure('only ids out of range are rejected', not_(allin))


for _c in (EventData, EventWithScoreData):
    contract(_c.__name__ + '.set_event')(lambda h, c=_c: store(h, c, False))
contract('EventData.set_event, default types')(
    lambda h: store(h, EventData, True))
contract('EventData.set_event, second time')(lambda h: again(h))
contract('to_eid')(lambda h: lookup(h))
contract('to_iid')(lambda h: lookup_eid(h))
contract('to_eid, array')(lambda h: lookup_array(h))
