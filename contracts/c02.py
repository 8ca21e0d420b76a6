"""C02 Stored events are a lossless encoding of the input events"""
from .common import *


def store(h, cls, feature):
    """set_event on a new container"""
    K, N = h.int('K', 1), h.int('N', 1)
    S, ot = types(h, K)
    o = h.call(cls, n_otypes=K, event_otypes=ot)
    x = lambda *i: app('x', tuple(to_term(j) for j in i), 'E')
    a = Arr.make([N, S], lambda i: x(*i), 'E')
    args, kw = [a], {}
    if cls is EventWithScoreData:
        sc = h.array('sc', [N])
        sf = sc.fn()
        args += [sc, PList([h.real('lo'), h.real('hi'), h.real('st')])]
        h.assume(not_(eq(var('st', 'R'), ZERO)))
    if feature:
        F = h.int('F', 1)
        ft = h.array('feat', [N, F])
        ff = ft.fn()
        kw['event_feature'] = ft
    h.method(o, 'set_event', *args, **kw)
    # one row of internal ids per event, in order
    ev = h.attr(o, 'event')
    h.shape('event', ev, [N, S])
    g = ev.fn()
    nob = h.attr(o, 'n_objects').fn()
    otf = lambda e: app('otype', (to_term(e),), 'I')
    h.ensure('internal ids are in range', h.all([N, S], lambda i, e: and_(
        le(ZERO, tonum(g([i, e]))),
        lt(tonum(g([i, e])), tonum(nob([otf(e)]))))))
    back = h.method(o, 'to_eid_event', ev)
    h.elements('external ids of the stored events', back, [N, S],
               lambda i, e: x(i, e))
    h.same('number of events', h.attr(o, 'n_events'), N)
    h.unchanged('argument', a, lambda i: x(*i))
    def attached():
        e = h.attr(o, 'event_feature')
        if feature:
            h.elements('event feature', e, [N, F], lambda i, j: ff([i, j]))
        else:
            h.ensure('no event feature', TRUE if e is None else FALSE)
        if cls is EventWithScoreData:
            h.elements('score', h.attr(o, 'score'), [N], lambda i: sf([i]))
    attached()
    g0 = h.attr(o, 'event').fn()
    for b, f in (('sc', 'sf'), ('ft', 'ff')):
        if b in locals():
            h.unchanged('argument ' + b, locals()[b], locals()[f])
            h.overwrite(locals()[b])
    h.overwrite(a)
    # nothing the caller does to its arrays shows in the container
    attached()
    h.elements('event after the caller changes its array',
               h.attr(o, 'event'), [N, S], lambda i, e: g0([i, e]))


for _c in (EventData, EventWithScoreData):
    for _f in (False, True):
        contract('%s.set_event%s' % (
            _c.__name__, ', event features' if _f else ''))(
            lambda h, c=_c, f=_f: store(h, c, f))


def eid_iid(h, single):
    """known external ids -> internal ids -> external ids"""
    d = dataset(h, EventData)
    M = h.int('M', 0)
    shape = [d.S] if single else [M, d.S]
    x = lambda *i: app('x', tuple(to_term(j) for j in i), 'E')
    vs = [var('a%d' % i, 'I') for i in range(len(shape))]
    h.assume(forall(vs, imp(and_(*[
        and_(le(ZERO, v), lt(v, n)) for v, n in zip(vs, shape)]),
        d.known(d.ot(vs[-1]), x(*vs))), trig=(x(*vs),)))
    a = Arr.make(shape, lambda i: x(*i), 'E')
    iid = h.method(d.data, 'to_iid_event', a)
    h.elements('internal ids', iid, shape,
               lambda *i: d.iid(d.ot(i[-1]), x(*i)))
    back = h.method(d.data, 'to_eid_event', iid)
    h.elements('external ids', back, shape, lambda *i: x(*i))
    h.unchanged('argument', a, lambda i: x(*i))
    h.unchanged('event', d.a_ev, lambda i: d.ev(*i))


def iid_eid(h, single):
    """internal ids in range -> external ids -> internal ids"""
    d = dataset(h, EventData)
    M = h.int('M', 0)
    shape = [d.S] if single else [M, d.S]
    x = lambda *i: app('y', tuple(to_term(j) for j in i), 'I')
    vs = [var('a%d' % i, 'I') for i in range(len(shape))]
    h.assume(forall(vs, imp(and_(*[
        and_(le(ZERO, v), lt(v, n)) for v, n in zip(vs, shape)]),
        and_(le(ZERO, x(*vs)), lt(x(*vs), d.n(d.ot(vs[-1]))))),
        trig=(x(*vs),)))
    a = Arr.make(shape, lambda i: x(*i), 'i')
    eid = h.method(d.data, 'to_eid_event', a)
    h.elements('external ids', eid, shape,
               lambda *i: d.eid(d.ot(i[-1]), x(*i)))
    back = h.method(d.data, 'to_iid_event', eid)
    h.elements('internal ids', back, shape, lambda *i: x(*i))
    h.unchanged('argument', a, lambda i: x(*i))


def wrong_shape(h, name, nd):
    d = dataset(h, EventData)
    shape = [h.int('d%d' % i, 0) for i in range(nd)]
    if nd in (1, 2):
        h.assume(not_(eq(shape[-1], d.S)))
    a = h.array('y', shape, 'i', lo=0, hi=1)
    if name == 'to_iid_event':
        a = Arr.make(shape, lambda i: app('x', tuple(i), 'E'), 'E')
    h.expect(TypeError, interp.getattribute(d.data, name), a)


for _s in (True, False):
    _n = 'one event' if _s else 'array'
    contract('external to internal ids and back, ' + _n)(
        lambda h, s=_s: eid_iid(h, s))
    contract('internal to external ids and back, ' + _n)(
        lambda h, s=_s: iid_eid(h, s))
for _m in ('to_eid_event', 'to_iid_event'):
    for _d in (0, 1, 2, 3):
        contract('%s, wrong shape, %d dimensions' % (_m, _d))(
            lambda h, m=_m, d=_d: wrong_shape(h, m, d))
