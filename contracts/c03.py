"""C03 Unknown external ids become the reserved id, never a known object"""
from .common import *


def convert(h, single, missing):
    d = dataset(h, EventData)
    M = h.int('M', 0)
    x = lambda *i: app('x', tuple(to_term(j) for j in i), 'E')
    if single:
        a = Arr.make([d.S], lambda i: x(*i), 'E')
    else:
        a = Arr.make([M, d.S], lambda i: x(*i), 'E')
    args = []
    if missing:
        args = [h.array('miss', [d.S], 'i')]
        res = h.fun('miss', 'I')
    else:
        res = lambda e: d.n(d.ot(e))
    out = h.method(d.data, 'to_iid_event', a, *args)

    def want(*i):
        e, k = i[-1], x(*i)
        return ite(d.known(d.ot(e), k), d.iid(d.ot(e), k), res(e))
    h.elements('internal ids', out, a.shape, want)
    if not missing:
        # the reserved id is not the id of any object of the type
        g = out.fn()
        h.ensure('unknown ids never get the id of a known object', h.all(
            a.shape, lambda *i: imp(
                not_(d.known(d.ot(i[-1]), x(*i))),
                le(d.n(d.ot(i[-1])), tonum(g(list(i)))))))
        h.ensure('known ids get the id of their object', h.all(
            a.shape, lambda *i: imp(
                d.known(d.ot(i[-1]), x(*i)),
                eq(d.eid(d.ot(i[-1]), tonum(g(list(i)))), x(*i)))))
    h.unchanged('argument', a, lambda i: x(*i))
    h.unchanged('event', d.a_ev, lambda i: d.ev(*i))
    h.unchanged('numbers of objects', d.a_n, lambda i: d.n(*i))


for _s in (False, True):
    for _m in (False, True):
        contract('to_iid_event, %s, %s' % (
            'one event' if _s else 'array',
            'given values' if _m else 'default'))(
            lambda h, s=_s, m=_m: convert(h, s, m))
