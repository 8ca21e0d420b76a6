import numpy as np
from .gens import *


def build(g, ids='any', score=None, min_n=1):
    from kamrecsys.data import EventData, EventWithScoreData
    c = gen_types(g)
    ev = gen_events(g, c, ids=ids, min_n=min_n)
    g.note(n_otypes=c.n_otypes, event_otypes=c.types, events=ev.tolist(),
           kind=ev.dtype.kind)
    if score is None:
        score = g.flip(0.4)
    if score:
        d = EventWithScoreData(n_otypes=c.n_otypes,
                               event_otypes=c.event_otypes)
        sc = g.rng.randint(1, 6, size=len(ev)).astype(float)
        d.set_event(ev, sc, score_domain=(1, 5, 1))
    else:
        d = EventData(n_otypes=c.n_otypes, event_otypes=c.event_otypes)
        d.set_event(ev)
    return d, ev, c


def tables(g, d, ev, c):
    for t in range(c.n_otypes):
        ref = ref_ids(ev, c.types, t)
        n = int(d.n_objects[t])
        g.chk(n == len(ref), 'n_objects[%d] is not the number of distinct '
              'ids' % t, got=n, expected=len(ref))
        g.same(np.asarray(d.eid[t]).tolist(), ref,
               'external ids of type %d are not the sorted ids of its '
               'columns' % t)
        g.chk(sorted(np.asarray(list(d.iid[t].keys())).tolist()) == ref,
              'known external ids of type %d' % t,
              got=list(d.iid[t].keys()), expected=ref)
        for i, e in enumerate(ref):
            g.chk(int(d.iid[t][e]) == i, 'internal id of %r' % (e,))


def case_tables(g):
    d, ev, c = build(g)
    tables(g, d, ev, c)


def case_lookup(g):
    d, ev, c = build(g, min_n=2)
    for t in range(c.n_otypes):
        ref = ref_ids(ev, c.types, t)
        for i, e in enumerate(ref):
            g.chk(d.to_iid(t, e) == i, 'to_iid of a known id',
                  otype=t, eid=e, got=None)
            g.chk(d.to_eid(t, i) == e, 'to_eid of a known id', otype=t, iid=i)
            g.chk(d.to_eid(t, d.to_iid(t, e)) == e, 'round trip')
            g.chk(d.to_iid(t, d.to_eid(t, i)) == i, 'round trip')
        n = len(ref)
        for bad in [n, n + 1, n + g.int(2, 50), -1, -n, -n - 1,
                    -g.int(1, 60)]:
            if 0 <= bad < n:
                continue
            g.note(otype=t, n=n, iid=bad)
            g.raises(ValueError, lambda: d.to_eid(t, bad),
                     'illegal internal id accepted')
        own = np.array(ref if ref else ev.ravel()[:1].tolist())
        for e in unknown_ids(g, own, 5):
            if e in ref:
                continue
            g.note(otype=t, eid=e)
            g.raises(ValueError, lambda: d.to_iid(t, e),
                     'unknown external id accepted')
        # an id that is known for another type only
        for u in range(c.n_otypes):
            for e in ref_ids(ev, c.types, u):
                if e not in ref:
                    g.note(otype=t, eid=e)
                    g.raises(ValueError, lambda: d.to_iid(t, e),
                             'id of another type accepted')


def case_reset(g):
    """storing events again replaces the tables"""
    d, ev, c = build(g, score=False)
    ev2 = gen_events(g, c, ids=2 if ev.dtype.kind == 'U' else 1)
    g.note(second=ev2.tolist())
    d.set_event(ev2)
    tables(g, d, ev2, c)


def case_int_types(g):
    from kamrecsys.data import EventData
    dt = g.choice([np.int32, np.int16, np.uint8, np.int64, np.uint32, float,
                   'S4'])
    n = g.int(1, 9)
    ev = g.rng.randint(0, 100, size=(n, 2)).astype(dt)
    g.note(events=ev.tolist(), dtype=str(dt))
    d = EventData()
    d.set_event(ev)
    c = Cfg()
    c.n_otypes, c.types = 2, [0, 1]
    tables(g, d, ev, c)
    g.same(d.to_eid_event(d.event), ev, 'round trip of events')


FAMILIES = [(case_tables, 2), (case_lookup, 3), (case_reset, 1),
            (case_int_types, 1)]
