import numpy as np
from .gens import *
from .c01 import build


def gen_cond(g, n, allow_empty=True):
    """a filter condition and the list of the selected rows, in order"""
    k = g.int(0, 5)
    if k <= 2:
        p = g.choice([0.2, 0.5, 0.8])
        m = g.rng.rand(n) < p
        if not allow_empty and not m.any():
            m[g.int(0, n - 1)] = True
        idx = [i for i in range(n) if m[i]]
        return (m.tolist() if k == 2 and n > 0 else m), idx
    if k == 3:
        idx = g.rng.permutation(n)[:g.int(0 if allow_empty else 1, n)]
        return idx.astype(int), [int(i) for i in idx]
    if k == 4:
        idx = g.rng.randint(0, n, size=g.int(1, 2 * n))
        return idx, [int(i) for i in idx]
    idx = [g.int(0, n - 1) for _ in range(g.int(1, n))]
    return list(idx), idx


def same_as_rebuilt(g, f, ev, c, what='filtered'):
    """f holds exactly the events ev"""
    from kamrecsys.data import EventData
    g.chk(f.n_events == len(ev), what + ': n_events', got=f.n_events)
    g.chk(f.s_event == c.s, what + ': s_event')
    g.same(f.event_otypes, c.types, what + ': event_otypes')
    g.chk(f.n_otypes == c.n_otypes, what + ': n_otypes')
    ref = EventData(c.n_otypes, c.event_otypes)
    ref.set_event(ev)
    g.same(f.event, ref.event, what + ': events')
    for t in range(c.n_otypes):
        ids = ref_ids(ev, c.types, t)
        g.same(np.asarray(f.eid[t]).tolist(), ids, what + ': external ids')
        g.chk(int(f.n_objects[t]) == len(ids), what + ': n_objects',
              got=f.n_objects, expected=len(ids))
        g.chk(dict((k if not hasattr(k, 'item') else k.item(), int(v))
                   for k, v in f.iid[t].items()) ==
              {k: i for i, k in enumerate(ids)}, what + ': internal ids',
              got=f.iid[t], expected=ids)
        ids2 = np.asarray(ref.eid[t]).tolist()
        g.chk(ids == ids2, what + ': differs from a rebuilt data set')
    if len(ev):
        g.same(f.to_eid_event(f.event), ev, what + ': external events')


def case_filter(g):
    d, ev, c = build(g)
    cond, idx = gen_cond(g, len(ev))
    g.note(cond=cond)
    f = d.filter_event(cond)
    g.chk(type(f) is type(d), 'kind of the container')
    same_as_rebuilt(g, f, ev[idx], c)


def case_chain(g):
    d, ev, c = build(g, min_n=3)
    for step in range(g.int(2, 4)):
        if len(ev) == 0:
            break
        cond, idx = gen_cond(g, len(ev), allow_empty=step > 0)
        g.note(cond=cond)
        d = d.filter_event(cond)
        ev = ev[idx]
        same_as_rebuilt(g, d, ev, c, 'chain step %d' % step)


def case_none(g):
    from kamrecsys.data import EventData, EventWithScoreData
    c = gen_types(g)
    for cls in (EventData, EventWithScoreData):
        d = cls(c.n_otypes, c.event_otypes)
        r = d.filter_event(np.array([True, False]))
        g.chk(r is None, 'filtering a container without events', got=r)
        r = d.filter_event([0])
        g.chk(r is None, 'filtering a container without events', got=r)


def case_scored(g):
    """scored container: same as rebuilding with the kept scores"""
    from kamrecsys.data import EventWithScoreData
    c = gen_types(g)
    ev = gen_events(g, c)
    dom, m, levels = gen_domain(g)
    sc = levels[g.rng.randint(0, m, size=len(ev))]
    d = EventWithScoreData(c.n_otypes, c.event_otypes)
    d.set_event(ev, sc, dom)
    cond, idx = gen_cond(g, len(ev))
    g.note(events=ev.tolist(), types=c.types, n_otypes=c.n_otypes, cond=cond,
           scores=sc)
    f = d.filter_event(cond)
    same_as_rebuilt(g, f, ev[idx], c)
    g.chk(type(f) is EventWithScoreData, 'kind of the container')
    g.same(f.score, sc[idx], 'scores')
    g.same(f.score_domain, np.asarray(dom), 'score domain')
    g.chk(f.n_score_levels == m, 'number of levels')


FAMILIES = [(case_filter, 4), (case_chain, 3), (case_none, 1),
            (case_scored, 2)]
