import numpy as np
from .gens import *
from .c01 import build


def encoded(g, d, ev, c):
    g.chk(d.event.shape == ev.shape, 'shape of the stored events',
          got=d.event.shape, expected=ev.shape)
    g.chk(d.n_events == len(ev), 'n_events', got=d.n_events)
    g.chk(d.event.dtype.kind in 'iu', 'internal ids are integers')
    for e, t in enumerate(c.types):
        ref = ref_ids(ev, c.types, t)
        g.same(d.event[:, e].tolist(),
               [ref.index(x) for x in ev[:, e].tolist()],
               'internal ids of column %d' % e)
    back = d.to_eid_event(d.event)
    g.same(back, ev, 'to_eid_event of the stored events')
    for i in range(min(4, len(ev))):
        g.same(d.to_eid_event(d.event[i]), ev[i], 'to_eid_event of one event')
        g.same(d.to_iid_event(ev[i]), d.event[i], 'to_iid_event of one event')


def case_encode(g):
    d, ev, c = build(g)
    encoded(g, d, ev, c)


def case_convert(g):
    """events made of known ids of the right types, in any combination"""
    d, ev, c = build(g, min_n=2)
    m = g.int(1, 6)
    cols = []
    for t in c.types:
        ref = ref_ids(ev, c.types, t)
        cols.append([g.choice(ref) for _ in range(m)])
    new = np.array(cols).T.astype(ev.dtype)
    g.note(new=new.tolist())
    before = new.copy()
    iev = d.to_iid_event(new)
    g.same(new, before, 'the argument of to_iid_event was modified')
    for e, t in enumerate(c.types):
        ref = ref_ids(ev, c.types, t)
        g.same(np.asarray(iev)[:, e].tolist(),
               [ref.index(x) for x in new[:, e].tolist()], 'to_iid_event')
    iev0 = np.array(iev)
    g.same(d.to_eid_event(iev), new, 'to_eid_event . to_iid_event')
    g.same(iev, iev0, 'the argument of to_eid_event was modified')
    for i in range(m):
        v = d.to_iid_event(new[i])
        g.same(v, iev[i], 'one event and an array of events disagree')
        g.same(d.to_eid_event(v), new[i], 'round trip of one event')


def case_shape(g):
    d, ev, c = build(g)
    s = c.s
    z = ev.ravel()[0]
    for shp in [(s + 1,), (s - 1,), (2, s + 1), (1, s - 1), (2, 2, s),
                (1, 1, s), (3, s + 2)]:
        if len(shp) == 1 and shp[0] == s:
            continue
        if min(shp) < 0:
            continue
        a = np.full(shp, z, dtype=ev.dtype)
        b = np.zeros(shp, dtype=int)
        g.note(shape=shp, s_event=s)
        g.raises(TypeError, lambda: d.to_iid_event(a),
                 'to_iid_event accepted a wrong shape')
        g.raises(TypeError, lambda: d.to_eid_event(b),
                 'to_eid_event accepted a wrong shape')


def case_copies(g):
    from kamrecsys.data import EventData, EventWithScoreData
    c = gen_types(g)
    ev = gen_events(g, c)
    n = len(ev)
    ef = gen_feature(g, n) if g.flip(0.7) else None
    aslist = ef is not None and ef.dtype.names is None and g.flip(0.3)
    arg = ef.tolist() if aslist else ef
    sc = g.rng.randint(1, 6, size=n).astype(float)
    scarg = sc.tolist() if g.flip(0.3) else sc
    g.note(events=ev.tolist(), types=c.types, n_otypes=c.n_otypes,
           event_feature=ef, scores=sc.tolist())
    ev0, ef0, sc0 = ev.copy(), snapshot(ef), sc.copy()
    if g.flip():
        d = EventWithScoreData(c.n_otypes, c.event_otypes)
        d.set_event(ev, scarg, score_domain=(1, 5, 1), event_feature=arg)
        scored = True
    else:
        d = EventData(c.n_otypes, c.event_otypes)
        d.set_event(ev, event_feature=arg)
        scored = False
    g.same(ev, ev0, "the caller's events were modified")
    g.same(sc, sc0, "the caller's scores were modified")
    # later changes of the caller's arrays
    ev[:] = ev[::-1].copy()
    sc[:] = -7
    if ef is not None:
        ef[:] = np.roll(ef, 1)
        if ef.dtype.kind in 'if':
            ef[:] = -9
    if isinstance(scarg, list):
        scarg[0] = 99
    if isinstance(arg, list):
        arg[0] = arg[-1]
    encoded(g, d, ev0, c)
    if scored:
        g.same(d.score, sc0, 'scores')
    if ef is None:
        g.chk(d.event_feature is None, 'event feature is None')
    else:
        g.chk(d.event_feature.shape[0] == n, 'rows of the event features')
        g.same(d.event_feature, ef0, 'event features')
    # storing again without features forgets the old ones
    if ef is not None and g.flip(0.3):
        if scored:
            d.set_event(ev0, sc0, (1, 5, 1))
        else:
            d.set_event(ev0)
        g.chk(d.event_feature is None, 'old event features were kept')


FAMILIES = [(case_encode, 2), (case_convert, 3), (case_shape, 1),
            (case_copies, 2)]
