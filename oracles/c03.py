import numpy as np
from .gens import *
from .c01 import build


def reference(c, ev, new, missing):
    out = np.empty(new.shape, dtype=int)
    for e, t in enumerate(c.types):
        ref = ref_ids(ev, c.types, t)
        for i, x in enumerate(new[:, e].tolist()):
            out[i, e] = ref.index(x) if x in ref else missing[e]
    return out


def mixture(g, c, ev, m):
    rows = []
    for _ in range(m):
        row = []
        for t in c.types:
            ref = ref_ids(ev, c.types, t)
            unk = unknown_ids(g, ev, 3)
            if g.flip() and ref:
                row.append(g.choice(ref))
            elif g.flip(0.7) or not ref:
                row.append(g.choice(unk) if unk else ev.ravel()[0].item())
            else:       # an id that is known for some other type
                row.append(g.choice(ev.ravel().tolist()))
        rows.append(row)
    return np.array(rows).astype(ev.dtype if ev.dtype.kind != 'U' else 'U8')


def case_default(g):
    d, ev, c = build(g)
    new = mixture(g, c, ev, g.int(1, 6))
    g.note(new=new.tolist())
    miss = [len(ref_ids(ev, c.types, t)) for t in c.types]
    ref = reference(c, ev, new, miss)
    got = d.to_iid_event(new)
    g.same(got, ref, 'conversion with unknown ids')
    for i in range(len(new)):
        g.same(d.to_iid_event(new[i]), ref[i], 'conversion of one event')


def case_explicit(g):
    d, ev, c = build(g)
    new = mixture(g, c, ev, g.int(1, 6))
    miss = [g.int(-50, 200) for _ in c.types]
    if g.flip(0.3):
        miss[0] = 0
    g.note(new=new.tolist(), missing=miss)
    form = g.choice([list, tuple, np.array])
    ref = reference(c, ev, new, miss)
    g.same(d.to_iid_event(new, form(miss)), ref, 'explicit replacement')
    g.same(d.to_iid_event(new, missing_values=form(miss)), ref,
           'explicit replacement')
    for i in range(len(new)):
        g.same(d.to_iid_event(new[i], missing_values=form(miss)), ref[i],
               'explicit replacement, one event')


def case_fitted(g):
    """the conversion of a fitted recommender whose columns are all used"""
    from .c08 import stub
    d, ev, c = build(g, ids=g.int(0, 1))
    if c.event_otypes is not None:
        d, ev, c = None, None, None
        from kamrecsys.data import EventData
        c = Cfg()
        c.n_otypes = g.int(1, 3)
        c.event_otypes, c.types = None, list(range(c.n_otypes))
        c.s = c.n_otypes
        ev = gen_events(g, c, ids=g.int(0, 1))
        g.note(events=ev.tolist(), types=c.types)
        d = EventData(c.n_otypes)
        d.set_event(ev)
    r = stub()
    r.fit(d)
    new = mixture(g, c, ev, g.int(1, 5))
    g.note(new=new.tolist())
    miss = [len(ref_ids(ev, c.types, t)) for t in c.types]
    ref = reference(c, ev, new, miss)
    g.same(r.to_iid_event(new), ref, 'conversion of a fitted recommender')
    for i in range(len(new)):
        g.same(r.to_iid_event(new[i]), ref[i], 'conversion of one event')


def case_filtered(g):
    d, ev, c = build(g, min_n=3)
    keep = np.sort(g.rng.permutation(len(ev))[:g.int(1, len(ev))])
    f = d.filter_event(keep)
    g.note(keep=keep.tolist())
    miss = [len(ref_ids(ev[keep], c.types, t)) for t in c.types]
    ref = reference(c, ev[keep], ev, miss)
    g.same(f.to_iid_event(ev), ref, 'ids removed by a filter are unknown')


FAMILIES = [(case_default, 3), (case_explicit, 2), (case_fitted, 1),
            (case_filtered, 1)]
