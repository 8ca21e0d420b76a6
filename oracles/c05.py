import numpy as np
from .gens import *
from .c04 import gen_cond


def build(g, min_n=1):
    from kamrecsys.data import EventData, EventWithScoreData
    c = gen_types(g)
    ev = gen_events(g, c, min_n=min_n)
    n = len(ev)
    c.scored = g.flip(0.6)
    ef = gen_feature(g, n) if g.flip(0.7) else None
    c.ef = snapshot(ef)
    g.note(n_otypes=c.n_otypes, types=c.types, events=ev.tolist(),
           event_feature=ef)
    if c.scored:
        c.dom, m, levels = gen_domain(g)
        c.sc = levels[g.rng.randint(0, m, size=n)]
        g.note(scores=c.sc.tolist(), domain=list(c.dom))
        d = EventWithScoreData(c.n_otypes, c.event_otypes)
        d.set_event(ev, c.sc.copy(), c.dom, event_feature=ef)
    else:
        d = EventData(c.n_otypes, c.event_otypes)
        d.set_event(ev, event_feature=ef)
    return d, ev, c


def give_features(g, d, ev, c):
    """features for some types, rows shuffled, surplus ids; the reference
    maps an external id to its row"""
    refs = {}
    for t in range(c.n_otypes):
        known = ref_ids(ev, c.types, t)
        if not known or g.flip(0.2):
            continue
        extra = unknown_ids(g, ev, g.int(0, 4))
        extra = list(dict.fromkeys(extra))
        ids = known + extra
        ids = [ids[i] for i in g.rng.permutation(len(ids))]
        feat = gen_feature(g, len(ids))
        refs[t] = {e: snapshot(feat[i]) for i, e in enumerate(ids)}
        arr = np.array(ids)
        g.note(feature_type=t, feature_ids=ids, feature=feat)
        arg = arr if g.flip(0.8) else list(ids)
        d.set_feature(t, arg, feat)
        # later changes of the caller's array do not show
        feat[:] = np.roll(feat, 1)
        if feat.dtype.kind in 'if':
            feat[:] = -5
    return refs


def features_ok(g, d, ids_of, refs, what):
    for t, ref in refs.items():
        ids = ids_of(t)
        f = d.feature[t]
        g.chk(f is not None and len(f) == len(ids), what +
              ': one feature row per object', otype=t)
        for i, e in enumerate(ids):
            g.same(f[i], ref[e], '%s: feature of object %r of type %d' % (
                what, e, t))


def case_set_feature(g):
    d, ev, c = build(g)
    refs = give_features(g, d, ev, c)
    features_ok(g, d, lambda t: ref_ids(ev, c.types, t), refs, 'set_feature')


def case_filter(g):
    d, ev, c = build(g, min_n=2)
    refs = give_features(g, d, ev, c)
    before = attrs(d, DATA_ATTRS)
    rows = list(range(len(ev)))
    cur = d
    for step in range(g.int(1, 3)):
        if not rows:
            break
        cond, idx = gen_cond(g, len(rows))
        g.note(cond=cond)
        pre = attrs(cur, DATA_ATTRS)
        nxt = cur.filter_event(cond)
        g.chk(equal_deep(pre, attrs(cur, DATA_ATTRS)),
              'filtering changed the original data set')
        rows = [rows[i] for i in idx]
        kept = ev[rows]
        features_ok(g, nxt, lambda t: ref_ids(kept, c.types, t), refs,
                    'filter')
        for t in range(c.n_otypes):
            if t not in refs:
                g.chk(nxt.feature[t] is None, 'feature appeared')
        if c.ef is not None:
            g.same(nxt.event_feature, c.ef[rows], 'event features')
        else:
            g.chk(nxt.event_feature is None, 'event feature appeared')
        if c.scored:
            g.same(nxt.score, c.sc[rows], 'scores of the kept events')
            g.same(nxt.score_domain, np.asarray(c.dom), 'score domain')
        cur = nxt
    # working with the filtered data set does not reach the original
    if cur is not d:
        for t in range(c.n_otypes):
            ids = ref_ids(ev[rows], c.types, t)
            if ids:
                cur.set_feature(t, np.array(ids), np.arange(len(ids)) + 100.)
        if c.scored and g.flip():
            cur.binarize_score()
        if cur.event.size:
            cur.event[...] = 0
        cur.n_objects[...] = 0
        if g.flip():
            if c.scored:
                cur.set_event(ev[:1], [1.], (0, 1, 1))
            else:
                cur.set_event(ev[:1])
    g.chk(equal_deep(before, attrs(d, DATA_ATTRS)),
          'the original data set was changed')


FAMILIES = [(case_set_feature, 2), (case_filter, 4)]
