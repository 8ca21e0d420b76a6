import numpy as np
from .gens import *


def case_binarize(g):
    from kamrecsys.data import EventWithScoreData
    c = gen_types(g)
    ev = gen_events(g, c)
    n = len(ev)
    dom, m, levels = gen_domain(g)
    sc = levels[g.rng.randint(0, m, size=n)]
    if g.flip(0.2):
        sc = sc + g.rng.randn(n)
    if g.flip(0.15):
        sc = np.round(sc).astype(int)
    ef = gen_feature(g, n) if g.flip() else None
    d = EventWithScoreData(c.n_otypes, c.event_otypes)
    d.set_event(ev, sc, dom, event_feature=ef)
    for t in range(c.n_otypes):
        if len(d.eid[t]) and g.flip():
            d.set_feature(t, np.array(d.eid[t]), gen_feature(
                g, len(d.eid[t])))
    centre = (float(dom[0]) + float(dom[1])) / 2
    k = g.int(0, 4)
    if k <= 1:
        th = None
        ref_th = centre
    elif k == 2:
        th = ref_th = float(g.choice(sc.tolist()))
    elif k == 3:
        th = ref_th = g.choice([0, 0.0, -1, 1e6, -1e6])
    else:
        th = ref_th = float(levels[0] + g.rng.rand() * 1.2 *
                            (levels[-1] - levels[0]))
    g.note(scores=sc.tolist(), domain=list(dom), threshold=th)
    exact = all(float(v) * 8 == int(float(v) * 8) for v in dom)
    if th is None and not exact and np.any(np.abs(sc - centre) < 1e-9):
        return      # decided by floating-point rounding
    before = attrs(d, DATA_ATTRS)
    r = d.binarize_score() if th is None and g.flip() else \
        d.binarize_score(th)
    ref = np.array([0 if not (x > ref_th) else 1 for x in sc])
    g.same(d.score, ref, 'binarized scores')
    g.same(d.score_domain, [0, 1, 1], 'score domain')
    g.chk(d.n_score_levels == 2, 'number of levels', got=d.n_score_levels)
    for a in DATA_ATTRS:
        if a in ('score', 'score_domain', 'n_score_levels'):
            continue
        g.chk(equal_deep(before[a], getattr(d, a, None)),
              'binarizing changed ' + a)


FAMILIES = [(case_binarize, 1)]
