import numpy as np
from .gens import *


def container(g, dom, sc, n_events=None):
    from kamrecsys.data import EventWithScoreData
    n = len(sc)
    ev = g.rng.randint(0, 5, size=(n, 2))
    d = EventWithScoreData()
    d.set_event(ev, sc, score_domain=dom)
    return d


def case_levels(g):
    from kamrecsys.metrics import generate_score_bins
    dom, m, levels = gen_domain(g)
    lo, hi, st = [float(x) for x in dom]
    n = g.int(1, 12)
    lv = g.rng.randint(0, m, size=n)
    sc = levels[lv]
    g.note(domain=list(dom), n_levels=m, levels=lv.tolist())
    d = container(g, dom, sc)
    g.chk(int(d.n_score_levels) == m, 'number of levels',
          got=d.n_score_levels, expected=m)
    g.close(d.get_score_levels(), levels, 'level values', atol=1e-9)
    bins = np.asarray(d.generate_score_bins())
    g.chk(bins.shape == (m + 1,), 'one bin per level', got=bins)
    g.chk(bins[0] == -np.inf and bins[-1] == np.inf,
          'outermost bins are open', got=bins)
    g.close(bins[1:-1], (levels[1:] + levels[:-1]) / 2,
            'boundaries are centres of adjacent levels', atol=1e-9)
    g.close(np.asarray(generate_score_bins(dom))[1:-1], bins[1:-1], 'bins')
    g.same(d.digitize_score(), lv, 'digitized stored scores')
    g.same(d.digitize_score(sc), lv, 'digitized given scores')
    g.same(d.digitize_score(levels), np.arange(m), 'digitized levels')
    # what a person would type
    typed = np.array([round(float(x), 9) for x in levels])
    g.same(d.digitize_score(typed), np.arange(m), 'digitized typed levels')


def case_other(g):
    dom, m, levels = gen_domain(g)
    lo, hi, st = [float(x) for x in dom]
    d = container(g, dom, levels[:1].copy())
    x, ref = [], []
    for _ in range(g.int(1, 10)):
        i = g.int(0, m - 1)
        off = (g.rng.rand() - 0.5) * 0.98
        x.append(levels[i] + off * st)
        ref.append(i)
    x += [lo - st * g.int(1, 30), hi + st * g.int(1, 30), lo - 1e6, hi + 1e6]
    ref += [0, m - 1, 0, m - 1]
    x = np.array(x)
    g.note(domain=list(dom), scores=x.tolist())
    g.same(d.digitize_score(x), ref, 'index of the nearest level')


def case_estimated(g):
    st = g.choice([1, 2, 0.5, 0.25])
    lo = g.choice([0, 1, -1, 0.5])
    k = sorted(set([0, g.int(1, 4)] + [g.int(0, 8) for _ in
                                       range(g.int(0, 4))]))
    vals = np.array([lo + st * i for i in k], dtype=float)
    sc = vals[np.r_[np.arange(len(vals)),
                    g.rng.randint(0, len(vals), size=g.int(0, 6))]]
    sc = sc[g.rng.permutation(len(sc))]
    g.note(scores=sc.tolist())
    arg = sc.tolist() if g.flip(0.3) else sc
    d = container(g, None, arg)
    u = sorted(set(sc.tolist()))
    gap = min(b - a for a, b in zip(u, u[1:]))
    g.close(d.score_domain, [u[0], u[-1], gap], 'estimated score domain')
    if abs((u[-1] - u[0]) / gap - round((u[-1] - u[0]) / gap)) < 1e-9:
        g.chk(int(d.n_score_levels) == int(round((u[-1] - u[0]) / gap)) + 1,
              'number of levels', got=d.n_score_levels)


def case_keep(g):
    """given domain is kept"""
    dom, m, levels = gen_domain(g)
    d = container(g, dom, levels[g.rng.randint(0, m, size=4)])
    g.note(domain=list(dom))
    g.same(np.asarray(d.score_domain, dtype=float),
           np.asarray(dom, dtype=float), 'score domain as given')


FAMILIES = [(case_levels, 4), (case_other, 3), (case_estimated, 1),
            (case_keep, 1)]
