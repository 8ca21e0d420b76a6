import numpy as np
from .gens import *
from .c17 import mean, std


def gen_scores(g, dom, levels, exact=True):
    """scores near a known level, so that the nearest level is clear"""
    n = g.int(1, 15)
    m = len(levels)
    s = float(dom[2])
    idx = g.rng.randint(0, m, n)
    off = np.zeros(n) if g.flip(0.3) else (g.rng.rand(n) - 0.5) * 0.96 * s
    x = levels[idx] + off
    for i in range(n):
        u = g.rng.rand()
        if u < 0.1:
            x[i] = levels[0] - s * g.rng.rand() * 5
            idx[i] = 0
        elif u < 0.2:
            x[i] = levels[-1] + s * g.rng.rand() * 5
            idx[i] = m - 1
    return x, idx


def case_hist(g):
    from kamrecsys.metrics import score_histogram
    dom, m, levels = gen_domain(g)
    x, idx = gen_scores(g, dom, levels)
    g.note(x=x.tolist(), domain=list(dom))
    X = x.copy()
    h, s = score_histogram(X, score_domain=dom)
    g.same(X, x, 'scores were modified')
    g.same(np.asarray(h), np.bincount(idx, minlength=m), 'histogram')
    g.close(s, levels, 'level values', rtol=1e-9, atol=1e-9)
    if list(map(float, dom)) == [1, 5, 1]:
        h2, s2 = score_histogram(X)
        g.same(h2, h, 'default domain')


def case_default(g):
    from kamrecsys.metrics import score_histogram
    levels = np.arange(1., 6.)
    x, idx = gen_scores(g, (1, 5, 1), levels)
    if g.flip(0.3):
        x = levels[idx].astype(int)
    g.note(x=x.tolist())
    h, s = score_histogram(x)
    g.same(np.asarray(h), np.bincount(idx, minlength=5), 'histogram')
    g.close(s, levels, 'level values')


def case_int(g):
    from kamrecsys.metrics import score_histogram
    k = g.int(1, 9)
    n = g.int(1, 15)
    x = g.choice([g.rng.randint(1, 6, n), g.rng.rand(n) * 4])
    arg = g.choice([k, np.int64(k), np.int32(k)])
    g.note(x=x.tolist(), bins=k)
    h, s = score_histogram(x, score_domain=arg)
    lo, hi = float(np.min(x)), float(np.max(x))
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    w = (hi - lo) / k
    g.chk(len(h) == k and len(s) == k, 'number of bins')
    g.chk(int(np.sum(h)) == n, 'counts add up', hist=h)
    g.close(s, [lo + w * (i + 0.5) for i in range(k)], 'bin centres',
            atol=1e-9)
    cnt = [0] * k
    amb = False
    for v in x:
        p = (float(v) - lo) / w
        if abs(p - round(p)) < 1e-9 and 0 < round(p) < k:
            amb = True
        cnt[min(k - 1, int(p))] += 1
    if not amb:
        g.same(np.asarray(h), cnt, 'histogram with a number of bins')


def case_bad(g):
    from kamrecsys.metrics import score_histogram
    x = g.rng.rand(g.int(1, 5)) + 1
    x[g.int(0, len(x) - 1)] = g.choice([np.nan, np.inf])
    g.note(x=x.tolist())
    g.raises(ValueError, lambda: score_histogram(x, g.choice([3, (1, 5, 1)])),
             'non-finite scores were accepted')


def case_stats(g):
    from kamrecsys.metrics import (
        score_predictor_statistics, score_predictor_report)
    dom, m, levels = gen_domain(g)
    x, ix = gen_scores(g, dom, levels)
    y, iy = gen_scores(g, dom, levels)
    n = min(len(x), len(y))
    x, y, ix, iy = x[:n], y[:n], ix[:n], iy[:n]
    g.note(y_true=x.tolist(), y_pred=y.tolist(), domain=list(dom))
    X, Y = x.copy(), y.copy()
    r = score_predictor_statistics(X, Y, score_domain=dom)
    q = score_predictor_report(X, Y, disp=False)
    g.same(X, x, 'y_true was modified')
    g.same(Y, y, 'y_pred was modified')
    e = [abs(float(a) - float(b)) for a, b in zip(x, y)]
    s = [v * v for v in e]
    sc = max(1., max(e)) ** 2
    kw = dict(atol=1e-7 * sc)
    g.chk(int(r['n_samples']) == n and int(q['n_samples']) == n, 'n_samples')
    g.close(r['score levels'], levels, 'score levels', atol=1e-9)
    g.close(r['mean absolute error']['mean'], mean(e), 'MAE', **kw)
    g.close(r['mean absolute error']['stdev'], std(e), 'MAE stdev', **kw)
    g.close(r['mean squared error']['mean'], mean(s), 'MSE', **kw)
    g.close(r['mean squared error']['rmse'], mean(s) ** 0.5, 'RMSE', **kw)
    g.close(r['mean squared error']['stdev'], std(s), 'MSE stdev', **kw)
    g.close(q['mean absolute error'], mean(e), 'report: MAE', **kw)
    g.close(q['root mean squared error'], mean(s) ** 0.5, 'report: RMSE',
            **kw)
    for key, v, iv in (('true', x, ix), ('predicted', y, iy)):
        for t in (r, q):
            g.close(t[key]['mean'], mean(v.tolist()), key + ' mean', **kw)
            g.close(t[key]['stdev'], std(v.tolist()), key + ' stdev', **kw)
        h = np.bincount(iv, minlength=m)
        g.same(np.asarray(r[key]['histogram']), h, key + ' histogram')
        g.close(r[key]['histogram density'], h / float(n), key + ' density')


def case_stats_bad(g):
    from kamrecsys.metrics import (
        score_predictor_statistics, score_predictor_report)
    n = g.int(1, 5)
    x, y = g.rng.rand(n) + 1, g.rng.rand(n) + 1
    if g.flip():
        g.choice([x, y])[g.int(0, n - 1)] = g.choice([np.nan, np.inf])
    else:
        x = np.hstack([x, 1.])
    g.note(y_true=x.tolist(), y_pred=y.tolist())
    f = g.choice([score_predictor_statistics,
                  lambda a, b: score_predictor_report(a, b, disp=False)])
    g.raises(ValueError, lambda: f(x, y), 'bad input was accepted')


FAMILIES = [(case_hist, 3), (case_default, 1), (case_int, 2), (case_stats, 3),
            (case_bad, 1), (case_stats_bad, 1)]
