import collections
import numpy as np
from .gens import *


def case_mean(g):
    from kamrecsys.metrics import statistics_mean
    nargs = g.int(1, 4)
    k = g.int(1, 6)
    out = g.int(0, 3)
    use_dict = g.flip()
    keys = ['f%d' % i for i in g.rng.permutation(30)[:k]] if g.flip() else [
        int(i) for i in g.rng.permutation(30)[:k]]
    vals = [[g.rng.randint(0, 9, size=g.int(1, 4)) + 0.5 * a
             for _ in range(k)] for a in range(nargs)]
    args = []
    for a in range(nargs):
        if use_dict:
            d = dict if g.flip(0.7) else collections.OrderedDict
            m = d()
            for i in g.rng.permutation(k):
                m[keys[i]] = vals[a][i]
            args.append(m)
        else:
            args.append(list(vals[a]))
    g.note(args=args)
    calls = []

    def value(xs):
        b = sum((j + 1.) * float(np.sum(x)) for j, x in enumerate(xs))
        return [b, (b, b * b - 3), np.array([b, 1., -b]),
                [[b, 2.], [3., b / 2]]][out]

    def fun(*xs):
        calls.append(xs)
        return value(xs)
    r = statistics_mean(fun, *args)
    g.chk(len(calls) == k, 'one call per fold', calls=len(calls), expected=k)
    rows = [tuple(vals[a][i] for a in range(nargs)) for i in range(k)]
    used = []
    for c in calls:
        hit = [i for i in range(k) if i not in used and len(c) == nargs and
               all(x is y for x, y in zip(c, rows[i]))]
        g.chk(len(hit) == 1, 'corresponding elements of all arguments in '
              'order', call=c)
        used.append(hit[0])
    exp = np.mean(np.array([np.asarray(value(x), dtype=float)
                            for x in rows]), axis=0)
    g.close(r, exp, 'mean of the statistics', rtol=1e-9)


def case_order(g):
    from kamrecsys.metrics import statistics_mean, mean_squared_error
    k = g.int(1, 5)
    t = {str(i): g.rng.rand(4) for i in range(k)}
    p = {str(i): g.rng.rand(4) for i in range(k)}
    r1 = statistics_mean(mean_squared_error, t, p)
    o1 = [str(i) for i in g.rng.permutation(k)]
    o2 = [str(i) for i in g.rng.permutation(k)]
    r2 = statistics_mean(mean_squared_error, {i: t[i] for i in o1},
                         {i: p[i] for i in o2})
    g.note(k=k, order1=o1, order2=o2)
    g.close(r1, r2, 'independent of insertion order', rtol=1e-12)


def case_type(g):
    from kamrecsys.metrics import statistics_mean
    bad = g.choice([(1, 2), np.array([1., 2.]), 3, 'ab', None, {1, 2}, 1.5])
    g.note(arg=bad)
    g.raises(TypeError, lambda: statistics_mean(lambda *a: 1., bad, bad),
             'other argument types are rejected')


FAMILIES = [(case_mean, 3), (case_order, 1), (case_type, 1)]
