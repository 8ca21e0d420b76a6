import numpy as np
from .gens import *


def gen_pair(g, n=None):
    n = n or g.int(1, 9)
    k = g.int(0, 4)
    if k == 0:
        a, b = g.rng.randint(1, 6, n), g.rng.randint(1, 6, n)
    elif k == 1:
        a, b = g.rng.randint(1, 6, n), g.rng.rand(n) * 4 + 1
    elif k == 2:
        a, b = g.rng.randn(n) * 100, g.rng.randn(n) * 100
    elif k == 3:
        a = g.rng.randn(n)
        b = a.copy()
    else:
        a, b = g.rng.randn(n) - 3, g.rng.randn(n) * 1e-3 + 5
    return a, b


def mean(xs):
    return sum(xs) / float(len(xs))


def std(xs):
    m = mean(xs)
    return mean([(x - m) ** 2 for x in xs]) ** 0.5


def case_def(g):
    from kamrecsys.metrics import mean_absolute_error, mean_squared_error
    a, b = gen_pair(g)
    A, B = a.copy(), b.copy()
    fa, fb = A, B
    if g.flip(0.2):
        fa = A.tolist()
    if g.flip(0.2):
        fb = B.tolist()
    g.note(y_true=a.tolist(), y_pred=b.tolist())
    e = [abs(float(x) - float(y)) for x, y in zip(a, b)]
    q = [x * x for x in e]
    if isinstance(fa, list) or isinstance(fb, list):
        try:
            r = mean_absolute_error(fa, fb)
        except TypeError:
            return      # lists are no documented input
    r = mean_absolute_error(fa, fb)
    sc = max(1., max(e))
    g.chk(len(r) == 2, 'two values')
    g.close(r[0], mean(e), 'mean absolute error', atol=1e-9 * sc)
    g.close(r[1], std(e), 'standard deviation of absolute errors',
            atol=1e-7 * sc)
    r = mean_squared_error(fa, fb)
    g.chk(len(r) == 3, 'three values')
    g.close(r[0], mean(q) ** 0.5, 'root mean squared error', atol=1e-9 * sc)
    g.close(r[1], mean(q), 'mean squared error', atol=1e-9 * sc ** 2)
    g.close(r[2], std(q), 'standard deviation of squared errors',
            atol=1e-7 * sc ** 2)
    for x in r:
        g.chk(np.ndim(x) == 0, 'scalar results')
    g.same(A, a, 'y_true was modified')
    g.same(B, b, 'y_pred was modified')


def case_bad(g):
    from kamrecsys.metrics import mean_absolute_error, mean_squared_error
    a, b = gen_pair(g)
    k = g.int(0, 2)
    if k < 2:
        t = [a, b]
        t[k] = t[k].astype(float)
        t[k][g.int(0, len(a) - 1)] = g.choice([np.nan, np.inf, -np.inf])
        a, b = t
        what = 'non-finite values were accepted'
    else:
        m = len(a) + g.int(1, 3)
        if g.flip(0.5) :
            m = 1 if len(a) > 1 else 2
        b = g.rng.rand(m)
        if g.flip():
            a, b = b, a
        what = 'unequal lengths were accepted'
    g.note(y_true=a.tolist(), y_pred=b.tolist())
    f = g.choice([mean_absolute_error, mean_squared_error])
    g.raises(ValueError, lambda: f(a, b), what)


FAMILIES = [(case_def, 3), (case_bad, 1)]
