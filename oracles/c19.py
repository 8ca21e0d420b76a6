from fractions import Fraction
import numpy as np
from .gens import *


def formula(x, a, b):
    n = len(x)
    x = [Fraction(float(v)) for v in x]
    a, b = Fraction(a), Fraction(b)
    s = sum(x)
    return float((2 * b + sum(v * v for v in x) - s * s / n) / (2 * a + n))


def case_formula(g):
    from kamrecsys.metrics import variance_with_gamma_prior as f
    n = g.int(1, 9)
    k = g.int(0, 5)
    # (a constant at a large offset: the rounded formula may be negative)
    off = g.rng.rand() * 10. ** g.int(0, 8)
    x = [lambda: g.rng.randn(n), lambda: g.rng.randint(-5, 6, n),
         lambda: np.full(n, float(g.int(-3, 3))),
         lambda: g.rng.rand(n) * 10 - 2, lambda: g.rng.randint(0, 2, n),
         lambda: np.full(n, off)][k]()
    fin = x.copy()
    mode = g.int(0, 2)
    if mode == 1 and k != 1 and k != 4:
        bad = np.array([g.choice([np.nan, np.inf, -np.inf])
                        for _ in range(g.int(1, 3))])
        x = np.hstack([x, bad])[g.rng.permutation(n + len(bad))]
        fin = x[np.isfinite(x)]
    kw = {}
    a = b = 1e-8
    if g.flip(0.6):
        a = kw['a'] = g.choice([1, 2.5, 1e-3, 0.3, 10.])
    if g.flip(0.6):
        b = kw['b'] = g.choice([1, 0.5, 1e-3, 4., 2])
    if mode == 2:
        kw['force_all_finite'] = True
        if g.flip(0.3) and n % 2 == 0:
            x = x.reshape(2, -1)
    g.note(x=x.tolist(), kw=kw)
    X = x.copy()
    v = f(X, **kw)
    e = formula(fin, a, b)
    big = float(np.sum(fin.astype(float) ** 2)) / len(fin)
    if e <= big * 1e-13:
        g.chk(v > 0, 'variance is not positive', got=v)
    else:
        g.close(v, e, 'variance', rtol=1e-7, atol=1e-13 * max(big, 1e-3))
        g.chk(v > 0, 'variance is not positive', got=v)
    r = f(X, full_output=True, **kw)
    g.chk(len(r) == 2, 'full output')
    g.chk(r[0] == v, 'full output variance')
    g.chk(int(r[1]) == len(fin), 'full output n', got=r[1])
    g.same(np.nan_to_num(X), np.nan_to_num(x), 'x was modified')


def case_none(g):
    from kamrecsys.metrics import variance_with_gamma_prior as f
    n = g.int(0, 4)
    x = np.array([g.choice([np.nan, np.inf, -np.inf]) for _ in range(n)],
                 dtype=float)
    g.note(x=x.tolist())
    g.raises(ValueError, lambda: f(x, full_output=g.flip()),
             'input without finite elements was accepted')


FAMILIES = [(case_formula, 5), (case_none, 1)]
