"""C17 Error metrics equal their definitions and reject bad input"""
from engine.harness import *
from kamrecsys.metrics import real


def std2(n, f, m):
    return div(msum(n, lambda i: powi(sub(f(i), m), 2)), n)


def inputs(h):
    n = h.int('n', 1)
    t = h.array('t', [n])
    p = h.array('p', [n])
    return n, t, p


@contract('mean_absolute_error')
def mae(h):
    n, t, p = inputs(h)
    t0, p0 = t.fn(), p.fn()
    m, s = h.call(real.mean_absolute_error, t, p)
    e = lambda i: nplib.t_abs(sub(t0([i]), p0([i])))
    M = div(msum(n, e), n)
    h.same('mean', m, M)
    h.same('population standard deviation', s, tsqrt(std2(n, e, M)))
    h.unchanged('y_true', t, t0)
    h.unchanged('y_pred', p, p0)


@contract('mean_squared_error')
def mse(h):
    n, t, p = inputs(h)
    t0, p0 = t.fn(), p.fn()
    r, m, s = h.call(real.mean_squared_error, t, p)
    e = lambda i: powi(sub(t0([i]), p0([i])), 2)
    M = div(msum(n, e), n)
    h.same('mean', m, M)
    h.same('population standard deviation', s, tsqrt(std2(n, e, M)))
    h.same('root mean squared error', r, tsqrt(M))
    h.unchanged('y_true', t, t0)
    h.unchanged('y_pred', p, p0)


def reject(h, f):
    n = h.int('n', 1)
    m = h.int('m', 1)
    h.assume(not_(eq(n, m)))
    h.expect(ValueError, f, h.array('t', [n]), h.array('p', [m]))


def nonfinite(h, f, which):
    n = h.int('n', 1)
    k = h.int('k', 0, n)
    fin = lambda idx: app('finite', tuple(idx), 'B')
    h.assume(not_(app('finite', (k,), 'B')))
    bad = h.array('t', [n], fin=fin)
    ok = h.array('p', [n])
    h.expect(ValueError, f, *((bad, ok) if which == 0 else (ok, bad)))


for _f in (real.mean_absolute_error, real.mean_squared_error):
    contract(_f.__name__ + ' of unequal lengths')(
        lambda h, f=_f: reject(h, f))
    for _w in (0, 1):
        contract(_f.__name__ + ' with a non-finite element in argument %d'
                 % _w)(lambda h, f=_f, w=_w: nonfinite(h, f, w))
