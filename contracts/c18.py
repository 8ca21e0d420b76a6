"""C18 Score histograms and summary statistics count every sample once"""
from .c06 import domain
from .c17 import std2
from .common import *
from kamrecsys.metrics import (score_histogram, score_predictor_report,
                               score_predictor_statistics)


def nearest(h, m, lo, hi, st, x):
    """index of the level nearest to x; the boundary between two levels
    belongs to the upper one"""
    return lambda j: and_(
        or_(eq(j, ZERO), le(add(lo, mul(sub(j, num('1/2')), st)), x)),
        or_(eq(j, sub(m, ONE)), lt(x, add(lo, mul(add(j, num('1/2')),
                                                  st)))))


def check_hist(h, what, hist, m, lo, hi, st, N, x):
    h.shape(what, hist, [m])
    f = hist.fn()
    # one bin per score, and which
    lv = h.int('level', 0, m)
    h.ensure(what + ': counts the scores nearest to the level', eq(
        tonum(f([lv])), msum(N, lambda e: ind(nearest(
            h, m, lo, hi, st, x(e))(lv)))))
    h.ensure(what + ': counts add up to the number of scores',
             eq(msum(m, lambda c: tonum(f([c]))), N))


def histogram(h, ints, default=False):
    if default:
        m, lo, hi, st = num(5), ONE, num(5), ONE
        lev = lambda i: add(ONE, to_term(i))
        kw = {}
    else:
        m, lo, hi, st, lev = domain(h, ints)
        kw = dict(score_domain=(lo, hi, st))
    N = h.int('N', 1)
    a = h.array('x', [N])
    x = h.fun('x')
    hist, scores = h.call(score_histogram, a, **kw)
    h.elements('level values', scores, [m], lev)
    check_hist(h, 'histogram', hist, m, lo, hi, st, N, x)
    h.unchanged('scores', a, lambda i: x(*i))


def bins(h):
    N, k = h.int('N', 1), h.int('k', 1)
    a = h.array('x', [N])
    x = h.fun('x')
    hist, c = h.call(score_histogram, a, score_domain=k)
    h.shape('histogram', hist, [k])
    f = hist.fn()
    h.ensure('counts add up to the number of scores', eq(
        msum(k, lambda i: tonum(f([i]))), N))
    mn, mx = [tonum(to_term(g(a))) for g in (nplib.np_min, nplib.np_max)]
    half = num('1/2')
    lo = ite(lt(mn, mx), mn, sub(mn, half))
    hi = ite(lt(mn, mx), mx, add(mx, half))
    h.elements('bin centres', c, [k], lambda i: add(lo, mul(
        add(i, half), div(sub(hi, lo), k))))
    h.unchanged('scores', a, lambda i: x(*i))


def nonfinite(h):
    n = h.int('n', 1)
    k = h.int('k', 0, n)
    h.assume(not_(app('finite', (k,), 'B')))
    h.expect(ValueError, score_histogram, h.array(
        'x', [n], fin=lambda i: app('finite', tuple(i), 'B')))


def get(h, d, *keys):
    for k in keys:
        ok = isinstance(d, PDict) and k in d.items
        h.ensure('contains %r' % k, TRUE if ok else FALSE)
        d = d.items[k]
    return d


def keys(h, what, d, ks):
    h.ensure('%s: the keys are %s' % (what, sorted(ks)), TRUE if set(
        d.items) == set(ks) else FALSE)


def two(h):
    n = h.int('n', 1)
    t, p = h.array('t', [n]), h.array('p', [n])
    return n, t, p, h.fun('t'), h.fun('p')


def errors(n, t, p):
    e = lambda i: nplib.t_abs(sub(t(i), p(i)))
    q = lambda i: powi(sub(t(i), p(i)), 2)
    return e, div(msum(n, e), n), q, div(msum(n, q), n)


def moments(h, s, n, t, p):
    for k, f in (('true', t), ('predicted', p)):
        M = div(msum(n, f), n)
        h.same('mean of the %s scores' % k, get(h, s, k, 'mean'), M)
        h.same('deviation of the %s scores' % k, get(h, s, k, 'stdev'),
               tsqrt(std2(n, f, M)))


def report(h, disp):
    n, a, b, t, p = two(h)
    s = h.call(score_predictor_report, a, b, disp=disp)
    h.same('number of samples', get(h, s, 'n_samples'), n)
    e, E, q, Q = errors(n, t, p)
    h.same('mean absolute error', get(h, s, 'mean absolute error'), E)
    h.same('root mean squared error',
           get(h, s, 'root mean squared error'), tsqrt(Q))
    moments(h, s, n, t, p)
    h.unchanged('true scores', a, lambda i: t(*i))
    h.unchanged('predicted scores', b, lambda i: p(*i))


def statistics(h, default):
    n, a, b, t, p = two(h)
    if default:
        m, lo, hi, st = num(5), ONE, num(5), ONE
        lev = lambda i: add(ONE, to_term(i))
        s = h.call(score_predictor_statistics, a, b)
    else:
        m, lo, hi, st, lev = domain(h)
        s = h.call(score_predictor_statistics, a, b,
                   score_domain=(lo, hi, st))
    h.same('number of samples', get(h, s, 'n_samples'), n)
    h.elements('score levels', get(h, s, 'score levels'), [m], lev)
    e, E, q, Q = errors(n, t, p)
    A, B = 'mean absolute error', 'mean squared error'
    h.same('mean of the absolute errors', get(h, s, A, 'mean'), E)
    h.same('deviation of the absolute errors', get(h, s, A, 'stdev'),
           tsqrt(std2(n, e, E)))
    h.same('root of the mean of the squared errors', get(h, s, B, 'rmse'),
           tsqrt(Q))
    h.same('mean of the squared errors', get(h, s, B, 'mean'), Q)
    h.same('deviation of the squared errors', get(h, s, B, 'stdev'),
           tsqrt(std2(n, q, Q)))
    moments(h, s, n, t, p)
    for k, f in (('true', t), ('predicted', p)):
        hist = get(h, s, k, 'histogram')
        check_hist(h, k + ' histogram', hist, m, lo, hi, st, n, f)
        g = hist.fn()
        h.elements(k + ' density', get(h, s, k, 'histogram density'), [m],
                   lambda c: div(tonum(g([c])), n))
    h.unchanged('true scores', a, lambda i: t(*i))
    h.unchanged('predicted scores', b, lambda i: p(*i))


def unequal(h, f):
    n, m = h.int('n', 1), h.int('m', 1)
    h.assume(not_(eq(n, m)))
    h.expect(ValueError, f, h.array('t', [n]), h.array('p', [m]))


contract('score_histogram, reals')(lambda h: histogram(h, False))
contract('score_histogram, integers')(lambda h: histogram(h, True))
contract('score_histogram, default')(lambda h: histogram(h, True, True))
contract('score_histogram, number of bins')(lambda h: bins(h))
contract('score_histogram, non-finite scores')(lambda h: nonfinite(h))
for _d in (False, True):
    contract('score_predictor_report' + (', displayed' if _d else ''))(
        lambda h, d=_d: report(h, d))
    contract('score_predictor_statistics' + (
        ', default domain' if _d else ''))(
            lambda h, d=_d: statistics(h, d))
for _f in (score_predictor_report, score_predictor_statistics):
    contract(_f.__name__ + ' of unequal lengths')(
        lambda h, f=_f: unequal(h, f))
