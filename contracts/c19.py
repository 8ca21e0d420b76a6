"""C19 The gamma-prior variance is positive and equals its formula"""
from engine.harness import *
from kamrecsys.metrics import real

f = real.variance_with_gamma_prior


def formula(n, s1, s2, a, b):
    return div(add(mul(num(2), b), s2, neg(div(powi(s1, 2), n))),
               add(mul(num(2), a), n))


def prior(h):
    a, b = h.real('a'), h.real('b')
    h.assume(lt(ZERO, a))
    h.assume(lt(ZERO, b))
    return a, b


def cauchy(h, n, x):
    """lemma: n * sum of squares >= square of the sum, from
    sum (x - mean)^2 >= 0"""
    S1 = msum(n, x)
    S2 = msum(n, lambda i: powi(x(i), 2))
    M = div(S1, n)
    D = msum(n, lambda i: powi(sub(x(i), M), 2))
    h.ensure('lemma: the sum of squared deviations is S2 - S1^2/n',
             eq(D, sub(S2, div(powi(S1, 2), n))))
    h.ensure('lemma: a sum of squares is not negative', le(ZERO, D))
    h.assume(le(ZERO, sub(S2, div(powi(S1, 2), n))))
    return S1, S2


@contract('all elements finite')
def finite(h):
    n = h.int('n', 1)
    a, b = prior(h)
    x = h.array('x', [n])
    x0 = x.fn()
    S1, S2 = cauchy(h, n, lambda i: x0([i]))
    v, m = h.call(f, x, a, b, full_output=True, force_all_finite=True)
    h.same('variance', v, formula(n, S1, S2, a, b))
    h.ensure('variance is positive', lt(ZERO, nterm(v)))
    h.same('number of elements', m, n)
    h.unchanged('x', x, x0)
    v2 = h.call(f, x, a, b, force_all_finite=True)
    h.same('short output', v2, v)


@contract('two-dimensional input')
def matrix(h):
    n = h.int('n', 1)
    m = h.int('m', 1)
    a, b = prior(h)
    x = h.array('x', [n, m])
    x0 = x.fn()
    v, c = h.call(f, x, a, b, full_output=True, force_all_finite=True)
    h.same('number of elements', c, mul(n, m))


@contract('non-finite elements are ignored')
def ignored(h):
    n = h.int('n', 1)
    a, b = prior(h)
    fin = lambda idx: app('finite', tuple(idx), 'B')
    x = h.array('x', [n], fin=fin)
    x0 = x.fn()
    cnt = msum(n, lambda i: ind(fin([i])))
    h.assume(lt(ZERO, cnt))
    S1 = msum(n, lambda i: mul(ind(fin([i])), x0([i])))
    S2 = msum(n, lambda i: mul(ind(fin([i])), powi(x0([i]), 2)))
    M = div(S1, cnt)
    D = msum(n, lambda i: mul(ind(fin([i])), powi(sub(x0([i]), M), 2)))
    h.ensure('lemma: sum of squared deviations',
             eq(D, sub(S2, div(powi(S1, 2), cnt))))
    h.ensure('lemma: it is not negative', le(ZERO, D))
    h.assume(le(ZERO, sub(S2, div(powi(S1, 2), cnt))))
    v, m = h.call(f, x, a, b, full_output=True)
    h.same('number of elements', m, cnt)
    h.same('variance', v, formula(cnt, S1, S2, a, b))
    h.ensure('variance is positive', lt(ZERO, nterm(v)))
    v2 = h.call(f, x, a, b)
    h.same('short output', v2, v)


@contract('no finite element')
def nofinite(h):
    n = h.int('n', 0)
    a, b = prior(h)
    fin = lambda idx: app('finite', tuple(idx), 'B')
    x = h.array('x', [n], fin=fin)
    h.assume(h.all([n], lambda i: not_(fin([i]))))
    h.expect(ValueError, f, x, a, b)


