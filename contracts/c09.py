"""C09 Matrix-factorization predictions follow the formula"""
from .fitmf import *


def predicted(h, o, cls, nu, ni, k, mu, bu, bi, p, r):
    """known rows contribute their parameters, the extra row nothing"""
    M, q, ev = query(h, nu, ni)
    out = h.method(o, 'raw_predict', ev)

    def one(j):
        u, i = q(j, 0), q(j, 1)
        x = add(mu(ZERO), ite(lt(u, nu), bu(u), ZERO),
                ite(lt(i, ni), bi(i), ZERO),
                ite(and_(lt(u, nu), lt(i, ni)), msum(
                    k, lambda f: mul(p(u, f), r(i, f))), ZERO))
        return x if cls is PMF else sigmoid(x)
    h.elements('prediction', out, [M], one)
    h.unchanged('query', ev, lambda i: q(*i))


def modular(h, cls):
    """from the parameters a fitted model holds (C12)"""
    nu, ni, k = h.int('nu', 1), h.int('ni', 1), h.int('k', 1)
    o = h.call(cls, C=h.real('C'), k=k)
    f = {n: h.fun('par.' + n) for n in ('mu', 'bu', 'bi', 'p', 'q')}
    o.attrs['mu_'] = Arr.make([ONE], lambda x: f['mu'](*x), 'f')
    for n, s in (('bu', nu), ('bi', ni)):
        o.attrs[n + '_'] = Arr.make([add(s, ONE)], lambda x, n=n, s=s: ite(
            eq(x[0], s), ZERO, f[n](*x)), 'f')
    for n, s in (('p', nu), ('q', ni)):
        o.attrs[n + '_'] = Arr.make(
            [add(s, ONE), k], lambda x, n=n, s=s: ite(
                eq(x[0], s), ZERO, f[n](*x)), 'f')
    predicted(h, o, cls, nu, ni, k, f['mu'], f['bu'], f['bi'], f['p'],
              f['q'])


def composed(h, cls):
    """fitting, then predicting"""
    r = fit(h, cls)
    opt = lambda n: lambda *i: app('opt.' + n, tuple(
        to_term(x) for x in i), 'R')
    r.o.attrs.setdefault('fit_results_', None)
    predicted(h, r.o, cls, r.m.nu, r.m.ni, r.k, opt('mu'), opt('bu'),
              opt('bi'), opt('p'), opt('q'))


for _c in (PMF, LogisticPMF, ImplicitLogisticPMF):
    contract(_c.__name__ + '.raw_predict')(lambda h, c=_c: modular(h, c))
    contract(_c.__name__ + ': fit, then raw_predict')(
        lambda h, c=_c: composed(h, c))
