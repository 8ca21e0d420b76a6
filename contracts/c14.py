"""C14 Predicted scores stay in their range"""
from .fitmf import *
from kamrecsys.score_predictor import MultinomialPLSA
from kamrecsys.utils import safe_sigmoid

TOP = num(34.538776394910684)
EPS = num('1e-15')
EXPIT_AT_TOP = ('1/(1+exp(34.538776394910684)) lies in [1e-15, 1.0001e-15] '
                '(interval arithmetic), expit(-x) = 1 - expit(x)')


def numeric_fact(h):
    """bounds of the logistic function at the documented ends, by interval
    arithmetic on this run"""
    from mpmath import iv
    iv.dps = 60
    c = iv.mpf(1215225160171505) / 35184372088832
    assert float('34.538776394910684') == 1215225160171505 / 35184372088832
    v = 1 / (1 + iv.exp(c))
    assert v.a >= iv.mpf(10) ** -15 and v.b <= iv.mpf('1.0001') / 10 ** 15
    h.C.assumed.add(EXPIT_AT_TOP)
    lo = app('expit', (neg(TOP),), 'R')
    h.assume(le(EPS, lo))
    h.assume(eq(app('expit', (TOP,), 'R'), sub(ONE, lo)))


def clipped(x):
    """x limited to the documented domain"""
    return ite(lt(x, neg(TOP)), neg(TOP), ite(lt(TOP, x), TOP, x))


@contract('safe_sigmoid of a number')
def scalar(h):
    x, y = h.real('x'), h.real('y')
    numeric_fact(h)
    s = nterm(h.call(safe_sigmoid, x))
    t = nterm(h.call(safe_sigmoid, y))
    h.same('logistic function of the clipped argument', s,
           app('expit', (clipped(x),), 'R'))
    h.ensure('monotone', imp(le(x, y), le(s, t)))
    h.ensure('not below 1e-15', le(EPS, s))
    h.ensure('not above 1 - 1e-15', le(s, sub(ONE, EPS)))


@contract('safe_sigmoid of an array')
def vector_(h):
    n = h.int('n', 1)
    a = h.array('x', [n])
    f = a.fn()
    numeric_fact(h)
    s = h.call(safe_sigmoid, a)
    h.elements('value', s, [n], lambda i: app(
        'expit', (clipped(f([i])),), 'R'))
    g = s.fn()
    h.ensure('range', h.all([n], lambda i: and_(
        le(EPS, g([i])), le(g([i]), sub(ONE, EPS)))))
    h.unchanged('argument', a, f)


def logistic(h, cls):
    nu, ni, k = h.int('nu', 1), h.int('ni', 1), h.int('k', 1)
    o = h.call(cls, C=h.real('C'), k=k)
    o.attrs['mu_'] = h.array('par.mu', [ONE])
    for n, sh in (('bu', [nu]), ('bi', [ni]), ('p', [nu, k]),
                  ('q', [ni, k])):
        o.attrs[n + '_'] = h.array('par.' + n, [add(sh[0], ONE)] + sh[1:])
    M, q, ev = query(h, nu, ni)
    out = h.method(o, 'raw_predict', ev)
    h.shape('prediction', out, [M])
    g = out.fn()
    h.ensure('a probability strictly between 0 and 1', h.all(
        [M], lambda j: and_(lt(ZERO, g([j])), lt(g([j]), ONE))))


for _c in (LogisticPMF, ImplicitLogisticPMF):
    contract(_c.__name__ + '.raw_predict')(lambda h, c=_c: logistic(h, c))


def plsa(h, expectation):
    """a model with positive tables (C13), an extra row for unknown ids"""
    nu, ni, k, L = (h.int('nu', 1), h.int('ni', 1), h.int('k', 1),
                    h.int('L', 2))
    o = h.call(MultinomialPLSA, k=k, use_expectation=expectation)
    shapes = {'pZ_': [k], 'pRgZ_': [L, k], 'pXgZ_': [add(nu, ONE), k],
              'pYgZ_': [add(ni, ONE), k]}
    f = {}
    for n, sh in shapes.items():
        o.attrs[n] = h.array(n, sh)
        f[n] = h.fun(n)
        vs = [var('i%d' % j, 'I') for j in range(len(sh))]
        t = f[n](*vs)
        h.assume(forall(vs, lt(ZERO, t), trig=(t,)))
    o.attrs['score_levels'] = h.array('level', [L])
    lev = h.fun('level')
    lo, hi = h.real('lo'), h.real('hi')
    r = var('r', 'I')
    h.assume(forall([r], and_(le(lo, lev(r)), le(lev(r), hi)),
                    trig=(lev(r),)))
    o.attrs['n_score_levels'] = L
    M, q, ev = query(h, nu, ni)

    def w(j, r):
        """unnormalized probability of rating r for the pair of row j"""
        return msum(k, lambda z: mul(f['pZ_'](z), f['pRgZ_'](r, z),
                                     f['pXgZ_'](q(j, 0), z),
                                     f['pYgZ_'](q(j, 1), z)))
    j = h.int('j', 0, M)
    r = fresh('r', 'I')
    h.lemma('weights are positive', forall([r], lt(ZERO, w(j, r))))
    W = msum(L, lambda r: w(j, r))
    h.lemma('the total weight is positive', lt(ZERO, W))
    out = h.method(o, 'raw_predict', ev)
    h.shape('prediction', out, [M])
    p = tonum(out.read([j]))
    if expectation:
        S = msum(L, lambda r: mul(w(j, r), lev(r)))
        h.lemma('prediction is the expectation under the normalized '
                'distribution', eq(p, div(S, W)))
        a = msum(L, lambda r: mul(w(j, r), sub(lev(r), lo)))
        b = msum(L, lambda r: mul(w(j, r), sub(hi, lev(r))))
        h.lemma('deviations from the smallest level', le(ZERO, a))
        h.lemma('deviations from the largest level', le(ZERO, b))
        h.lemma('sum of the deviations from the smallest level',
                eq(a, sub(S, mul(lo, W))))
        h.lemma('sum of the deviations from the largest level',
                eq(b, sub(mul(hi, W), S)))
        s, t = var('s_', 'R'), var('w_', 'R')
        h.lemma('quotient', forall([s, t], imp(lt(ZERO, t), and_(
            imp(le(ZERO, sub(s, mul(lo, t))), le(lo, div(s, t))),
            imp(le(ZERO, sub(mul(hi, t), s)), le(div(s, t), hi))))))
        h.ensure('not below the smallest level', le(lo, p))
        h.ensure('not above the largest level', le(p, hi))
    else:
        r, s = fresh('r', 'I'), fresh('s', 'I')
        h.ensure('a score level of maximal probability', exists([r], and_(
            le(ZERO, r), lt(r, L), eq(p, lev(r)),
            forall([s], imp(and_(le(ZERO, s), lt(s, L)),
                            le(div(w(j, s), W), div(w(j, r), W)))))))
    h.unchanged('query', ev, lambda i: q(*i))


contract('pLSA.raw_predict, expectation')(lambda h: plsa(h, True))
contract('pLSA.raw_predict, mode')(lambda h: plsa(h, False))
