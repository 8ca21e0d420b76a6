"""Matrix-factorization models with arbitrary parameters"""
from engine.harness import *
from engine.norm import diff, NotDifferentiable
from kamrecsys.score_predictor import PMF
from kamrecsys.item_finder import LogisticPMF, ImplicitLogisticPMF


class MF(object):
    pass


def events(h, m):
    """arbitrary training events; nu users, ni items, N events"""
    m.nu, m.ni = h.int('nu', 1), h.int('ni', 1)
    m.N = h.int('N', 1)
    n0 = [m.nu, m.ni]
    m.ev = lambda i, e: app('ev', (to_term(i), to_term(e)), 'I')
    i = var('i', 'I')
    for e in (0, 1):
        h.assume(forall([i], imp(
            and_(le(ZERO, i), lt(i, m.N)),
            and_(le(ZERO, m.ev(i, e)), lt(m.ev(i, e), n0[e]))),
            trig=(m.ev(i, e),)))
    m.a_ev = Arr.make([m.N, num(2)], lambda x: m.ev(*x), 'i')
    m.nobj = Arr.make([num(2)], lambda x: ite(eq(x[0], ZERO), m.nu, m.ni),
                      'i')


def model(h, cls):
    """a model whose coefficient vector, read through the parameter views
    that _init_coef makes, is arbitrary: mu, bu(i), bi(i), p(i, f), q(i, f)"""
    m = MF()
    m.k = h.int('k', 1)
    m.C = h.real('C')
    events(h, m)
    m.o = h.call(cls, C=m.C, k=m.k)
    m.o.attrs['_rng'] = nplib.rng_value()
    if cls is ImplicitLogisticPMF:
        r = h.fun('rating', 'I')
        m.sc = r
        u, i = var('u', 'I'), var('i', 'I')
        h.assume(forall([u, i], or_(eq(r(u, i), ZERO), eq(r(u, i), ONE)),
                        trig=(r(u, i),)))
        m.data = nplib.Sparse([m.nu, m.ni], lambda u, i: r(u, i), 'csr')
        m.args = [m.data, m.nobj]
    else:
        m.a_sc = h.array('sc', [m.N], 'f')
        m.sc = h.fun('sc')
        if cls is LogisticPMF:
            i = var('i', 'I')
            h.assume(forall([i], or_(eq(m.sc(i), ZERO), eq(m.sc(i), ONE)),
                            trig=(m.sc(i),)))
        m.data = m.a_ev
        m.args = [m.a_ev, m.a_sc, m.nobj]
    h.method(m.o, '_init_coef', *m.args)
    # every value of the coefficient vector
    v = m.o.attrs['_coef']
    m.size = v.shape[0]
    m.shapes = {'mu_': [ONE], 'bu_': [m.nu], 'bi_': [m.ni],
                'p_': [m.nu, m.k], 'q_': [m.ni, m.k]}
    if v.struct is None:
        raise Unsupported('coefficient vector without parameter views')
    m.dt = v.struct.dt
    m.field = {}
    for nm in m.shapes:
        a = m.o.attrs[nm]
        fs = [f for f, b in v.struct.fields.items() if a.buf is b]
        if len(fs) != 1:
            raise Unsupported('parameter views')
        m.field[nm] = fs[0]
    m.fields = {f: Buffer(memo1(lambda x, f=f: app('coef.' + f, tuple(x),
                                                   'R')),
                          list(b.shape), 'f')
                for f, b in v.struct.fields.items()}
    m.coef = vector(m)

    def par(nm, *idx):
        b = m.o.attrs[nm].bidx([to_term(x) for x in idx])
        return app('coef.' + m.field[nm], tuple(b), 'R')
    m.par = par
    return m


def vector(m):
    def flat(i):
        raise Unsupported('element of the flat parameter vector')
    r = Arr.make([m.size], flat, 'f')
    r.struct = Struct(m.size, m.dt, m.fields)
    return r


def linear(m, u, i):
    return add(m.par('mu_', 0), m.par('bu_', u), m.par('bi_', i),
               msum(m.k, lambda f: mul(m.par('p_', u, f),
                                       m.par('q_', i, f))))


def reg(m):
    sq = lambda t: powi(t, 2)
    return add(msum(m.nu, lambda i: sq(m.par('bu_', i))),
               msum(m.ni, lambda i: sq(m.par('bi_', i))),
               msum(m.nu, lambda i: msum(m.k, lambda f: sq(
                   m.par('p_', i, f)))),
               msum(m.ni, lambda i: msum(m.k, lambda f: sq(
                   m.par('q_', i, f)))))


def sigmoid(x):
    from kamrecsys.utils import safe_sigmoid
    return nterm(interp.call(safe_sigmoid, [x]))


def bce(y, p):
    return neg(add(mul(y, app('log', (p,), 'R')),
                   mul(sub(ONE, y), app('log', (sub(ONE, p),), 'R'))))


def objective(m, cls):
    """the documented loss"""
    half = div(ONE, num(2))
    rg = mul(half, m.C, reg(m))
    if cls is PMF:
        d = msum(m.N, lambda i: powi(sub(m.sc(i), linear(
            m, m.ev(i, 0), m.ev(i, 1))), 2))
        return add(mul(half, d), rg)
    if cls is LogisticPMF:
        d = msum(m.N, lambda i: bce(m.sc(i), sigmoid(linear(
            m, m.ev(i, 0), m.ev(i, 1)))))
        return add(d, rg)
    d = msum(m.nu, lambda u: msum(m.ni, lambda i: bce(
        m.sc(u, i), sigmoid(linear(m, u, i)))))
    return add(d, rg)


def query(h, nu, ni):
    """arbitrary pairs of internal ids; the ids nu and ni are unknown"""
    M = h.int('M', 1)
    q = lambda i, e: app('query', (to_term(i), to_term(e)), 'I')
    i = var('i', 'I')
    h.assume(forall([i], imp(and_(le(ZERO, i), lt(i, M)), and_(
        le(ZERO, q(i, 0)), le(q(i, 0), nu), le(ZERO, q(i, 1)),
        le(q(i, 1), ni))), trig=(q(i, 0),)))
    h.assume(forall([i], imp(and_(le(ZERO, i), lt(i, M)), and_(
        le(ZERO, q(i, 1)), le(q(i, 1), ni))), trig=(q(i, 1),)))
    return M, q, Arr.make([M, num(2)], lambda x: q(*x), 'i')
