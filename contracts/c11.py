"""C11 The gradient is the exact derivative of the loss"""
from . import mf
from .mf import *

RULES = {
    'expit': lambda x: mul(app('expit', (x,), 'R'),
                           sub(ONE, app('expit', (x,), 'R'))),
    'log': lambda x: inv(x),
}
CLIP = num('34.538776394910684')


def unclipped(h, m, cls):
    """no linear predictor is clipped"""
    u, i = var('u', 'I'), var('i', 'I')
    if cls is ImplicitLogisticPMF:
        t = linear(m, u, i)
        rg = and_(le(ZERO, u), lt(u, m.nu), le(ZERO, i), lt(i, m.ni))
        vs = [u, i]
    else:
        t = linear(m, m.ev(i, 0), m.ev(i, 1))
        rg = and_(le(ZERO, i), lt(i, m.N))
        vs = [i]
    h.assume(forall(vs, imp(rg, and_(lt(neg(CLIP), t), lt(t, CLIP)))))


def grad(h, cls):
    m = model(h, cls)
    if cls is not PMF:
        unclipped(h, m, cls)
    h.C.check_div = False
    g = h.method(m.o, 'grad_loss', m.coef, *m.args)
    if not isinstance(g, Arr) or g.struct is None or \
            not g.struct.dt.same(m.dt):
        raise Unsupported('gradient without parameter views')
    h.same('the gradient has one component per parameter', g.shape[0],
           m.size)
    save = mf.sigmoid
    mf.sigmoid = lambda x: app('expit', (tonum(x),), 'R')
    try:
        obj = objective(m, cls)
    finally:
        mf.sigmoid = save
    for nm, sh in m.shapes.items():
        f = m.field[nm]
        b = g.struct.fields[f]
        vs = [fresh('t', 'I') for _ in b.shape]
        C = h.C
        rg = [and_(le(ZERO, v), lt(v, s)) for v, s in zip(vs, b.shape)]
        d = diff(obj, 'coef.' + f, vs, RULES)
        h.ensure('component of ' + nm + ' is the partial derivative',
                 forall(vs, imp(and_(*rg), eq(tonum(b.content(tuple(vs))),
                                              d))))
    for f, b in m.fields.items():
        a = Arr(b, [('d', k, ZERO) for k in range(b.ndim)], list(b.shape),
                'f')
        h.unchanged('parameter ' + f, a, lambda i, f=f: app(
            'coef.' + f, tuple(i), 'R'))
    h.ensure('the gradient does not share memory with the parameters',
             TRUE if g.buf is not m.coef.buf and not any(
                 x is y for x in g.struct.fields.values()
                 for y in m.fields.values()) else FALSE)


for _c in (PMF, LogisticPMF, ImplicitLogisticPMF):
    contract(_c.__name__ + '.grad_loss')(lambda h, c=_c: grad(h, c))
