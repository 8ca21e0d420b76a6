"""C10 The training loss is the documented regularized objective"""
from .mf import *


def layout(h, m):
    """the parameters are disjoint and fill the vector"""
    for nm, sh in m.shapes.items():
        h.shape(nm, m.o.attrs[nm], sh)
    h.ensure('the parameters are disjoint', TRUE if len(set(
        m.field.values())) == 5 and len(m.fields) == 5 else FALSE)
    h.same('the vector holds the parameters and nothing else', m.size,
           add(*[mul(*sh) for sh in m.shapes.values()]))


def loss(h, cls):
    m = model(h, cls)
    h.C.check_div = True
    r = h.method(m.o, 'loss', m.coef, *m.args)
    h.same('loss is the documented objective', r, objective(m, cls))
    for f, b in m.fields.items():
        a = Arr(b, [('d', k, ZERO) for k in range(b.ndim)], list(b.shape),
                'f')
        h.unchanged('parameter ' + f, a, lambda i, f=f: app(
            'coef.' + f, tuple(i), 'R'))
    layout(h, m)


for _c in (PMF, LogisticPMF, ImplicitLogisticPMF):
    contract(_c.__name__ + '.loss')(lambda h, c=_c: loss(h, c))
