"""C15 The implicit-feedback matrix marks exactly the consumed pairs"""
from .fitmf import *


def model(h):
    nu, ni, N = h.int('nu', 1), h.int('ni', 1), h.int('N', 1)
    d = Run()
    d.N = N
    d.ev = lambda i, e: app('event', (to_term(i), to_term(e)), 'I')
    i = var('i', 'I')
    for e, n in ((0, nu), (1, ni)):
        h.assume(forall([i], imp(
            and_(le(ZERO, i), lt(i, N)),
            and_(le(ZERO, d.ev(i, e)), lt(d.ev(i, e), n))),
            trig=(d.ev(i, e),)))
    o = h.call(ImplicitLogisticPMF)
    o.attrs['event'] = Arr.make([N, num(2)], lambda x: d.ev(*x), 'i')
    o.attrs['n_events'] = N
    o.attrs['n_objects'] = Arr.make([num(2)], lambda x: ite(
        eq(x[0], ZERO), nu, ni), 'i')
    return o, d, nu, ni


def matrix(h, fmt):
    o, d, nu, ni = model(h)
    args = [] if fmt is None else [fmt]
    m, n = h.method(o, 'get_event_array', *args)
    if fmt == 'array':
        h.ensure('a dense array is returned', TRUE if isinstance(m, Arr)
                 else FALSE)
        entry = lambda u, i: tonum(m.read([u, i]))
    else:
        h.ensure('storage type', TRUE if isinstance(m, nplib.Sparse) and
                 m.fmt == (fmt or 'csr') else FALSE)
        entry = lambda u, i: tonum(to_term(m.entry(u, i)))
    h.ensure('an entry is 1 exactly for the pairs that occur', marks(
        h, d, 0, 1, nu, ni, m.shape, entry))
    h.elements('object counts', n, [num(2)], lambda e: ite(
        eq(e, ZERO), nu, ni))
    h.unchanged('events', o.attrs['event'], lambda i: d.ev(*i))


for _f in (None, 'csr', 'csc', 'lil', 'array'):
    contract('get_event_array(%s)' % (_f or ''))(
        lambda h, f=_f: matrix(h, f))


def illegal(h, v):
    o, d, nu, ni = model(h)
    try:
        h.method(o, 'get_event_array', v)
        h.ensure('TypeError is raised', FALSE)
    except PyExc as e:
        h.ensure('TypeError is raised', TRUE if e.cls is TypeError
                 else FALSE)


for _v in ('coo', 'dense', 'CSR', '', 'csr ', None, 0):
    contract('get_event_array(%r)' % (_v,),
             bounded='the storage type %r' % (_v,))(
        lambda h, v=_v: illegal(h, v))


@contract('columns chosen at fitting')
def columns(h):
    """the matrix of the fitted model is that of the selected columns"""
    fit(h, ImplicitLogisticPMF)
