"""Fitting a matrix-factorization model to an arbitrary data set"""
from . import mf
from .mf import *
from .common import dataset, fitted_before
from kamrecsys.data import EventData, EventWithScoreData


class Run(object):
    pass


def deep(v, seen=None):
    """readable snapshot of an object graph: [(path, kind, value)]"""
    seen = {} if seen is None else seen
    if isinstance(v, Arr):
        return ('arr', v, v.buf, list(v.shape), v.fn())
    if isinstance(v, PDict):
        return ('dict', v, [(k, deep(x)) for k, x in v.items.items()])
    return ('val', v)


def same_state(h, name, s, now):
    if s[0] == 'arr':
        v = s[1]
        if now is not v:
            h.ensure(name + ' is the same array', TRUE if isinstance(
                now, Arr) else FALSE)
        if now.kind == 'O':
            # written nowhere: the contents are the same function
            h.ensure(name + ' is unchanged', TRUE if v.buf.log == ()
                     else FALSE)
            return
        h.shape(name, now, s[3])
        f = s[4]
        h.unchanged(name, now, lambda i: f(list(i)))
    elif s[0] == 'dict':
        h.ensure(name + ' keeps its keys', TRUE if isinstance(
            now, PDict) and list(now.items) == [k for k, _ in s[2]]
            else FALSE)
        for k, x in s[2]:
            same_state(h, '%s[%r]' % (name, k), x, now.items[k])
    else:
        v = s[1]
        if is_scalar(v) and is_scalar(now):
            h.ensure(name + ' is unchanged', eq(to_term(v), to_term(now)))
        else:
            h.ensure(name + ' is unchanged', TRUE if now is v else FALSE)


def binary(h, d):
    """the scores are binary"""
    i = var('i', 'I')
    h.assume(forall([i], or_(eq(d.score(i), ZERO), eq(d.score(i), ONE)),
                    trig=(d.score(i),)))
    h.assume(and_(eq(d.dom(ZERO), ZERO), eq(d.dom(ONE), ONE),
                  eq(d.dom(num(2)), ONE), eq(var('levels', 'I'), num(2))))
    for w, v in (('w0', ZERO), ('w1', ONE)):
        w = h.int(w, 0, d.N)
        h.assume(eq(d.score(w), v))


def marks(h, d, a, b, nu, ni, shape, entry):
    """entry(u, i) is 1 if the pair occurs in an event, 0 otherwise"""
    def one(u, i):
        e = fresh('e', 'I')
        occ = exists([e], and_(le(ZERO, e), lt(e, d.N), eq(d.ev(e, a), u),
                               eq(d.ev(e, b), i)))
        x = entry(u, i)
        return or_(and_(occ, eq(x, ONE)), and_(not_(occ), eq(x, ZERO)))
    return and_(eq(shape[0], nu), eq(shape[1], ni), h.all([nu, ni], one))


def fit(h, cls, options=True, again=False):
    r = Run()
    r.d = d = dataset(h, EventData if cls is ImplicitLogisticPMF else
                      EventWithScoreData, min_events=1)
    if cls is LogisticPMF:
        binary(h, d)
    r.a, r.b = h.int('col_a', 0, d.S), h.int('col_b', 0, d.S)
    r.k, r.C = h.int('k', 1), h.real('C')
    r.opts = PDict({'gtol': h.real('gtol')})
    if options:
        r.o = h.call(cls, C=r.C, k=r.k, options=r.opts,
                     maxiter=h.int('maxiter', 1))
    else:
        r.o = h.call(cls, C=r.C, k=r.k)
    if again:
        fitted_before(h, r.o, dict(mu_=1, bu_=1, bi_=1, p_=2, q_=2))
    r.before = deep(PDict(dict(d.data.attrs)))
    r.opts_before = deep(r.opts)
    C = h.C
    C.check_div = True
    h.method(r.o, 'fit', d.data, (r.a, r.b))
    r.call = getattr(C, 'min_call', None)
    if r.call is None:
        raise Unsupported('fit does not call scipy.optimize.minimize')
    m = r.m = mf.MF()
    m.k, m.C, m.N = r.k, r.C, d.N
    m.nu, m.ni = d.n(d.ot(r.a)), d.n(d.ot(r.b))
    m.ev = lambda i, e: d.ev(i, r.a if cint_(e) == 0 else r.b)
    if cls is ImplicitLogisticPMF:
        mat = r.call['args'][0]
        if not isinstance(mat, nplib.Sparse):
            raise Unsupported('training matrix')
        m.sc = lambda u, i: tonum(to_term(mat.entry(u, i)))
        h.ensure('the model is trained on the implicit-feedback matrix',
                 marks(h, d, r.a, r.b, m.nu, m.ni, mat.shape, m.sc))
    else:
        m.sc = d.score

    def par(nm, *idx):
        a = r.o.attrs[nm]
        return tonum(a.read([to_term(x) for x in idx]))
    m.par = par
    return r


def cint_(e):
    return ops.cint(to_term(e)) if not isinstance(e, int) else e
