"""C16 Binary-only components accept exactly binary data"""
from engine.harness import *
from kamrecsys.utils import is_binary_score
from kamrecsys.metrics import item_finder_report, item_finder_statistics
from kamrecsys.item_finder.base import BaseExplicitItemFinder
from kamrecsys.item_finder import LogisticPMF
from kamrecsys.data import EventWithScoreData


def truth(v):
    t = ops.truth(v)
    return to_term(t)


def facts(h, n, x):
    """all elements are 0 or 1 / some is 0 / some is 1"""
    allb = h.all([n], lambda i: or_(eq(x(i), ZERO), eq(x(i), ONE)))
    i, j = fresh('i', 'I'), fresh('j', 'I')
    ex0 = exists([i], and_(le(ZERO, i), lt(i, n), eq(x(i), ZERO)))
    ex1 = exists([j], and_(le(ZERO, j), lt(j, n), eq(x(j), ONE)))
    return allb, ex0, ex1


@contract('is_binary_score')
def binary(h, **kw):
    n = h.int('n', 1)
    k = 'f'
    a = h.array('x', [n], k)
    x0 = a.fn()
    allb, ex0, ex1 = facts(h, n, lambda i: x0([i]))
    r = truth(h.call(is_binary_score, a))
    h.ensure('true only if all elements are 0 or 1', imp(r, allb))
    h.ensure('true if all elements are 0 or 1', imp(allb, r))
    h.unchanged('x', a, x0)


@contract('is_binary_score, not uniform')
def nonuniform(h):
    n = h.int('n', 1)
    a = h.array('x', [n], 'f')
    x0 = a.fn()
    allb, ex0, ex1 = facts(h, n, lambda i: x0([i]))
    r = truth(h.call(is_binary_score, a, allow_uniform=False))
    h.ensure('true only if all elements are 0 or 1', imp(r, allb))
    h.ensure('true only if there is a 0', imp(r, ex0))
    h.ensure('true only if there is a 1', imp(r, ex1))
    h.ensure('true if binary and not uniform', imp(and_(allb, ex0, ex1), r))


def finder_fit(h, cls, base):
    from .common import dataset
    d = dataset(h, EventWithScoreData, min_events=1)
    h.assume(le(num(2), d.S))
    m = h.call(cls)
    allb, ex0, ex1 = facts(h, d.N, d.score)
    dom = and_(eq(d.dom(ZERO), ZERO), eq(d.dom(ONE), ONE),
               eq(d.dom(num(2)), ONE))
    lev = eq(var('levels', 'I'), num(2))
    good = and_(dom, lev, allb, ex0, ex1)
    try:
        if base:
            h.call(BaseExplicitItemFinder.fit, m, d.data)
        else:
            h.method(m, 'fit', d.data)
        h.ensure('accepted data are binary', good)
    except PyExc as e:
        h.ensure('rejected with ValueError (got %s)' % e.cls.__name__,
                 TRUE if e.cls is ValueError else FALSE)
        h.ensure('only non-binary data are rejected', not_(good))


@contract('explicit item finder')
def explicit(h):
    finder_fit(h, LogisticPMF, True)


def metric(h, f, kind):
    """the item-finder report and statistics"""
    from .c17 import std2
    n = h.int('n', 1)
    a, b = h.array('x', [n], kind), h.array('p', [n])
    x0, p0 = a.fn(), b.fn()
    x, p = (lambda i: tonum(x0([i]))), (lambda i: tonum(p0([i])))
    allb, ex0, ex1 = facts(h, n, x)
    kw = {}
    if f is item_finder_report:
        kw['disp'] = h.bool('disp')
    try:
        s = h.call(f, a, b, **kw)
    except PyExc as e:
        h.ensure('rejected with ValueError (got %s)' % e.cls.__name__,
                 TRUE if e.cls is ValueError else FALSE)
        h.ensure('only non-binary scores are rejected', not_(allb))
        return
    h.ensure('accepted scores are binary', allb)
    auc = 'area under the curve'
    if auc in s.items:
        h.ensure('contains the area only if both classes occur',
                 and_(ex0, ex1))
        t, q = h.C.auc
        h.elements('true scores given to the metric', t, [n], x)
        h.elements('predictions given to the metric', q, [n], p)
        r = nplib.MODELS[skm.roc_auc_score]([a, b], {})
        h.same('area under the curve', s.items[auc], r)
    else:
        h.ensure('contains the area if both classes occur',
                 not_(and_(ex0, ex1)))
    from .c18 import get
    h.same('number of samples', get(h, s, 'n_samples'), n)
    for k, g in (('true', x), ('predicted', p)):
        M = div(msum(n, g), n)
        h.same('mean of the %s scores' % k, get(h, s, k, 'mean'), M)
        h.same('deviation of the %s scores' % k, get(h, s, k, 'stdev'),
               tsqrt(std2(n, g, M)))
    h.unchanged('true scores', a, x0)
    h.unchanged('predictions', b, p0)


import sklearn.metrics as skm
for _f in (item_finder_report, item_finder_statistics):
    for _k in ('f', 'i'):
        contract('%s of %s' % (_f.__name__, dict(f='reals', i='integers')[
            _k]))(lambda h, f=_f, k=_k: metric(h, f, k))
