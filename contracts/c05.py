"""C05 Features, scores and event features stay attached to their owners"""
from .common import *
import numpy as np


def features(h, nd):
    """set_feature: rows in any order, with any additional ids, at least one
    row for every known object; with several rows any of them"""
    d = dataset(h, EventData)
    t = h.int('t', 0, d.K)
    L = h.int('L', 1)
    y = lambda i: app('y', (to_term(i),), 'E')
    ids = Arr.make([L], lambda i: y(*i), 'E')
    shape = [L] + [h.int('F', 1)] * (nd - 1)
    ft = h.array('feat', shape)
    f = ft.fn()
    i, j = var('i', 'I'), var('j', 'I')
    at = lambda i: app('at', (to_term(i),), 'I')
    h.assume(forall([i], imp(and_(le(ZERO, i), lt(i, d.n(t))), and_(
        le(ZERO, at(i)), lt(at(i), L), eq(y(at(i)), d.eid(t, i)))),
        trig=(d.eid(t, i),)))
    # every id is listed once
    h.assume(forall([i, j], imp(and_(
        le(ZERO, i), lt(i, L), le(ZERO, j), lt(j, L), eq(y(i), y(j))),
        eq(i, j)), trig=(y(i), y(j))))
    h.method(d.data, 'set_feature', t, ids, ft)
    h.unchanged('given ids', ids, lambda i: y(*i))
    h.unchanged('given features', ft, f)
    h.overwrite(ft)
    h.overwrite(ids)
    out = h.item(h.attr(d.data, 'feature'), t)
    h.elements('feature', out, [d.n(t)] + shape[1:],
               lambda i, *r: f([at(i)] + list(r)))
    s = h.int('s', 0, d.K)
    h.assume(not_(eq(s, t)))
    h.ensure('features of other types', TRUE if h.item(
        h.attr(d.data, 'feature'), s) is None else FALSE)
    h.unchanged('numbers of objects', d.a_n, lambda i: d.n(*i))


def filtering(h, cls, cond, which, event_feature):
    """surviving objects and events keep their features and scores"""
    K, F = h.int('K', 1), h.int('F', 1)
    n = lambda o: app('nobj', (to_term(o),), 'I')
    ft = lambda o, i, c: app('feat', (to_term(o), to_term(i),
                                      to_term(c)), 'R')
    has = lambda o: {'all': TRUE, 'none': FALSE}.get(
        which, app('has', (to_term(o),), 'B'))
    feat = Arr.make([K], memo1(lambda x: vite(has(x[0]), Arr.make(
        [n(x[0]), F], lambda y, o=x[0]: ft(o, *y), 'f', frozen=True),
        None)), 'O')
    ef = None
    if event_feature:
        G = h.int('G', 1)
        ef = h.array('ef', [h.int('N', 0), G])
        eff = ef.fn()
    d = dataset(h, cls, K=K, feature=feat, event_feature=ef)
    before = dict(d.data.attrs)
    arrays = {k: v.fn() for k, v in before.items()
              if isinstance(v, Arr) and v.kind != 'O'}
    if cond == 'boolean':
        a = Arr.make([d.N], lambda i: app('cond', tuple(i), 'B'), 'b')
    else:
        a = h.array('sel', [h.int('L', 0)], 'i', lo=0, hi=d.N)
    f = h.method(d.data, 'filter_event', a)
    kept = h.call(np.nonzero, a)[0] if cond == 'boolean' else a
    L = kept.shape[0]
    row = kept.fn()
    # events and scores
    if event_feature:
        h.elements('event feature', h.attr(f, 'event_feature'), [L, G],
                   lambda i, c: eff([tonum(row([i])), c]))
    else:
        h.ensure('no event feature', TRUE if h.attr(
            f, 'event_feature') is None else FALSE)
    if cls is EventWithScoreData:
        h.elements('score', h.attr(f, 'score'), [L],
                   lambda i: d.score(tonum(row([i]))))
        h.elements('score domain', h.attr(f, 'score_domain'), [3],
                   lambda i: d.dom(i))
        h.same('number of score levels', h.attr(f, 'n_score_levels'),
               var('levels', 'I'))
    # features of objects
    t = h.int('t', 0, K)
    X = h.item(h.attr(f, 'feature'), t)
    E = h.item(h.attr(f, 'eid'), t)
    e = E.fn()
    if X is None:
        h.ensure('only a type without features has none', not_(has(t)))
    else:
        h.ensure('only a type with features has some', has(t))
        h.elements('feature', X, [E.shape[0], F], lambda i, c: ft(
            t, d.iid(t, e([i])), c))
        h.ensure('features belong to known objects', h.all(
            [E.shape[0]], lambda i: d.known(t, e([i]))))
    # the original is as before
    for k in sorted(before):
        v = d.data.attrs.get(k, UNDEF)
        if not isinstance(v, Arr):
            h.ensure(k + ' of the original is the same',
                     TRUE if v is before[k] or isinstance(v, T) and
                     v == before[k] else FALSE)
        elif v.kind != 'O':
            h.shape(k + ' of the original', v, before[k].shape)
            h.unchanged(k + ' of the original', before[k], arrays[k])
            h.ensure(k + ' of the original is not replaced',
                     TRUE if v is before[k] else FALSE)
    oE, oD, oX = [h.item(h.attr(d.data, k), t)
                  for k in ('eid', 'iid', 'feature')]
    h.elements('external ids of the original', oE, [n(t)],
               lambda i: d.eid(t, i))
    k = fresh('k', 'E')
    h.ensure('known ids of the original', forall([k], and_(
        eq(oD.dom(k), d.known(t, k)),
        imp(oD.dom(k), eq(oD.val(k), d.iid(t, k))))))
    if oX is None:
        h.ensure('features of the original are absent', not_(has(t)))
    else:
        h.elements('features of the original', oX, [n(t), F],
                   lambda i, c: ft(t, i, c))
    # later changes of one container do not show in the other
    for k in ('event', 'score', 'event_feature', 'n_objects'):
        v = f.attrs.get(k)
        if isinstance(v, Arr):
            h.overwrite(v)
            h.unchanged(k + ' of the original after a change of the '
                        'filtered data', before[k], arrays[k])


for _n in (1, 2):
    contract('set_feature, %d-dimensional' % _n)(
        lambda h, n=_n: features(h, n))
for _c in (EventData, EventWithScoreData):
    for _b in ('boolean', 'index'):
        for _w in ('all', 'none', 'some'):
            contract('%s.filter_event, %s, %s types with features' % (
                _c.__name__, _b, _w))(
                lambda h, c=_c, b=_b, w=_w: filtering(
                    h, c, b, w, w != 'none'))
