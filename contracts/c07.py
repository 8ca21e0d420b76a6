"""C07 Binarizing scores applies the threshold and nothing else"""
from engine.harness import *
from kamrecsys.data import EventWithScoreData


def data(h):
    """any scored data set: arbitrary events, ids, features"""
    n = h.int('n', 1)
    d = h.obj(EventWithScoreData, n_otypes=h.int('n_otypes', 1),
              n_objects=h.array('n_objects', [var('n_otypes', 'I')], 'i'),
              s_event=h.int('s', 1), n_events=n,
              eid=Opaque('eid'), iid=Opaque('iid'), feature=Opaque('feature'),
              event_otypes=h.array('event_otypes', [var('s', 'I')], 'i'),
              event=h.array('event', [n, var('s', 'I')], 'i'),
              event_feature=Opaque('event_feature'),
              score=h.array('score', [n], 'f'),
              score_domain=h.array('dom', [3], 'f'),
              n_score_levels=h.int('levels', 1))
    return n, d


def check(h, n, d, thresh):
    before = dict(d.attrs)
    arrs = {k: v.fn() for k, v in before.items() if isinstance(v, Arr)}
    sc = before['score'].fn()
    h.method(d, 'binarize_score', *([] if thresh is None else [thresh]))
    if thresh is None:
        dm = arrs['score_domain']
        # the centre of the domain
        t = div(add(dm([ZERO]), dm([ONE])), num(2))
    else:
        t = thresh
    s = h.attr(d, 'score')
    h.elements('score', s, [n],
               lambda i: ite(le(sc([i]), t), ZERO, ONE))
    h.elements('score domain', h.attr(d, 'score_domain'), [3],
               lambda i: ite(eq(i, ZERO), ZERO, ONE))
    h.same('number of levels', h.attr(d, 'n_score_levels'), 2)
    for k in before:
        if k in ('score', 'score_domain', 'n_score_levels'):
            continue
        v = d.attrs.get(k, UNDEF)
        if isinstance(before[k], Arr):
            h.shape(k, v, before[k].shape)
            h.unchanged(k, v, arrs[k])
        else:
            h.ensure(k + ' is unchanged',
                     TRUE if v is before[k] else FALSE)
    h.ensure('no attribute is added',
             TRUE if set(d.attrs) == set(before) else FALSE)
    h.unchanged('the original score array', before['score'], sc)


@contract('given threshold')
def given(h):
    n, d = data(h)
    check(h, n, d, h.real('thresh'))


@contract('integer threshold zero')
def zero(h):
    n, d = data(h)
    check(h, n, d, ZERO)


@contract('default threshold')
def default(h):
    n, d = data(h)
    check(h, n, d, None)


@contract('negative integer scores')
def ints(h):
    n, d = data(h)
    d.attrs['score'] = h.array('isc', [n], 'i')
    check(h, n, d, h.int('ithresh'))
