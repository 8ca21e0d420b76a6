"""Symbolic data containers: the representation invariant that set_event
establishes (C01, C02) and every other contract starts from."""
from engine.harness import *
from kamrecsys.data import EventData, EventWithScoreData


class DS(object):
    """names of the parts of a symbolic data set"""


def tables(h, K, tag=''):
    """id tables of K object types; n(o), eid(o, i), known(o, k), iid(o, k)"""
    d = DS()
    d.K = K
    nn, en, kn, im = ('nobj' + tag, 'eid' + tag, 'known' + tag, 'iid' + tag)
    d.n = lambda o: app(nn, (to_term(o),), 'I')
    d.eid = lambda o, i: app(en, (to_term(o), to_term(i)), 'E')
    d.known = lambda o, k: app(kn, (to_term(o), to_term(k)), 'B')
    d.iid = lambda o, k: app(im, (to_term(o), to_term(k)), 'I')
    o, i, j = var('o', 'I'), var('i', 'I'), var('j', 'I')
    k = var('k', 'E')
    oko = and_(le(ZERO, o), lt(o, K))
    inr = lambda i: and_(le(ZERO, i), lt(i, d.n(o)))
    h.assume(forall([o], imp(oko, le(ZERO, d.n(o))), trig=(d.n(o),)))
    h.assume(forall([o, i], imp(and_(oko, inr(i)), and_(
        d.known(o, d.eid(o, i)), eq(d.iid(o, d.eid(o, i)), i))),
        trig=(d.eid(o, i),)))
    h.assume(forall([o, k], imp(and_(oko, d.known(o, k)), and_(
        inr(d.iid(o, k)), eq(d.eid(o, d.iid(o, k)), k))),
        trig=(d.iid(o, k),)))
    h.assume(forall([o, k], imp(and_(oko, d.known(o, k)), inr(
        d.iid(o, k))), trig=(d.known(o, k),)))
    h.assume(forall([o, i, j], imp(
        and_(oko, le(ZERO, i), lt(i, j), lt(j, d.n(o))),
        ltE(d.eid(o, i), d.eid(o, j))), trig=(d.eid(o, i), d.eid(o, j))))
    d.a_n = Arr.make([K], lambda x: d.n(x[0]), 'i')
    d.a_eid = Arr.make([K], memo1(lambda x: Arr.make(
        [d.n(x[0])], lambda y, o=x[0]: d.eid(o, y[0]), 'E', frozen=True)),
        'O')
    d.a_iid = Arr.make([K], memo1(lambda x: fdict(
        lambda k, o=x[0]: d.known(o, k), lambda k, o=x[0]: d.iid(o, k),
        d.n(x[0]))), 'O')
    return d


def fdict(dom, val, n):
    r = SDict(dom, val, n, 'E', None)
    r.frozen = True
    return r


def types(h, K, S=None):
    """event_otypes: S columns with types in 0..K-1"""
    S = h.int('S', 1) if S is None else S
    ot = h.array('otype', [S], 'i', lo=0, hi=K)
    return S, ot


def dataset(h, cls=EventData, K=None, S=None, feature=None,
            score_kind='f', event_feature=None, min_events=0):
    K = h.int('K', 1) if K is None else to_term(K)
    d = tables(h, K)
    d.S, d.a_ot = types(h, K, S)
    d.S = to_term(d.S)
    d.ot = lambda e: app('otype', (to_term(e),), 'I')
    d.N = h.int('N', min_events)
    d.ev = lambda i, e: app('event', (to_term(i), to_term(e)), 'I')
    i, e = var('i', 'I'), var('e', 'I')
    h.assume(forall([i, e], imp(
        and_(le(ZERO, i), lt(i, d.N), le(ZERO, e), lt(e, d.S)),
        and_(le(ZERO, d.ev(i, e)), lt(d.ev(i, e), d.n(d.ot(e))))),
        trig=(d.ev(i, e),)))
    d.a_ev = Arr.make([d.N, d.S], lambda x: d.ev(*x), 'i')
    attrs = dict(n_otypes=K, n_objects=d.a_n, eid=d.a_eid, iid=d.a_iid,
                 feature=feature if feature is not None else
                 Arr.make([K], lambda x: None, 'O'),
                 s_event=d.S, event_otypes=d.a_ot, n_events=d.N,
                 event=d.a_ev, event_feature=event_feature)
    if issubclass(cls, EventWithScoreData):
        attrs['score'] = h.array('score', [d.N], score_kind)
        attrs['score_domain'] = h.array('dom', [num(3)], 'f')
        attrs['n_score_levels'] = h.int('levels', 1)
        d.score = h.fun('score', 'R' if score_kind == 'f' else 'I')
        d.dom = h.fun('dom')
    d.data = h.obj(cls, **attrs)
    return d


def tables_of(h, o, K, S, otf, x, N, t=None):
    """the id tables of the container o that stores the events x(i, e)"""
    nob = h.attr(o, 'n_objects')
    h.shape('numbers of objects', nob, [K])
    eid, iid = h.attr(o, 'eid'), h.attr(o, 'iid')
    h.shape('eid', eid, [K])
    h.shape('iid', iid, [K])
    nob = nob.fn()
    t = h.int('t', 0, K) if t is None else t
    n = tonum(nob([t]))
    E, D = h.item(eid, t), h.item(iid, t)
    h.shape('external ids', E, [n])
    ef = E.fn()
    i, j = fresh('i', 'I'), fresh('j', 'I')
    k = fresh('k', 'E')
    inr = lambda i: and_(le(ZERO, i), lt(i, n))
    h.lemma('external ids increase strictly', forall([i, j], imp(
        and_(le(ZERO, i), lt(i, j), lt(j, n)), ltE(ef([i]), ef([j])))))
    # known external ids are those of the columns of this type
    a, b = fresh('a', 'I'), fresh('b', 'I')
    occ = lambda k: exists([a, b], and_(
        le(ZERO, a), lt(a, N), le(ZERO, b), lt(b, S), eq(otf(b), t),
        eq(x(a, b), k)))
    h.lemma('ids that occur are known', h.all([N, S], lambda a, b: imp(
        eq(otf(b), t), D.dom(x(a, b)))))
    h.lemma('listed ids occur', forall([i], imp(inr(i), occ(ef([i])))))
    h.lemma('internal id of the i-th external id is i', forall([i], imp(
        inr(i), and_(D.dom(ef([i])), eq(D.val(ef([i])), i)))))
    h.lemma('external id of the internal id of a known id', forall([k], imp(
        D.dom(k), and_(inr(D.val(k)), eq(ef([D.val(k)]), k)))))
    h.lemma('known ids occur', forall([k], imp(D.dom(k), occ(k))))
    return n, E, D


def fitted_before(h, o, parameters):
    """the state an earlier call of fit left: arbitrary results and
    parameters (name -> number of dimensions)"""
    for nm, nd in parameters.items():
        sh = [h.int('old.%s.n%d' % (nm, k), 1) for k in range(nd)]
        o.attrs[nm] = h.array('old.' + nm, sh)
    R = o.attrs['fit_results_']
    for k in ('initial_loss', 'final_loss'):
        R.items[k] = h.real('old.' + k)
    for k in ('n_iterations', 'n_users', 'n_items', 'n_events', 'status',
              'n_parameters', 'func_calls', 'grad_calls'):
        R.items[k] = h.int('old.' + k)
    R.items['success'] = h.bool('old.success')
    R.items['message'] = Opaque('old message')
