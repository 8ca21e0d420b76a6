"""C06 Score levels, bins and digitized scores agree with the score domain"""
from .common import *
from kamrecsys.metrics import generate_score_bins


def domain(h, ints=False):
    """(minimum, maximum, stride) with m levels"""
    m = h.int('m', 1)
    lo = h.real('lo') if not ints else h.int('lo')
    st = h.real('st') if not ints else h.int('st')
    h.assume(lt(ZERO, st))
    hi = add(lo, mul(sub(m, ONE), st))
    return m, lo, hi, st, lambda i: add(lo, mul(to_term(i), st))


def container(h, m, lo, hi, st, as_array=False):
    N = h.int('N', 1)
    a = Arr.make([N, num(2)], lambda i: app('x', tuple(i), 'E'), 'E')
    o = h.call(EventWithScoreData)
    sc = h.array('sc', [N])
    dom = PList([lo, hi, st])
    if as_array:
        dom = Arr.make([3], lambda i: ite(eq(i[0], ZERO), lo, ite(
            eq(i[0], ONE), hi, st)), 'f')
    h.method(o, 'set_event', a, sc, score_domain=dom)
    return o, N


def same_domain(h, o, lo, hi, st):
    h.elements('score domain', h.attr(o, 'score_domain'), [3],
               lambda i: ite(eq(i, ZERO), lo, ite(eq(i, ONE), hi, st)))


def levels(h, ints, as_array):
    m, lo, hi, st, lev = domain(h, ints)
    o, N = container(h, m, lo, hi, st, as_array)
    h.same('number of levels', h.attr(o, 'n_score_levels'), m)
    same_domain(h, o, lo, hi, st)
    h.elements('level values', h.method(o, 'get_score_levels'), [m], lev)
    same_domain(h, o, lo, hi, st)


def bins(h, ints, how):
    m, lo, hi, st, lev = domain(h, ints)
    if how == 'function':
        b = h.call(generate_score_bins, (lo, hi, st))
    else:
        o, N = container(h, m, lo, hi, st, ints)
        b = h.method(o, 'generate_score_bins')
    h.shape('bins', b, [add(m, ONE)])
    f = b.fn()
    ends = [p.tag.get('inf') if p.tag and p.shape[0] is ONE else None
            for p in (b.tag or {}).get('parts', [b])]
    h.ensure('the first bin is open', TRUE if ends[0] is NINF else FALSE)
    h.ensure('the last bin is open', TRUE if ends[-1] is INF else FALSE)
    h.ensure('boundaries are centres of adjacent levels', h.all(
        [m], lambda i: imp(lt(ZERO, i), eq(f([i]), div(
            add(lev(sub(i, ONE)), lev(i)), num(2))))))


def digitized(h, ints, stored):
    m, lo, hi, st, lev = domain(h, ints)
    o, N = container(h, m, lo, hi, st)
    if stored:
        s = h.fun('sc')
        r = h.method(o, 'digitize_score')
    else:
        N = h.int('n', 0)
        a = h.array('y', [N])
        s = h.fun('y')
        r = h.method(o, 'digitize_score', a)
        h.unchanged('given scores', a, lambda i: s(*i))
    h.shape('indices', r, [N])
    g = r.fn()
    h.lemma('indices of levels', h.all([N], lambda i: and_(
        le(ZERO, tonum(g([i]))), lt(tonum(g([i])), m))))
    j = fresh('j', 'I')
    i = h.int('i', 0, N)
    x, q = s(i), tonum(g([i]))
    h.ensure('index of a level for a score that is a level', forall(
        [j], imp(and_(le(ZERO, j), lt(j, m), eq(x, lev(j))), eq(q, j))))
    # twice the distances
    h.lemma('not nearer to the levels below', or_(eq(q, ZERO), le(
        lev(sub(q, num('1/2'))), x)))
    h.lemma('not nearer to the levels above', or_(
        eq(q, sub(m, ONE)), le(x, lev(add(q, num('1/2'))))))
    dist = lambda j: t_abs(sub(x, lev(j)))
    h.ensure('index of the nearest level', forall([j], imp(and_(
        le(ZERO, j), lt(j, m)), le(dist(q), dist(j)))))


def t_abs(t):
    return ite(le(ZERO, t), t, neg(t))


def estimated(h):
    """no domain: at least two different scores"""
    N = h.int('N', 2)
    a = Arr.make([N, num(2)], lambda i: app('x', tuple(i), 'E'), 'E')
    o = h.call(EventWithScoreData)
    sc = h.array('sc', [N])
    s = h.fun('sc')
    p, q = h.int('p', 0, N), h.int('q', 0, N)
    h.assume(lt(s(p), s(q)))
    h.method(o, 'set_event', a, sc)
    d = h.attr(o, 'score_domain')
    h.shape('score domain', d, [3])
    lo, hi, st = [tonum(d.read([num(k)])) for k in range(3)]
    i, j = fresh('i', 'I'), fresh('j', 'I')
    ok = lambda i: and_(le(ZERO, i), lt(i, N))
    h.ensure('no score below the minimum', h.all(
        [N], lambda i: le(lo, s(i))))
    h.ensure('no score above the maximum', h.all(
        [N], lambda i: le(s(i), hi)))
    h.ensure('the minimum is a score', exists([i], and_(ok(i),
                                                        eq(s(i), lo))))
    h.ensure('the maximum is a score', exists([i], and_(ok(i),
                                                        eq(s(i), hi))))
    h.ensure('the stride is a gap between two scores', exists(
        [i, j], and_(ok(i), ok(j), eq(sub(s(j), s(i)), st), lt(ZERO, st))))
    h.ensure('no smaller gap', h.all([N, N], lambda i, j: imp(
        lt(s(i), s(j)), le(st, sub(s(j), s(i))))))
    # a whole number of strides
    m = h.int('m', 2)
    h.assume(eq(sub(hi, lo), mul(sub(m, ONE), st)))
    h.same('number of levels', h.attr(o, 'n_score_levels'), m)


for _i in (False, True):
    _n = 'integers' if _i else 'reals'
    for _a in (False, True):
        contract('levels, %s%s' % (_n, ', array' if _a else ''))(
            lambda h, i=_i, a=_a: levels(h, i, a))
    for _h in ('function', 'method'):
        contract('generate_score_bins, %s, %s' % (_h, _n))(
            lambda h, i=_i, how=_h: bins(h, i, how))
    for _s in (False, True):
        contract('digitize_score, %s, %s' % (
            'stored' if _s else 'given', _n))(
            lambda h, i=_i, s=_s: digitized(h, i, s))
contract('estimated domain')(lambda h: estimated(h))
