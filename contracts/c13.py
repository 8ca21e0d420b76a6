"""C13 The topic model always holds valid, smoothed probability tables

The expectation step, the maximization step and the loss are stated as
mathematical functions of the tables; maximization_step and loss are checked
against them on their own, and fit is checked with an invariant of its main
loop: the tables are positive, and every iteration replaces them by
mstep(estep(tables))."""
from .common import *
from engine.interp import CONTRACTS, fn_key
from engine.loops import LoopSpec
from kamrecsys.score_predictor import MultinomialPLSA

NAMES = ('pZ_', 'pXgZ_', 'pYgZ_', 'pRgZ_')


class M(object):
    pass


class Tables(object):
    """tables as functions: z(k), x(u, k), y(i, k), r(s, k)"""

    def __init__(self, *f):
        self.f = f
        self.z, self.x, self.y, self.r = f


def read(o):
    """the tables a model holds now"""
    out = []
    for nm in NAMES:
        a = o.attrs.get(nm)
        if not isinstance(a, Arr):
            raise Unsupported('table ' + nm)
        out.append(lambda *i, f=a.fn(): tonum(to_term(
            f([to_term(v) for v in i]))))
    return Tables(*out)


def shapes(m):
    return ([m.k], [m.nu, m.k], [m.ni, m.k], [m.ns, m.k])


def joint(m, t, i, k):
    return mul(t.z(k), t.r(m.sc(i), k), t.x(m.ev(i, 0), k),
               t.y(m.ev(i, 1), k))


def marginal(m, t, i):
    return msum(m.k, lambda k: joint(m, t, i, k))


def estep(m, t):
    return lambda i, k: div(joint(m, t, i, k), marginal(m, t, i))


def counts(m, q):
    """smoothed expected counts"""
    def c(idx):
        return lambda a, k: add(m.alpha, msum(m.N, lambda i: ite(
            eq(idx(i), to_term(a)), q(i, k), ZERO)))
    return (lambda k: add(m.alpha, msum(m.N, lambda i: q(i, k))),
            c(lambda i: m.ev(i, 0)), c(lambda i: m.ev(i, 1)), c(m.sc))


def mstep(m, q):
    c = counts(m, q)
    sh = shapes(m)
    out = [lambda k: div(c[0](k), msum(m.k, c[0]))]
    for f, s in list(zip(c, sh))[1:]:
        out.append(lambda a, k, f=f, s=s: div(
            f(a, k), msum(s[0], lambda b: f(b, k))))
    return Tables(*out)


def nll(m, t):
    return div(neg(msum(m.N, lambda i: app('log', (
        marginal(m, t, i),), 'R'))), m.N)


def positive(m, t):
    return [(nm + ' is positive', h_all(s, lambda *i, f=f: lt(ZERO, f(*i))))
            for nm, f, s in zip(NAMES, t.f, shapes(m))]


def h_all(shape, f):
    vs = [fresh('e', 'I') for _ in shape]
    rg = and_(*([le(ZERO, v) for v in vs] +
                [lt(v, to_term(s)) for v, s in zip(vs, shape)]))
    return forall(vs, imp(rg, f(*vs)))


def sums(m, t):
    out = [('pZ_ sums to one', eq(msum(m.k, t.z), ONE))]
    for nm, f, s in list(zip(NAMES, t.f, shapes(m)))[1:]:
        out.append((nm + ' sums to one for every class', h_all(
            [m.k], lambda k, f=f, s=s: eq(msum(s[0], lambda a: f(a, k)),
                                          ONE))))
    return out


def have_shapes(h, m, what, extra=0):
    for nm, s in zip(NAMES, shapes(m)):
        e = 1 if extra and nm in ('pXgZ_', 'pYgZ_') else 0
        h.shape('%s %s' % (what, nm), m.o.attrs[nm],
                [add(s[0], num(e))] + s[1:])


def check_mstep(h, m, what, q):
    """the tables are those of the maximization step for q >= 0"""
    have_shapes(h, m, what)
    t, ref = read(m.o), mstep(m, q)
    c = counts(m, q)
    for nm, f, s in zip(NAMES, c, shapes(m)):
        h.lemma('%s the counts of %s are positive' % (what, nm), h_all(
            s, lambda *i, f=f: lt(ZERO, f(*i))))
    h.lemma('%s the total count is positive' % what, lt(ZERO, msum(
        m.k, c[0])))
    for nm, f, s in list(zip(NAMES, c, shapes(m)))[1:]:
        h.lemma('%s the totals of %s are positive' % (what, nm), h_all(
            [m.k], lambda k, f=f, s=s: lt(ZERO, msum(
                s[0], lambda a: f(a, k)))))
    for nm, f, g, s in zip(NAMES, t.f, ref.f, shapes(m)):
        h.ensure('%s %s holds the smoothed, normalized expected counts' % (
            what, nm), h_all(s, lambda *i, f=f, g=g: eq(f(*i), g(*i))))
    for nm, p in positive(m, t) + sums(m, t):
        h.lemma('%s %s' % (what, nm), p)


def symbols(h):
    m = M()
    m.k, m.ns = h.int('k', 1), h.int('levels', 1)
    m.alpha = h.real('alpha')
    h.assume(lt(ZERO, m.alpha))
    m.N = h.int('N', 1)
    m.nu, m.ni = h.int('nu', 1), h.int('ni', 1)
    m.ev = lambda i, e: app('ev', (to_term(i), to_term(e)), 'I')
    m.sc = lambda i: app('sc', (to_term(i),), 'I')
    i = var('i', 'I')
    for e, n in ((0, m.nu), (1, m.ni)):
        h.assume(forall([i], imp(
            and_(le(ZERO, i), lt(i, m.N)),
            and_(le(ZERO, m.ev(i, e)), lt(m.ev(i, e), n))),
            trig=(m.ev(i, e),)))
    h.assume(forall([i], imp(
        and_(le(ZERO, i), lt(i, m.N)),
        and_(le(ZERO, m.sc(i)), lt(m.sc(i), m.ns))), trig=(m.sc(i),)))
    m.o = h.call(MultinomialPLSA, k=m.k, alpha=m.alpha)
    m.o.attrs['n_events'] = m.N
    m.o.attrs['n_score_levels'] = m.ns
    m.a_ev = Arr.make([m.N, num(2)], lambda x: m.ev(*x), 'i')
    m.a_sc = Arr.make([m.N], lambda x: m.sc(*x), 'i')
    m.nobj = Arr.make([num(2)], lambda x: ite(eq(x[0], ZERO), m.nu, m.ni),
                      'i')
    return m


def frame(h, m, before, but=()):
    """other attributes of the model are what they were"""
    now = m.o.attrs
    for k in sorted(set(before) | set(now)):
        if k not in but:
            a, b = before.get(k, UNDEF), now.get(k, UNDEF)
            same = a is b or (not isinstance(a, Value) and not isinstance(
                a, T) and type(a) is type(b) and a == b)
            h.ensure('attribute %s is kept' % k, TRUE if same else FALSE)


def maximization(h):
    m = symbols(h)
    h.C.check_div = False
    q = lambda i, k: app('q', (to_term(i), to_term(k)), 'R')
    i, k = var('i', 'I'), var('k!', 'I')
    h.assume(forall([i, k], imp(and_(
        le(ZERO, i), lt(i, m.N), le(ZERO, k), lt(k, m.k)),
        le(ZERO, q(i, k))), trig=(q(i, k),)))
    m.o.attrs['_q'] = Arr.make([m.N, m.k], lambda x: q(*x), 'f')
    before = dict(m.o.attrs)
    h.method(m.o, 'maximization_step', m.a_ev, m.a_sc, m.nobj)
    frame(h, m, before, NAMES)
    check_mstep(h, m, 'after a maximization step', q)
    h.elements('responsibilities', m.o.attrs['_q'], [m.N, m.k], q)
    h.unchanged('events', m.a_ev, lambda i: m.ev(*i))
    h.unchanged('score levels of the events', m.a_sc, lambda i: m.sc(*i))


def loss(h):
    m = symbols(h)
    h.C.check_div = False
    fs = []
    for nm, s in zip(NAMES, shapes(m)):
        f = lambda *i, nm=nm: app('tab.' + nm, tuple(to_term(v) for v in i),
                                  'R')
        fs.append(f)
        m.o.attrs[nm] = Arr.make(s, lambda x, f=f: f(*x), 'f')
    t = Tables(*fs)
    for nm, p in positive(m, t):
        h.assume(p)
    before = dict(m.o.attrs)
    r = h.method(m.o, 'loss', m.a_ev, m.a_sc)
    frame(h, m, before)
    for nm, f in zip(NAMES, fs):
        h.unchanged(nm, m.o.attrs[nm], lambda i, f=f: f(*i))
    h.same('the mean negative log-likelihood of the events', r, nll(m, t))



# --------------------------------------------------------------------------
# the main loop
# --------------------------------------------------------------------------

def oblige(name, g):
    ctx().oblige(name, to_term(g))


def argument(m, name, a, shape, f):
    ok = isinstance(a, Arr) and a.ndim == len(shape)
    oblige('%s has the right shape' % name, and_(*[
        eq(x, to_term(y)) for x, y in zip(a.shape, shape)]) if ok else FALSE)
    if ok:
        g = a.fn()
        oblige('%s is right' % name, h_all(shape, lambda *i: eq(
            tonum(to_term(g(list(i)))), tonum(to_term(f(*i))))))


def arguments(m, what, ev, sc):
    argument(m, what + ': events', ev, [m.N, num(2)], lambda i, e: ite(
        eq(e, ZERO), m.ev(i, 0), m.ev(i, 1)))
    argument(m, what + ': score levels', sc, [m.N], m.sc)


def by_maximization(args, kw):
    """contract of maximization_step"""
    C = ctx()
    m = C.ghost['model']
    o, ev, sc, nobj = args + [kw[k] for k in ('ev', 'sc', 'n_objects')[
        len(args) - 1:]]
    if o is not m.o:
        raise Unsupported('maximization step of another model')
    what = 'maximization step'
    arguments(m, what, ev, sc)
    argument(m, what + ': numbers of objects', nobj, [num(2)], lambda e: ite(
        eq(e, ZERO), m.nu, m.ni))
    Q = o.attrs.get('_q')
    if not isinstance(Q, Arr) or Q.ndim != 2:
        raise Unsupported('responsibilities')
    g = Q.fn()
    q = lambda i, k: tonum(to_term(g([to_term(i), to_term(k)])))
    oblige(what + ': shape of the responsibilities', and_(
        eq(Q.shape[0], m.N), eq(Q.shape[1], m.k)))
    oblige(what + ': responsibilities are not negative', h_all(
        [m.N, m.k], lambda i, k: le(ZERO, q(i, k))))
    fs = []
    for nm, s in zip(NAMES, shapes(m)):
        u = fresh('tab.' + nm, 'I').args[0]
        f = lambda *i, u=u: app(u, tuple(to_term(v) for v in i), 'R')
        fs.append(f)
        o.attrs[nm] = Arr.make(s, lambda x, f=f: f(*x), 'f')
    t = Tables(*fs)
    for nm, p in positive(m, t) + sums(m, t):
        C.assume(p)
    t.q = q
    m.last = t


def by_loss(args, kw):
    """contract of loss"""
    m = ctx().ghost['model']
    o, ev, sc = args + [kw[k] for k in ('ev', 'sc')[len(args) - 1:]]
    if o is not m.o:
        raise Unsupported('loss of another model')
    arguments(m, 'loss', ev, sc)
    return nll(m, read(o))


def by_digitize(args, kw):
    """contract of digitize_score (C06): the index of a level"""
    m = ctx().ghost['model']
    o, sc = (args + [kw.get('score')])[:2]
    if o is not m.d.data:
        raise Unsupported('score levels of another container')
    if sc is None:
        sc = o.attrs['score']
    if not isinstance(sc, Arr) or sc.ndim != 1:
        raise Unsupported('scores')
    f = sc.fn()
    return Arr.make(list(sc.shape), lambda i: app(
        'digit', (tonum(to_term(f(list(i)))),), 'I'), 'i')


class Em(LoopSpec):
    def __init__(self, h, m):
        self.h, self.m = h, m

    def tables_are_last(self, what):
        m = self.m
        have_shapes(self.h, m, what)
        t = read(m.o)
        if m.last is None:
            raise Unsupported('tables without a maximization step')
        for nm, f, g, s in zip(NAMES, t.f, m.last.f, shapes(m)):
            oblige('%s: %s is that of the maximization step' % (what, nm),
                   h_all(s, lambda *i, f=f, g=g: eq(f(*i), g(*i))))
        return t

    def enter(self):
        self.m.initial = self.tables_are_last('before the loop')

    def refs(self):
        return [nll(self.m, read(self.m.o))]

    def inv(self):
        t = read(self.m.o)
        return positive(self.m, t) + sums(self.m, t)

    def head(self, i):
        m = self.m
        m.head, m.iters, m.left = read(m.o), i, False
        m.final, m.last = m.head, None

    def step(self, i, left):
        m = self.m
        m.final = t = self.tables_are_last('after an iteration')
        e = estep(m, m.head)
        self.h.ensure('the events are possible before the iteration', h_all(
            [m.N], lambda i: lt(ZERO, marginal(m, m.head, i))))
        self.h.ensure('the responsibilities are those of the expectation '
                      'step', h_all([m.N, m.k], lambda i, k: eq(
                          m.last.q(i, k), e(i, k))))
        m.left, m.iters = left, add(i, ONE)
        reached = precision_ok(m)
        self.h.ensure('left exactly when the tolerance is reached',
                      reached if left else not_(reached))


def precision_ok(m):
    cur, pre = nll(m, m.final), nll(m, m.head)
    p = div(sub(cur, pre), cur)
    return lt(ite(le(ZERO, p), p, neg(p)), m.tol)


def fit(h, again=False):
    C = h.C
    m = M()
    m.d = d = dataset(h, EventWithScoreData, min_events=1)
    m.a, m.b = h.int('col_a', 0, d.S), h.int('col_b', 0, d.S)
    m.k, m.alpha = h.int('k', 1), h.real('alpha')
    h.assume(lt(ZERO, m.alpha))
    m.maxiter, m.tol = h.int('maxiter', 1), h.real('tol')
    m.N, m.ns = d.N, to_term(d.data.attrs['n_score_levels'])
    m.nu, m.ni = d.n(d.ot(m.a)), d.n(d.ot(m.b))
    m.ev = lambda i, e: d.ev(i, m.a if cint_(e) == 0 else m.b)
    m.sc = lambda i: app('digit', (d.score(i),), 'I')
    x = var('x!', 'R')
    dg = app('digit', (x,), 'I')
    h.assume(forall([x], and_(le(ZERO, dg), lt(dg, m.ns)), trig=(dg,)))
    m.o = h.call(MultinomialPLSA, k=m.k, alpha=m.alpha, maxiter=m.maxiter,
                 tol=m.tol)
    if again:
        fitted_before(h, m.o, dict(pZ_=1, pXgZ_=2, pYgZ_=2, pRgZ_=2))
    m.last = m.initial = None
    C.check_div = False
    C.ghost['model'] = m
    C.ghost['loop spec'] = Em(h, m)
    h.method(m.o, 'fit', d.data, (m.a, m.b))
    if m.initial is None:
        raise Unsupported('fit without a main loop')
    # tables
    have_shapes(h, m, 'fitted', 1)
    t = read(m.o)
    n = dict(pXgZ_=m.nu, pYgZ_=m.ni)
    for nm, f, g, s in zip(NAMES, t.f, m.final.f, shapes(m)):
        h.ensure('fitted %s is that of the last step' % nm, h_all(
            s, lambda *i, f=f, g=g: eq(f(*i), g(*i))))
        if nm in n:
            h.ensure('the extra row of %s is ones' % nm, h_all(
                [m.k], lambda k, f=f, nm=nm: eq(f(n[nm], k), ONE)))
    for nm, p in positive(m, m.final) + sums(m, m.final):
        h.ensure('fitted ' + nm, p)
    # report
    r = m.o.attrs['fit_results_'].items
    h.same('initial loss', r['initial_loss'], nll(m, m.initial))
    h.same('final loss', r['final_loss'], nll(m, m.final))
    h.same('number of iterations', r['n_iterations'], m.iters)
    h.ensure('at most the allowed number', le(nterm(r['n_iterations']),
                                              m.maxiter))
    h.ensure('success is reported exactly when the tolerance was reached',
             eq(to_term(r['success']), TRUE if m.left else FALSE))
    h.unchanged('events', d.a_ev, lambda i: d.ev(*i))


def cint_(e):
    return ops.cint(to_term(e)) if not isinstance(e, int) else e


for _f, _h in ((getattr(MultinomialPLSA, 'maximization_step', None),
                by_maximization),
               (getattr(MultinomialPLSA, 'loss', None), by_loss),
               (EventWithScoreData.digitize_score, by_digitize)):
    if _f is not None:
        CONTRACTS[fn_key(_f)] = _h

contract('maximization_step')(lambda h: maximization(h))
contract('loss')(lambda h: loss(h))
contract('fit')(lambda h: fit(h))
contract('fit, again')(lambda h: fit(h, True))
