"""What contracts are written with."""
from .term import *
from .values import *
from . import values, interp, models, ops, nplib
from .ops import msum, mforall, mexists
from . import term as tm

CONTRACT_LIST = []


class Contract(object):
    def __init__(self, fn, name, bounded, thorough, no_vacuity):
        self.fn, self.name = fn, name
        self.bounded = bounded          # None or the bound, in words
        self.thorough = thorough
        self.no_vacuity = no_vacuity


def contract(name, bounded=None, thorough=False, no_vacuity=False):
    def deco(f):
        CONTRACT_LIST.append(Contract(f, name, bounded, thorough,
                                      no_vacuity))
        return f
    return deco


class H(object):
    """one symbolic run of one contract"""

    def __init__(self, con, C):
        self.con, self.C = con, C

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        v = var(name, 'I')
        if lo is not None:
            self.assume(le(to_term(lo), v))
        if hi is not None:
            self.assume(lt(v, to_term(hi)))
        return v

    def real(self, name):
        return var(name, 'R')

    def bool(self, name):
        return var(name, 'B')

    def array(self, name, shape, kind='f', lo=None, hi=None, fin=None):
        """array of arbitrary elements; lo <= element < hi for integers"""
        sort = SORT[kind]
        shape = [to_term(s) for s in shape]

        def content(idx):
            return app(name, tuple(idx), sort)
        a = Arr.make(shape, content, kind, fin)
        if lo is not None or hi is not None:
            vs = [var('%s.i%d' % (name, k), 'I') for k in range(len(shape))]
            e = app(name, tuple(vs), sort)
            b = []
            if lo is not None:
                b.append(le(to_term(lo), e))
            if hi is not None:
                b.append(lt(e, to_term(hi)))
            rg = and_(*([le(ZERO, v) for v in vs] +
                        [lt(v, s) for v, s in zip(vs, shape)]))
            self.assume(forall(vs, imp(rg, and_(*b)), trig=(e,)))
        return a

    def fun(self, name, sort='R'):
        return lambda *idx: app(name, tuple(to_term(x) for x in idx), sort)

    def assume(self, t):
        t = to_term(t)
        if t is not TRUE:
            self.C.facts.append(t)

    # ---- running the code
    def call(self, f, *args, **kw):
        return interp.call(f, list(args), kw)

    def method(self, o, name, *args, **kw):
        return interp.call(interp.getattribute(o, name), list(args), kw)

    def attr(self, o, name):
        return interp.getattribute(o, name)

    def expect(self, exc, f, *args, **kw):
        """the call raises exactly this exception"""
        self.expecting(exc, lambda: self.call(f, *args, **kw))

    def expecting(self, exc, run):
        try:
            run()
        except PyExc as e:
            ok = issubclass(e.cls, exc)
            self.ensure('%s is raised (got %s)' % (
                exc.__name__, e.cls.__name__), TRUE if ok else FALSE)
            return
        self.ensure('%s is raised' % exc.__name__, FALSE)

    def overwrite(self, a):
        """the caller stores other values into its array"""
        nm = fresh('later', 'I').args[0]
        a.buf.content = lambda i: app(nm, tuple(i), SORT[a.buf.kind])

    def item(self, a, key):
        v = ops.getitem(a, key)
        while isinstance(v, VIte):
            v = v.a if self.C.branch(v.c) else v.b
        return v

    def obj(self, cls, **attrs):
        return Obj(cls, attrs)

    def collect(self, gen):
        """list of everything a generator yields"""
        out = PList([])
        if isinstance(gen, interp.Gen):
            gen.start(lambda v: setattr(out, 'items', out.items + [v]))
            return out
        n, f = ops.iter_of(gen)
        return SList(to_term(n), f)

    # ---- obligations
    def ensure(self, name, goal):
        goal = to_term(goal)
        self.C.where = ''
        self.C.oblige('%s: %s' % (self.con.name, name), goal)

    def lemma(self, name, goal):
        """an obligation that later obligations may use"""
        self.ensure('lemma: ' + name, goal)
        self.assume(goal)

    def lemma_for(self, name, vs, goal, *instances):
        """the formula for all values of the variables; instances: (variables,
        {variable: term})"""
        self.lemma(name, forall(vs, goal))
        for us, m in instances:
            self.assume(forall(us, subst(goal, m)))

    def induction(self, name, n, p):
        """p(i) for 0 <= i < n, by strong induction over i"""
        i, j = fresh('i', 'I'), fresh('j', 'I')
        pj = p(j)
        self.ensure('induction step: ' + name, forall([i], imp(and_(
            le(ZERO, i), lt(i, n), forall([j], imp(and_(
                le(ZERO, j), lt(j, i)), pj))), p(i))))
        self.assume(forall([i], imp(and_(le(ZERO, i), lt(i, n)), p(i))))

    def same(self, name, a, b):
        """equal numbers"""
        self.ensure(name, eq(nterm(a), nterm(b)))

    def shape(self, name, a, shape):
        self.ensure(name + ' has the right number of dimensions',
                    TRUE if isinstance(a, Arr) and a.ndim == len(shape)
                    else FALSE)
        self.ensure(name + ' has the right shape', and_(*[
            eq(x, to_term(y)) for x, y in zip(a.shape, shape)]))

    def all(self, shape, f):
        """conjunction over all indices of a shape"""
        vs = [fresh('e', 'I') for _ in shape]
        rg = and_(*([le(ZERO, v) for v in vs] +
                    [lt(v, to_term(s)) for v, s in zip(vs, shape)]))
        return forall(vs, imp(rg, f(*vs)))

    def elements(self, name, a, shape, f):
        """a has this shape and element idx is f(*idx)"""
        self.shape(name, a, shape)
        g = a.fn()
        self.ensure(name + ' has the right elements', self.all(
            shape, lambda *i: eq(num_or_e(g(list(i))), num_or_e(f(*i)))))

    def unchanged(self, name, a, f):
        g = a.fn()
        self.ensure(name + ' is unchanged', self.all(
            a.shape, lambda *i: eq(num_or_e(g(list(i))),
                                   num_or_e(f(list(i))))))


def tsqrt(t):
    return app('sqrt', (tonum(to_term(t)),), 'R')


def num_or_e(t):
    t = to_term(t)
    return tonum(t) if t.sort in 'IRB' else t
