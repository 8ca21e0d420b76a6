"""C22 Averaged fold statistics pair up the same fold and position"""
from .common import *
from engine.interp import Star
from kamrecsys.metrics import statistics_mean


class Fun(interp.Partial):
    """an arbitrary function: its value depends on its arguments, in order,
    and on nothing else.  form: a number, a tuple or an array of numbers"""
    star = True

    def __init__(self, form):
        interp.Partial.__init__(self, lambda args, kw: self.value(args))
        self.form = form
        self.calls = []

    def value(self, args):
        if len(args) == 1 and isinstance(args[0], Star):
            n, f = args[0].v.n, args[0].v.fn
            j = fresh('j', 'I')
            b = [([j], to_term(f(j))), ([], n)]
        else:
            b = [([], to_term(x)) for x in args]
        name, par, new = ctx().symbol('fun%d' % len(b), b, 'R')
        F = lambda l: app(name, (to_term(l),) + tuple(par), 'R')
        if self.form == 'number':
            return F(0)
        if self.form == 'tuple':
            return (F(0), F(1), F(2))
        return Arr.make([var('L', 'I')], lambda i: F(i[0]), 'f')


def check(h, r, form, n, at):
    """r is the mean of the values at(i), i < n"""
    mean = lambda f: div(msum(n, f), n)
    if form == 'number':
        h.same('mean of the statistics', r, mean(lambda i: to_term(at(i))))
    elif form == 'tuple':
        h.elements('mean of the statistics', r, [3], lambda l: ite(
            eq(l, ZERO), mean(lambda i: at(i)[0]), ite(
                eq(l, ONE), mean(lambda i: at(i)[1]),
                mean(lambda i: at(i)[2]))))
    else:
        h.elements('mean of the statistics', r, [var('L', 'I')],
                   lambda l: mean(lambda i: at(i).read([l])))


def arguments(h, of):
    """a symbolic number of arguments of(j), or 1, 2 or 3 of them"""
    J = h.int('J', 1)
    return Star(SList(J, lambda j: of(to_term(j))))


def dicts(h, form, count):
    n = h.int('n', 1)
    if form == 'array':
        h.int('L', 1)
    val = h.fun('val', 'E')
    ins = h.fun('ins', 'E')
    dom = lambda k: app('key', (k,), 'B')

    def of(j):
        # every dictionary has its own insertion order
        d = SDict(dom, lambda k: val(j, k), n, 'E',
                  (n, lambda i: ins(j, i)))
        d.frozen = True
        return d
    d0 = of(ZERO)
    key = nplib.sorted_keys(d0).fn
    # the keys of the first dictionary in its insertion order
    rk = h.fun('rank', 'I')
    i = var('i', 'I')
    k = var('k', 'E')
    h.assume(forall([i], imp(and_(le(ZERO, i), lt(i, n)), and_(
        dom(ins(0, i)), eq(rk(ins(0, i)), i))), trig=(ins(0, i),)))
    h.assume(forall([k], imp(dom(k), and_(
        le(ZERO, rk(k)), lt(rk(k), n), eq(ins(0, rk(k)), k))),
        trig=(rk(k),)))
    h.C.enums[n] = [(key, lambda i: ins(0, i))]
    f = Fun(form)
    if count is None:
        J = h.int('J', 1)
        args = [Star(SList(J, lambda j: of(to_term(j))))]
        at = lambda i: f.value([Star(SList(J, lambda j: val(j, key(i))))])
    else:
        args = [of(num(j)) for j in range(count)]
        at = lambda i: f.value([val(j, key(i)) for j in range(count)])
    r = h.call(statistics_mean, f, *args)
    check(h, r, form, n, at)


def lists(h, form, count):
    n = h.int('n', 1)
    if form == 'array':
        h.int('L', 1)
    val = h.fun('val', 'E')
    of = lambda j: SList(n, lambda i: val(j, i))
    f = Fun(form)
    if count is None:
        J = h.int('J', 1)
        args = [Star(SList(J, lambda j: of(to_term(j))))]
        at = lambda i: f.value([Star(SList(J, lambda j: val(j, i)))])
    else:
        args = [of(num(j)) for j in range(count)]
        at = lambda i: f.value([val(j, i) for j in range(count)])
    r = h.call(statistics_mean, f, *args)
    check(h, r, form, n, at)


def other(h, kind):
    n = h.int('n', 1)
    a = h.array('a', [n]) if kind == 'array' else (
        h.real('x'), h.real('y')) if kind == 'tuple' else \
        h.real('x') if kind == 'number' else None
    h.expect(TypeError, statistics_mean, Fun('number'), a, a)


for _f in ('number', 'tuple', 'array'):
    for _n in (None, 2):
        _w = 'any number of' if _n is None else str(_n)
        contract('%s dictionaries, %s' % (_w, _f))(
            lambda h, f=_f, n=_n: dicts(h, f, n))
        contract('%s lists, %s' % (_w, _f))(
            lambda h, f=_f, n=_n: lists(h, f, n))
for _k in ('array', 'tuple', 'number', 'None'):
    contract('TypeError for %s arguments' % _k)(
        lambda h, k=_k: other(h, k))
