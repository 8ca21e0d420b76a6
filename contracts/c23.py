"""C23 Loading an event file yields exactly the rows of the file"""
from .common import *
from .loading import *
from engine import nplib
import numpy as np
from kamrecsys import datasets


def load(h, scored, default, feature, domain=None):
    f = datasets.load_event_with_score if scored else datasets.load_event
    h.assume(le(ONE, app('lines.file.events', (), 'I')))
    kw = {}
    if default == 'two':
        K = S = num(2)
        otf = to_term
    elif default == 'one':
        K = S = h.int('K', 1)
        otf = to_term
        kw['n_otypes'] = K
    else:
        K = h.int('K', 1)
        S, kw['event_otypes'] = types(h, K)
        kw['n_otypes'] = K
        otf = lambda e: app('otype', (to_term(e),), 'I')
    if feature:
        kw['event_dtype'] = Opaque('features')
    if domain:
        domain = [h.real('lo'), h.real('hi'), h.real('step')]
        h.assume(not_(eq(domain[2], ZERO)))
        kw['score_domain'] = tuple(domain)
    else:
        domain = [num(1), num(5), num(1)]
    o = h.call(f, Opaque('events'), **kw)
    loaded(h, o, 'events', scored, K, S, otf, domain=domain,
           feature='features' if feature else None)


for _s in (False, True):
    for _t in ('', 'one', 'two'):
        for _f in (False, True):
            for _d in (False, True)[:2 if _s else 1]:
                contract('load_event%s%s%s%s' % (
                    '_with_score' if _s else '',
                    {'': '', 'one': ', one column per type',
                     'two': ', default types'}[_t],
                    ', event features' if _f else '',
                    ', score domain' if _d else ''))(
                    lambda h, s=_s, t=_t, f=_f, d=_d: load(h, s, t, f, d))


@contract('score domain of the observed scores')
def observed(h):
    """score_domain=None: minimum, maximum, smallest difference"""
    N = app('lines.file.events', (), 'I')
    h.assume(le(ONE, N))
    # two different scores
    a, b = h.int('a', 0, N), h.int('b', 0, N)
    s = lambda i: cell('events', 'f', i, num(2), 'R')
    h.assume(lt(s(a), s(b)))
    o = h.call(datasets.load_event_with_score, Opaque('events'),
               score_domain=None)
    d = h.attr(o, 'score_domain')
    h.shape('score domain', d, [num(3)])
    lo, hi, st = [d.fn()([num(i)]) for i in range(3)]
    for nm, v, cmp in (('lowest', lo, le), ('highest', hi,
                                            lambda x, y: le(y, x))):
        h.ensure('no score is beyond the %s score' % nm, h.all(
            [N], lambda i: cmp(v, s(i))))
        h.ensure('the %s score occurs' % nm, mexists([N], lambda i: eq(
            v, s(i[0]))))
    h.ensure('different scores differ at least by the step', h.all(
        [N, N], lambda i, j: imp(lt(s(i), s(j)), le(st, sub(s(j), s(i))))))
    h.ensure('the step is the difference of two scores', mexists(
        [N, N], lambda v: and_(lt(s(v[0]), s(v[1])), eq(
            st, sub(s(v[1]), s(v[0]))))))


def other(h, feature):
    h.assume(le(ONE, app('lines.file.events', (), 'I')))
    kw = dict(event_dtype=Opaque('features')) if feature else {}
    o = h.call(datasets.load_flixster_rating, Opaque('events'), **kw)
    half = div(ONE, num(2))
    loaded(h, o, 'events', True, num(2), num(2), to_term,
           domain=[half, num(5), half],
           feature='features' if feature else None)


contract('load_flixster_rating')(lambda h: other(h, False))
contract('load_flixster_rating, event features')(lambda h: other(h, True))


@contract('load_pci_sample')
def pci(h):
    # numpy gives a record, not an array, for one line
    h.assume(le(num(2), app('lines.file.events', (), 'I')))
    o = h.call(datasets.load_pci_sample, Opaque('events'))
    loaded(h, o, 'events', True, num(2), num(2), to_term, kind='U18',
           domain=[num(1), num(5), div(ONE, num(2))])


USER100K = [('age', int), ('gender', int), ('occupation', int),
            ('zip', 'U5')]
ITEM100K = [('name', 'U81'), ('day', int), ('month', int), ('year', int),
            ('genre', 'i1', 18), ('imdb', 'U134')]
USER1M = [('gender', int), ('age', int), ('occupation', int), ('zip', 'U5')]
ITEM1M = [('name', 'U82'), ('year', int), ('genre', 'i1', 18)]
USER3 = [(k, int) for k in (
    'original_uid gender age answer_time child_prefecture child_region '
    'child_ew current_prefecture current_region current_ew moved').split()]
ITEM3 = [('name', 'U20'), ('maki', int), ('seafood', int), ('genre', int),
         ('heaviness', float), ('frequency', float), ('price', float),
         ('supply', float)]
NAMED = [('load_movielens100k', 'movielens100k', USER100K, ITEM100K, (1, 5, 1),
          True),
         ('load_movielens1m', 'movielens1m', USER1M, ITEM1M, (1, 5, 1), True),
         ('load_sushi3b_score', 'sushi3', USER3, ITEM3, (0, 4, 1), False)]


def named(h, name, stem, user, item, domain, timestamp, default):
    """events of the file, features of the users and items by their ids"""
    f = 'events'
    if default:
        f = {'sushi3': 'sushi3b_score'}.get(stem, stem) + '.event'
    h.assume(le(ONE, app('lines.file.' + f, (), 'I')))
    a, b = fresh('a', 'I'), fresh('b', 'I')
    files = ['%s.%s' % (stem, k) for k in ('user', 'item')]
    fdt = [np.dtype(user), np.dtype(item)]
    for t, g in enumerate(files):
        N, n = [app('lines.file.' + k, (), 'I') for k in (f, g)]
        h.assume(le(num(2), n))
        at = lambda a: app('at.%d' % t, (to_term(a),), 'I')
        # every id of an event is in exactly one line
        key = lambda a: cell(g, 'i', a, 0)
        h.assume(forall([a], imp(and_(le(ZERO, a), lt(a, N)), and_(
            le(ZERO, at(a)), lt(at(a), n),
            eq(key(at(a)), cell(f, 'i', a, t)))), trig=(
                cell(f, 'i', a, t),)))
        h.assume(forall([a, b], imp(and_(
            le(ZERO, a), lt(a, n), le(ZERO, b), lt(b, n),
            eq(key(a), key(b))), eq(a, b)), trig=(key(a), key(b))))
    o = h.call(getattr(datasets, name),
               **({} if default else {'infile': Opaque(f)}))
    feature = None
    if timestamp:
        feature = nplib.dtype_name(nplib.m_dtype(
            np.dtype([('timestamp', int)])))
    loaded(h, o, f, True, num(2), num(2), to_term, feature=feature,
           domain=[num(x) for x in domain])
    for t, g in enumerate(files):
        what = 'feature of type %d' % t
        n = app('lines.file.' + g, (), 'I')
        X = h.item(h.attr(o, 'feature'), t)
        E = h.item(h.attr(o, 'eid'), t)
        m = E.shape[0]
        h.shape(what, X, [m])
        e, x = E.fn(), X.fn()
        nm = nplib.dtype_name(nplib.m_dtype(fdt[t]))
        h.ensure(what + ' is that of the line with the id', h.all(
            [m, n], lambda i, j: imp(eq(e([i]), cell(g, 'i', j, 0)), eq(
                x([i]), cell(g, nm, j, 1)))))


for _n in NAMED:
    for _d in (False, True):
        contract(_n[0] + (', default file' if _d else ''))(
            lambda h, n=_n, d=_d: named(h, *n, d))
