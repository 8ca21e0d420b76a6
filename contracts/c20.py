"""C20 Cross-validation splitters partition the data as promised"""
from .common import *
from engine.nplib import kfold_state
from kamrecsys.model_selection import (
    ShuffleSplitWithinGroups, KFoldWithinGroups, InterlacedKFold)


def sorted_sets(h, folds, n, K):
    """K pairs of increasing index arrays, each other's complement"""
    h.same('number of folds', ops.iter_of(folds)[0], K)
    N, item = ops.iter_of(folds)
    f = h.int('fold', 0, K)
    h.assume(lt(f, to_term(N)))
    tr, te = item(f)
    i, j, e = fresh('i', 'I'), fresh('j', 'I'), fresh('e', 'I')
    for nm, a in (('training', tr), ('test', te)):
        h.ensure('%s indices are an array of integers' % nm, TRUE if
                 isinstance(a, Arr) and a.ndim == 1 and a.kind == 'i'
                 else FALSE)
        g = a.fn()
        m = a.shape[0]
        h.ensure('%s indices are in range' % nm, h.all([m], lambda i: and_(
            le(ZERO, g([i])), lt(g([i]), n))))
        h.ensure('%s indices are increasing' % nm, forall([i, j], imp(
            and_(le(ZERO, i), lt(i, j), lt(j, m)), lt(g([i]), g([j])))))
    has = lambda a, e: mexists(a.shape, lambda vs: eq(a.fn()(vs), e))
    h.ensure('training and test set are disjoint', h.all(
        [n], lambda e: not_(and_(has(tr, e), has(te, e)))))
    h.ensure('training and test set cover the data', h.all(
        [n], lambda e: or_(has(tr, e), has(te, e))))
    return f, tr, te


def samples(h, n):
    return h.array('X', [n, h.int('d', 1)], 'f')


@contract('InterlacedKFold.split')
def interlaced(h):
    n, K = h.int('n', 1), h.int('K', 2)
    h.assume(le(K, n))
    cv = h.call(InterlacedKFold, n_splits=K)
    h.same('get_n_splits', h.method(cv, 'get_n_splits'), K)
    folds = h.collect(h.method(cv, 'split', samples(h, n)))
    # the numbers that occur among i mod K are 0, ..., K-1
    i = fresh('i', 'I')
    h.lemma('remainders of small numbers', forall([i], imp(and_(
        le(ZERO, i), lt(i, K)), eq(mod(i, K), i)), trig=(mod(i, K),)))
    h.lemma('remainders', forall([i], imp(le(ZERO, i), and_(
        le(ZERO, mod(i, K)), lt(mod(i, K), K))), trig=(mod(i, K),)))
    u = h.call(np.unique, Arr.make([n], lambda x: mod(x[0], K), 'i'))
    U, m = u.fn(), u.shape[0]
    mk = mod(i, K)
    h.lemma('range of the remainders', h.all([m], lambda c: and_(
        le(ZERO, U([c])), lt(U([c]), K))))
    h.lemma('every small number is a remainder', forall([i], imp(and_(
        le(ZERO, i), lt(i, K)), mexists([m], lambda c: eq(U(c), mk)))))
    h.lemma('every small number occurs', forall([i], imp(and_(
        le(ZERO, i), lt(i, K)), mexists([m], lambda c: eq(U(c), i)))))
    h.induction('remainders are distinct', m, lambda c: le(c, U([c])))
    h.induction('sorted remainders', m, lambda c: eq(U([c]), c))
    h.lemma('number of different remainders', eq(m, K))
    f, tr, te = sorted_sets(h, folds, n, K)
    g = te.fn()
    h.ensure('sample i is tested in fold i mod K', h.all(
        [n], lambda e: and_(
            imp(eq(mod(e, K), f), mexists(te.shape, lambda vs: eq(
                g(vs), e))),
            imp(mexists(te.shape, lambda vs: eq(g(vs), e)),
                eq(mod(e, K), f)))))


def grouped(h, n):
    """groups of the samples; member(e, x): sample e belongs to label x"""
    g = h.array('group', [n], 'E')
    return g, h.fun('group', 'E')


def labels(h, a, least=None):
    """the different labels U(0) < ... < U(m - 1), and their numbers of
    samples"""
    u = h.call(np.unique, a)
    U = lambda c: u.fn()([c])
    f = a.fn()
    size = lambda c: msum(a.shape[0], lambda e: ind(eq(f([e]), U(c))))
    return u.shape[0], U, size


def shuffled(h, test_size, groups=True, shuffle=True):
    n, K = h.int('n', 1), h.int('K', 0)
    if groups:
        a, label = grouped(h, n)
        args = [samples(h, n), None, a]
    else:
        a = Arr.make([n], lambda i: ZERO, 'i')
        label = lambda e: ZERO
        args = [samples(h, n)]
    G, U, size = labels(h, a)
    if not groups:
        h.lemma('one group', and_(eq(G, ONE), eq(U(ZERO), ZERO)))
        G, U, size = ONE, lambda c: ZERO, lambda c: n
    if test_size.sort == 'R':
        h.assume(and_(lt(ZERO, test_size), lt(test_size, ONE)))
        k = lambda c: ceil(mul(test_size, size(c)))
    else:
        h.assume(le(ONE, test_size))
        k = lambda c: test_size
    # every group has a training sample
    c = var('c', 'I')
    h.assume(forall([c], imp(and_(le(ZERO, c), lt(c, G)), and_(
        le(ONE, k(c)), lt(k(c), size(c))))))
    kw = {} if shuffle else {'shuffle': False}
    cv = h.call(ShuffleSplitWithinGroups, n_splits=K, test_size=test_size,
                random_state=h.int('seed', 0), **kw)
    h.same('get_n_splits', h.method(cv, 'get_n_splits'), K)
    folds = h.collect(h.method(cv, 'split', *args))
    f, tr, te = sorted_sets(h, folds, n, K)
    cv = fresh('c', 'I')
    # the test samples of group c are the first k(c) of a permutation
    lv, nte, perm, m = h.C.ghost['tts']
    if len(lv) not in (1, 2):
        raise Unsupported('loops of the splitter')
    c = h.int('group_number', 0, G) if groups else ZERO
    mm = dict(zip(lv, (f, c)))
    E = lambda j: subst(perm([j]), mm)
    h.same('number of test samples of a group', subst(nte, mm), k(c))
    if not shuffle:
        # the last k(c) samples of the group
        _, last, _ = ops.selection(n, lambda i: eq(label(i), U(cv)))
        last = memo1(lambda i, f=last: subst(f(i[0]), {cv: c}))
        h.ensure('the last samples of the group are tested', h.all(
            [k(c)], lambda j: eq(E(j), last([add(sub(size(c), k(c)), j)]))))
    t = te.fn()
    has = lambda e: mexists(te.shape, lambda vs: eq(t(vs), e))
    h.ensure('they are samples of the group', h.all([k(c)], lambda j: and_(
        le(ZERO, E(j)), lt(E(j), n), eq(label(E(j)), U(c)))))
    h.ensure('they are test samples', h.all([k(c)], lambda j: has(E(j))))
    h.ensure('they are different', h.all([k(c), k(c)], lambda i, j: imp(
        lt(i, j), not_(eq(E(i), E(j))))))
    h.ensure('the group has no other test samples', h.all(
        [n], lambda e: imp(and_(has(e), eq(label(e), U(c))), mexists(
            [k(c)], lambda vs: eq(E(vs[0]), e)))))


@contract('ShuffleSplitWithinGroups.split, proportion')
def shuffle_prop(h):
    shuffled(h, h.real('test_size'))


@contract('ShuffleSplitWithinGroups.split, number')
def shuffle_num(h):
    shuffled(h, h.int('test_size'))


@contract('ShuffleSplitWithinGroups.split, without groups')
def shuffle_one(h):
    shuffled(h, h.real('test_size'), groups=False)


@contract('ShuffleSplitWithinGroups.split, in order')
def shuffle_not(h):
    shuffled(h, h.real('test_size'), shuffle=False)


def kfolded(h, groups=True, shuffle=False):
    n, K = h.int('n', 1), h.int('K', 2)
    kfold_state()
    if groups:
        a, label = grouped(h, n)
        args = [samples(h, n), None, a]
    else:
        a = Arr.make([n], lambda i: ZERO, 'i')
        label = lambda e: ZERO
        args = [samples(h, n)]
    h.assume(le(K, n))
    G, U, size = labels(h, a)
    if not groups:
        h.lemma('one group', and_(eq(G, ONE), eq(U(ZERO), ZERO)))
        G, U, size = ONE, lambda c: ZERO, lambda c: n
        group_of = lambda e: ZERO
    else:
        group_of = lambda e: h.call(
            np.unique, a, return_inverse=True)[1].fn()([e])
        # every group has a member for every fold
        c = var('c', 'I')
        h.assume(forall([c], imp(and_(le(ZERO, c), lt(c, G)),
                                 le(K, size(c)))))
    cv = h.call(KFoldWithinGroups, n_splits=K, shuffle=shuffle,
                random_state=h.int('seed', 0))
    h.same('get_n_splits', h.method(cv, 'get_n_splits'), K)
    folds = h.collect(h.method(cv, 'split', *args))
    f, tr, te = sorted_sets(h, folds, n, K)
    lv, it = h.C.ghost['kfoldtest']
    if len(lv) not in (1, 2):
        raise Unsupported('loops of the splitter')
    # the members of group c, and the places of the test samples among them
    c = fresh('c', 'I') if groups else ZERO
    group = [c] if groups else []
    inc = and_(le(ZERO, c), lt(c, G))
    _, msel, mrank = ops.selection(n, lambda i: eq(label(i), U(c)))
    member = lambda v: msel(v[0])
    if len(lv) == 2:
        it = it.subst({lv[1]: c})
    number = it.number
    item = ops.iter_of(folds)[1]

    def tested(f, e):
        t = item(f)[1]
        return mexists(t.shape, lambda vs: eq(t.fn()(vs), e))
    h.ensure('number of samples', forall(group, imp(inc, and_(
        eq(it.m, size(c)), eq(it.K, K)))))
    g, j, x, e = [fresh(v, 'I') for v in 'gjxe']
    E = lambda j, f: member([it.place(j, f)])
    inj = lambda j, f: and_(inc, le(ZERO, j), lt(j, it.size(f)))
    h.ensure('they are samples of the group', forall(group + [j], imp(
        inj(j, f), and_(le(ZERO, E(j, f)), lt(E(j, f), n),
                        eq(label(E(j, f)), U(c))))))
    h.ensure('they are different', forall(group + [j, x], imp(and_(
        inj(j, f), inj(x, f), lt(j, x)), lt(E(j, f), E(x, f)))))
    h.ensure('the group has no other test samples', forall(group + [e], imp(
        and_(inc, le(ZERO, e), lt(e, n), tested(f, e), eq(label(e), U(c))),
        mexists([it.size(f)], lambda vs: eq(E(vs[0], f), e)))))
    h.ensure('sizes differ by at most one', forall(group + [g], imp(
        and_(inc, le(ZERO, g), lt(g, K)), and_(
            le(sub(it.size(g), it.size(f)), ONE),
            le(sub(it.size(f), it.size(g)), ONE)))))
    # every sample is tested once
    q = it.rank(x)
    at = lambda t, e: subst(t, {c: group_of(e)}) if groups else t
    h.lemma('every member is at a place of a fold', forall(
        group + [x], imp(and_(inc, le(ZERO, x), lt(x, size(c))), and_(
            le(ZERO, number(x)), lt(number(x), K), le(ZERO, q),
            lt(q, it.size(number(x)))))))
    h.lemma_for('they are test samples', group + [g, j], imp(and_(
        le(ZERO, g), lt(g, K), inj(j, g)), tested(g, E(j, g))),
        (group + [x], {g: number(x), j: q}))
    h.lemma_for('every member of a group is a test sample in one fold',
                group + [x], imp(and_(inc, le(ZERO, x), lt(x, size(c))),
                                 tested(number(x), member([x]))),
                ([e], dict([(c, group_of(e))] * len(group) + [
                    (x, at(mrank(e), e))])))
    h.ensure('in no other', h.all([n], lambda e: imp(and_(
        le(ZERO, g), lt(g, f), tested(f, e)), not_(tested(g, e)))))
    home = at(number(mrank(e)), e)
    h.ensure('every sample is a test sample in some fold', forall([e], imp(
        and_(le(ZERO, e), lt(e, n)), and_(
            le(ZERO, home), lt(home, K), tested(home, e)))))


@contract('KFoldWithinGroups.split')
def kfold(h):
    kfolded(h)


@contract('KFoldWithinGroups.split, shuffled')
def kfold_shuffled(h):
    kfolded(h, shuffle=True)


@contract('KFoldWithinGroups.split, without groups')
def kfold_one(h):
    kfolded(h, groups=False)


@contract('K-fold splitters: too few folds')
def few_folds(h):
    for cls in (KFoldWithinGroups, InterlacedKFold):
        h.expect(ValueError, cls, n_splits=h.int('K', None, 2))


@contract('K-fold splitters: too many folds')
def many_folds(h):
    n = h.int('n', 1)
    K = add(n, h.int('more', 1))
    for cls in (KFoldWithinGroups, InterlacedKFold):
        cv = h.call(cls, n_splits=K)
        h.expecting(ValueError, lambda: h.collect(
            h.method(cv, 'split', samples(h, n))))
