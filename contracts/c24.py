"""C24 Experiments test on held-out events only and keep results aligned"""
import datetime
import numpy as np
import os
import sys
from .common import *
from .loading import cell, loaded
from engine.interp import CONTRACTS, Partial, fn_key, model
import exp_recsys_util as exp
import exp_recsys_if as item_finding
import exp_recsys_sp as score_prediction
from engine import nplib
from kamrecsys.item_finder import LogisticPMF
from kamrecsys.score_predictor import MultinomialPLSA, PMF
from kamrecsys.data import EventWithScoreData
from kamrecsys.model_selection import ShuffleSplitWithinGroups
from kamrecsys.utils import get_system_info, get_version_info
from kamrecsys.utils.kamexputils import json_decodable

P = lambda f: Partial(lambda args, kw: f(*args, **kw))


# ---- the environment ------------------------------------------------------

@model(datetime.datetime.now)
def now(args, kw):
    return Opaque('time', {'isoformat': P(lambda: Opaque('string'))})


@model(os.times)
def times(args, kw):
    return tuple(Opaque('cpu time') for _ in range(5))


@model(os.path.basename)
def basename(args, kw):
    return Opaque('string')


# ---- contracts of what the experiments call --------------------------------

def index_of(idx):
    """description of an index array"""
    f = idx.fn()
    t = fresh('t', 'I')
    return [([t], tonum(f([t]))), ([], idx.shape[0])]


def filter_event(args, kw):
    """C04, C05: exactly the events at these places, in this order"""
    o, cond = (list(args) + [kw.get('condition')])[:2]
    return Opaque('filtered data', {'index': cond, 'of': o})


def split(args, kw):
    """C20: a split depends on the groups, the number of splits, the
    proportion and the random numbers only; every fold is a pair of the
    sorted test indices and the sorted other indices"""
    o = args[0]
    X = args[1] if len(args) > 1 else kw['X']
    groups = kw['groups'] if 'groups' in kw else args[3]
    C = ctx()
    C.trusted.add('contract of ShuffleSplitWithinGroups.split (C20)')
    n = X.shape[0]
    g = groups.fn()
    i = fresh('i', 'I')
    at = lambda k: to_term(interp.getattribute(o, k))
    name, par, new = C.symbol('split', [
        ([i], to_term(g([i]))), ([], groups.shape[0]), ([], n),
        ([], at('n_splits')), ([], at('test_size'))] + [
            ([], to_term(x)) for x in C.ghost.get('seed', ())], 'B')
    C.require(eq(groups.shape[0], n), ValueError, 'lengths')

    def fold(f):
        f = to_term(f)
        mask = Arr.make([n], lambda x: app(
            name, (f, x[0]) + tuple(par), 'B'), 'b', frozen=True)
        inv = Arr.make([n], lambda x: not_(app(
            name, (f, x[0]) + tuple(par), 'B')), 'b', frozen=True)
        return (interp.call(np.nonzero, [inv])[0], interp.call(np.nonzero, [mask])[0])
    C.the_split = fold
    return SList(at('n_splits'), fold)


CONTRACTS[fn_key(EventWithScoreData.filter_event)] = filter_event
CONTRACTS[fn_key(ShuffleSplitWithinGroups.split)] = split
CONTRACTS[fn_key(get_system_info)] = lambda a, k: PDict({})
CONTRACTS[fn_key(get_version_info)] = lambda a, k: PDict({})


def decodable(args, kw):
    ctx().decoded = args[0]


CONTRACTS[fn_key(json_decodable)] = decodable


class Models(object):
    """an arbitrary recommender: what a fitted model predicts for an event
    depends on the events it was fitted to and on that event only (C08)"""

    def __init__(self, h, d):
        self.d = d
        self.made = []

    def cls(self):
        return Opaque('recommender', {
            '__call__': self.make, 'task_type': 'score_predictor',
            'explicit_ratings': True, '__name__': 'rec',
            '__module__': 'mod'})

    def place(self, data):
        """indices of the events of the training data"""
        if isinstance(data, Opaque) and 'index' in data.attrs and \
                data.attrs['of'] is self.d.data:
            return data.attrs['index'], 0
        for k, x in enumerate(self.sets):
            if data is x.data:
                return Arr.make([x.N], lambda i: i[0], 'i'), k
        raise Unsupported('training data')

    @property
    def sets(self):
        return [self.d]

    def make(self, args, kw):
        st = {}
        opts = tuple((k, to_term(v)) for k, v in sorted(kw.items()))

        def fit(data, *a, **k):
            if a or k:
                raise Unsupported('arguments of fit')
            st['data'] = self.describe(data, opts)
            o.attrs['fit_results_'] = PDict({'report': self.report(
                st['data'])})
            return o

        def predict(ev):
            return self.predicted(st['data'], ev)
        if args:
            raise PyExc(TypeError, 'positional options')
        o = Opaque('model', {'fit': P(fit), 'predict': P(predict)})
        return o

    def describe(self, data, opts):
        idx, k = self.place(data)
        return index_of(idx) + [([], num(k))] + [
            ([], x) for y in opts for x in (to_term(y[0]), y[1])]

    def report(self, desc):
        name, par, new = ctx().symbol('report', desc, 'R')
        return app(name, tuple(par), 'R')

    def predicted(self, desc, ev):
        f = ev.fn()

        def at(i):
            e = fresh('e', 'I')
            j = fresh('j', 'I')
            C = ctx()
            x = C.resolve(to_term(f([j, e])), [
                le(ZERO, j), lt(j, ev.shape[0]), le(ZERO, e),
                lt(e, ev.shape[1])])
            name, par, new = C.symbol('pred', desc + [
                ([e], subst(x, {j: i[0]})), ([], ev.shape[1])], 'R')
            return app(name, tuple(par), 'R')
        return Arr.make([ev.shape[0]], memo1(at), 'f')


FEATURES = ('timestamp', 'w')


def features(h, n, tag=''):
    fs = {k: h.array('ef_%s%s' % (k, tag), [n]) for k in FEATURES}
    return Opaque('event features', {
        'dtype': Opaque('dtype', {'names': FEATURES}),
        '__getitem__': lambda k: fs[k], 'fields': fs})


def experiment(h, d, feat, F, target_file=None):
    rs = h.int('random_state', 0)
    m = Models(h, d)
    opts = PDict({'C': h.real('C'), 'random_state': rs})
    info = PDict({
        'condition': PDict({'scheme': 'cv', 'n_folds': F,
                            'out_file': None}),
        'environment': PDict({}),
        'training': PDict({'file': 'TRAIN'}),
        'test': PDict({'file': target_file}),
        'model': PDict({'options': opts, 'recommender': m.cls()}),
        'prediction': PDict({})})
    return m, info, [('C', h.real('C')), ('random_state', rs)]


def external(d):
    return lambda i, e: d.eid(d.ot(e), d.ev(i, e))


def check_folds(h, m, d, info, opts, F, only, feat):
    """what is recorded for every fold"""
    item = lambda *ks: _item(h, info, ks)
    k = fresh('k', 'U')
    f = fresh('f', 'I')
    h.assume(and_(le(ZERO, f), lt(f, F)))
    fold = h.C.the_split
    # exactly the requested folds are recorded
    parts = [('training', 'results'), ('test', 'results')] + [
        ('prediction', x) for x in ('event', 'true', 'predicted', 'mask')]
    if feat:
        parts += [('prediction', 'event_feature', x) for x in FEATURES]
    u = app('unstr', (k,), 'I')
    run = and_(le(ZERO, u), lt(u, F), eq(k, app('str', (u,), 'U')))
    if only is not None:
        run = and_(run, eq(u, only))
        h.assume(eq(f, only))
    for p in parts:
        D = item(*p)
        dom = D.dom(k) if isinstance(D, SDict) else DState.of(
            D.items, 'U').state[0](k)
        h.ensure('%s has exactly the folds that are run' % '.'.join(p),
                 forall([k], eq(dom, run)))
    key = app('str', (f,), 'U')
    at = lambda *p: h.item(item(*p), key)
    tr, te = fold(f)
    t, e = te.fn(), external(d)
    nt = te.shape[0]
    h.elements('recorded test indices', at('prediction', 'mask'), [nt],
               lambda i: t([i]))
    h.elements('recorded events', at('prediction', 'event'), [nt, d.S],
               lambda i, c: e(t([i]), c))
    h.elements('recorded true scores', at('prediction', 'true'), [nt],
               lambda i: d.score(t([i])))
    # the model fitted to exactly the events outside the test indices
    desc = index_of(tr) + [([], ZERO)] + [
        ([], x) for n, v in opts for x in (to_term(n), v)]
    want = m.predicted(desc, Arr.make(
        [nt, d.S], lambda x: e(t([x[0]]), x[1]), 'E')).fn()
    h.elements('recorded predictions are those for the test events of the '
               'model fitted to the other events',
               at('prediction', 'predicted'), [nt], lambda i: want([i]))
    h.same('training results are those of this model', h.item(
        at('training', 'results'), 'report'), m.report(desc))
    h.same('number of test events', h.item(at('test', 'results'),
                                           'n_events'), nt)
    if feat:
        for x in FEATURES:
            h.elements('recorded event feature ' + x, at(
                'prediction', 'event_feature', x), [nt],
                lambda i: d.data.attrs['event_feature'].attrs['fields'][
                    x].read([t([i])]))
    else:
        h.ensure('no event features are recorded', FALSE if
                 'event_feature' in item('prediction').items else TRUE)


def _item(h, o, ks):
    for k in ks:
        o = h.item(o, k)
    return o


def check_numbers(h, part, d, info):
    item = lambda k: h.item(h.item(info, part), k)
    h.same(part + ': number of events', item('n_events'), d.N)
    h.same(part + ': number of users', item('n_users'), d.n(d.ot(0)))
    h.same(part + ': number of items', item('n_items'), d.n(d.ot(1)))


def cv(h, feat, one, task=False):
    F = h.int('F', 1)
    S = h.int('S', 2)
    d = dataset(h, EventWithScoreData, S=S)
    if feat:
        d.data.attrs['event_feature'] = features(h, d.N)
    m, info, opts = experiment(h, d, feat, F)
    loads = []

    def load(f, i):
        loads.append(f)
        return d.data
    only = h.int('target', 0, F) if one else None
    h.call(exp.cv_test, info, P(load), only)
    h.ensure('the training file is loaded', TRUE if loads == ['TRAIN']
             else FALSE)
    check_folds(h, m, d, info, opts, F, only, feat)
    for part in ('training', 'test'):
        check_numbers(h, part, d, info)
    h.ensure('file of the test events', TRUE if _item(
        h, info, ('test', 'file')) == 'TRAIN' else FALSE)
    fn = d.data.attrs['event'].fn()
    h.elements('the data set keeps its events', d.data.attrs['event'],
               [d.N, d.S], lambda i, e: d.ev(i, e))
    h.elements('the data set keeps its scores', d.data.attrs['score'],
               [d.N], lambda i: d.score(i))


@contract('cross validation of all folds')
def cv_all(h):
    cv(h, False, False)


@contract('cross validation in one-fold mode')
def cv_one(h):
    cv(h, False, True)


@contract('cross validation with event features', bounded='two fields')
def cv_feature(h):
    cv(h, True, False)


@contract('one-fold mode with event features', bounded='two fields')
def cv_one_feature(h):
    cv(h, True, True)


class Two(Models):
    """training and test data of a hold-out experiment"""

    def __init__(self, h, d, d2):
        Models.__init__(self, h, d)
        self.d2 = d2

    @property
    def sets(self):
        return [self.d, self.d2]


def second(h, feat):
    """another data set: the test file"""
    K = h.int('K2', 1)
    d = tables(h, K, '2')
    d.S = h.int('S2', 2)
    d.a_ot = h.array('otype2', [d.S], 'i', lo=0, hi=K)
    d.ot = lambda e: app('otype2', (to_term(e),), 'I')
    d.N = h.int('N2', 0)
    d.ev = lambda i, e: app('event2', (to_term(i), to_term(e)), 'I')
    i, e = var('i', 'I'), var('e', 'I')
    h.assume(forall([i, e], imp(
        and_(le(ZERO, i), lt(i, d.N), le(ZERO, e), lt(e, d.S)),
        and_(le(ZERO, d.ev(i, e)), lt(d.ev(i, e), d.n(d.ot(e))))),
        trig=(d.ev(i, e),)))
    d.score = h.fun('score2')
    d.data = h.obj(
        EventWithScoreData, n_otypes=K, n_objects=d.a_n, eid=d.a_eid,
        iid=d.a_iid, feature=Arr.make([K], lambda x: None, 'O'),
        s_event=d.S, event_otypes=d.a_ot, n_events=d.N,
        event=Arr.make([d.N, d.S], lambda x: d.ev(*x), 'i'),
        event_feature=features(h, d.N, '2') if feat else None,
        score=h.array('score2', [d.N]), score_domain=h.array(
            'dom2', [num(3)]), n_score_levels=h.int('levels2', 1))
    return d


def holdout_data(h, feat):
    S = h.int('S', 2)
    d = dataset(h, EventWithScoreData, S=S)
    d2 = second(h, feat)
    _, info, opts = experiment(h, d, feat, h.int('F', 1), 'TEST')
    m = Two(h, d, d2)
    info.items['model'].items['recommender'] = m.cls()
    info.items['condition'].items['scheme'] = 'holdout'

    def load(f, i):
        return {'TRAIN': d.data, 'TEST': d2.data}[f]
    return d, d2, m, info, opts, load


def check_holdout(h, d, d2, m, info, opts, feat):
    item = lambda *ks: _item(h, info, ks)
    e = external(d2)
    h.elements('recorded events', item('prediction', 'event'),
               [d2.N, d2.S], lambda i, c: e(i, c))
    h.elements('recorded true scores', item('prediction', 'true'), [d2.N],
               lambda i: d2.score(i))
    desc = index_of(Arr.make([d.N], lambda i: i[0], 'i')) + [
        ([], ZERO)] + [([], x) for n, v in opts
                       for x in (to_term(n), v)]
    want = m.predicted(desc, Arr.make(
        [d2.N, d2.S], lambda x: e(*x), 'E')).fn()
    h.elements('recorded predictions are those for the test file of the '
               'model fitted to the training file',
               item('prediction', 'predicted'), [d2.N],
               lambda i: want([i]))
    h.same('training results', item('training', 'results', '0', 'report'),
           m.report(desc))
    h.same('number of test events in the results',
           item('test', 'results', '0', 'n_events'), d2.N)
    check_numbers(h, 'training', d, info)
    check_numbers(h, 'test', d2, info)
    h.ensure('recorded file names', TRUE if item(
        'training', 'file') == 'TRAIN' and item('test', 'file') == 'TEST'
        else FALSE)
    if feat:
        for x in FEATURES:
            h.elements('recorded event feature ' + x, item(
                'prediction', 'event_feature', x), [d2.N],
                lambda i: d2.data.attrs['event_feature'].attrs['fields'][
                    x].read([i]))
    else:
        h.ensure('no event features are recorded', FALSE if
                 'event_feature' in item('prediction').items else TRUE)


def holdout(h, feat):
    d, d2, m, info, opts, load = holdout_data(h, feat)
    h.call(exp.holdout_test, info, P(load))
    check_holdout(h, d, d2, m, info, opts, feat)


@contract('hold-out test')
def holdout_plain(h):
    holdout(h, False)


@contract('hold-out test with event features', bounded='two fields')
def holdout_feature(h):
    holdout(h, True)


@contract('hold-out test without a test file')
def holdout_none(h):
    d, d2, m, info, opts, load = holdout_data(h, False)
    info.items['test'].items['file'] = None
    h.expect(IOError, exp.holdout_test, info, P(load))


class Out(object):
    def __init__(self, info):
        self.text, self.closed = [], False

        def write(s):
            self.text.append(s)

        def close():
            self.closed = True
        self.value = Opaque('out', {'write': P(write), 'close': P(close),
                                    '__str__': 'OUT'})


def task(h, info, load, target=None):
    out = Out(info)
    info.items['condition'].items['out_file'] = out.value
    h.call(exp.do_task, info, P(load), target)
    h.ensure('the results are made serializable', TRUE if
             h.C.decoded is info else FALSE)
    h.ensure('the serialized results are written', TRUE if
             len(out.text) == 1 and isinstance(out.text[0], Opaque) and
             out.text[0].attrs.get('of') is info else FALSE)
    h.ensure('the output file is closed', TRUE if out.closed else FALSE)
    sd = h.C.ghost.get('seed', ())
    h.ensure('the random numbers are seeded once by the random state',
             eq(to_term(sd[0]), h.int('random_state', 0)) if len(sd) == 1
             else FALSE)


@contract('task: cross validation of all folds')
def task_cv(h):
    F = h.int('F', 1)
    d = dataset(h, EventWithScoreData, S=h.int('S', 2))
    m, info, opts = experiment(h, d, False, F)
    task(h, info, lambda f, i: d.data)
    check_folds(h, m, d, info, opts, F, None, False)


@contract('task: one-fold mode')
def task_one(h):
    F = h.int('F', 1)
    d = dataset(h, EventWithScoreData, S=h.int('S', 2))
    m, info, opts = experiment(h, d, False, F)
    t = h.int('target', 0, F)
    task(h, info, lambda f, i: d.data, t)
    check_folds(h, m, d, info, opts, F, t, False)


@contract('task: hold-out')
def task_holdout(h):
    d, d2, m, info, opts, load = holdout_data(h, False)
    task(h, info, load)
    check_holdout(h, d, d2, m, info, opts, False)


@contract('task: an illegal fold number is refused')
def task_fold(h):
    F = h.int('F', 1)
    d = dataset(h, EventWithScoreData, S=h.int('S', 2))
    m, info, opts = experiment(h, d, False, F)
    t = h.int('target')
    h.assume(or_(lt(t, ZERO), le(F, t)))
    h.expect(TypeError, exp.do_task, info, P(lambda f, i: d.data), t)


@contract('task: an illegal scheme is refused')
def task_scheme(h):
    F = h.int('F', 1)
    d = dataset(h, EventWithScoreData, S=h.int('S', 2))
    m, info, opts = experiment(h, d, False, F)
    info.items['condition'].items['scheme'] = 'other'
    h.expect(TypeError, exp.do_task, info, P(lambda f, i: d.data))


# ---- the scripts: loading, options ------------------------------------------

def load_data(h, script, stamp, domain, binary):
    N = app('lines.file.events', (), 'I')
    h.assume(le(ONE, N))
    dom = [h.real('lo'), h.real('hi'), h.real('step')] if domain else [ZERO
                                                                      ] * 3
    if domain:
        h.assume(not_(eq(dom[2], ZERO)))
    else:
        a, b = h.int('a', 0, N), h.int('b', 0, N)
        s = lambda i: cell('events', 'f', i, num(2), 'R')
        h.assume(lt(s(a), s(b)))
    info = PDict({'condition': PDict({
        'has_timestamp': stamp, 'score_domain': PList(list(dom))})})
    o = h.call(script.load_data, Opaque('events'), info)
    kept = info.items['condition'].items['score_domain']
    h.shape('recorded score domain', kept, [num(3)])
    got = [kept.fn()([num(i)]) for i in range(3)]
    if domain:
        for i in range(3):
            h.ensure('the given score domain is recorded', eq(
                to_term(got[i]), dom[i]))
    feature = nplib.dtype_name(nplib.m_dtype(np.dtype(
        [('timestamp', int)]))) if stamp else None
    if binary:
        thr = add(div(sub(got[1], got[0]), num(2)), got[0])
        sc = lambda i: ite(le(cell('events', 'f', i, num(2), 'R'), thr),
                           ZERO, ONE)
        loaded(h, o, 'events', True, num(2), num(2), to_term,
               feature=feature, domain=[ZERO, ONE, ONE], score=sc)
    else:
        loaded(h, o, 'events', True, num(2), num(2), to_term,
               feature=feature, domain=got)


for _s, _n in ((score_prediction, 'score prediction'),
               (item_finding, 'item finding')):
    for _t in (True, False):
        for _d in (True, False):
            contract('%s: load_data%s%s' % (
                _n, ', time stamps' if _t else '',
                ', score domain' if _d else ''))(
                lambda h, s=_s, t=_t, d=_d: load_data(
                    h, s, t, d, s is item_finding))


def options(h, script, method, cls, keys, fixed, maxiter):
    f = {k: Opaque(k) for k in ('infile', 'outfile', 'testfile',
                                'validation')}
    f.update(C=h.real('C'), k=h.int('k', 1), tol=h.real('tol'),
             alpha=h.real('alpha'), rseed=h.int('rseed', 0),
             fold=h.int('fold', 2), method=method, timestamp=h.bool('ts'),
             maxiter=h.int('maxiter', 1) if maxiter else None,
             domain=PList([h.real('lo'), h.real('hi'), h.real('step')]))
    i = h.call(script.init_info, Opaque('options', f))
    g = lambda *ks: _item(h, i, ks)
    h.ensure('recommender', TRUE if g('model', 'recommender') is cls
             else FALSE)
    opts = {k: f[k] for k in keys}
    opts.update(fixed)
    opts['random_state'] = f['rseed']
    if maxiter:
        opts['maxiter'] = f['maxiter']
    o = g('model', 'options')
    h.ensure('names of the options', TRUE if isinstance(o, PDict) and
             sorted(o.items) == sorted(opts) else FALSE)
    for k in opts:
        h.same('option ' + k, o.items[k], opts[k])
    for k, v in (('scheme', 'validation'), ('out_file', 'outfile')):
        h.ensure(k, TRUE if g('condition', k) is f[v] else FALSE)
    h.ensure('training file', TRUE if g('training', 'file') is f['infile']
             else FALSE)
    h.ensure('test file', TRUE if g('test', 'file') is f['testfile']
             else FALSE)
    h.same('number of folds', g('condition', 'n_folds'), f['fold'])
    h.same('time stamps', g('condition', 'has_timestamp'), f['timestamp'])
    d = g('condition', 'score_domain')
    for j, k in enumerate(('lo', 'hi', 'step')):
        h.same('score domain', h.item(d, j), h.real(k))


for _s, _m, _c, _k, _f in (
        (score_prediction, 'pmf', PMF, ('C', 'k', 'tol'), {}),
        (score_prediction, 'plsam', MultinomialPLSA, ('alpha', 'k', 'tol'),
         {'use_expectation': True}),
        (score_prediction, 'plsamm', MultinomialPLSA, ('alpha', 'k', 'tol'),
         {'use_expectation': False}),
        (item_finding, 'lpmf', LogisticPMF, ('C', 'k', 'tol'), {})):
    for _i in (True, False):
        contract('options of method %s%s' % (
            _m, ', maximum number of iterations' if _i else ''))(
            lambda h, s=_s, m=_m, c=_c, k=_k, f=_f, i=_i: options(
                h, s, m, c, k, f, i))


@contract('an unknown method is refused')
def unknown_method(h):
    for s in (score_prediction, item_finding):
        h.expect(TypeError, s.init_info, Opaque('options', dict(
            {k: Opaque(k) for k in ('infile', 'outfile', 'testfile')},
            method='other')))


@contract('main: the task gets the options, the loader and the fold')
def main(h):
    for s in (score_prediction, item_finding):
        opt = Opaque('options', {
            'fold_no': Opaque('fold number'), 'infile': Opaque('in'),
            'outfile': Opaque('out'), 'testfile': Opaque('test'),
            'rseed': 1, 'domain': PList([1, 5, 1]), 'timestamp': True,
            'validation': 'cv', 'fold': 5, 'k': 2, 'C': 1, 'tol': 1,
            'alpha': 1, 'maxiter': None,
            'method': 'pmf' if s is score_prediction else 'lpmf'})
        h.C.ghost['options'], h.C.ghost['tasks'] = opt, ()
        h.call(s.main)
        tasks = h.C.ghost['tasks']
        h.ensure('one task', TRUE if len(tasks) == 1 else FALSE)
        for a in tasks[:1]:
            h.ensure('requested fold', TRUE if a.get('target_fold') is
                     opt.attrs['fold_no'] else FALSE)
            h.ensure('loader of the script', TRUE if a.get(
                'load_data') is s.load_data else FALSE)
            h.ensure('training file', TRUE if _item(h, a['info'], (
                'training', 'file')) is opt.attrs['infile'] else FALSE)


def parsed(args, kw):
    ctx().trusted.add('argparse: options are those of the command line')
    return ctx().ghost['options']


def called_task(args, kw):
    a = dict(zip(('info', 'load_data', 'target_fold'), args))
    a.update(kw)
    ctx().ghost['tasks'] += (a,)


for _s in (score_prediction, item_finding):
    if hasattr(_s, 'command_line_parser'):
        CONTRACTS[fn_key(_s.command_line_parser)] = parsed
if hasattr(exp, 'do_task'):
    CONTRACTS[fn_key(exp.do_task)] = called_task
