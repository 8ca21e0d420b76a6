"""C25 Merging folds and computing statistics keeps all results of every
fold"""
import json
import numpy as np
from .common import *
from engine.interp import CONTRACTS, Partial, fn_key, model
import exp_recsys_fold_merge as merge
import stats_recsys as stats
from kamrecsys.metrics import (
    score_predictor_statistics, item_finder_statistics)
from kamrecsys.utils.kamexputils import json_decodable

P = lambda f: Partial(lambda args, kw: f(*args, **kw))
PARTS = ('event', 'true', 'predicted', 'mask')
FEATURES = ('timestamp', 'w')


@model(json.load)
def load(args, kw):
    """the contents of the file"""
    if len(args) != 1 or kw:
        raise PyExc(TypeError, 'arguments of json.load')
    ctx().trusted.add('json.load')
    fp = args[0]
    fp.attrs['reads'].append(fp.attrs['index'])
    return fp.attrs['contents']()


def decodable(args, kw):
    ctx().ghost['decoded'] = ctx().ghost.get('decoded', ()) + (args[0],)


CONTRACTS[fn_key(json_decodable)] = decodable


class Files(object):
    """one-fold result files; file i holds the fold key(i)"""

    def __init__(self, h, feat):
        self.h, self.feat = h, feat
        self.key = lambda i: app('key', (to_term(i),), 'U')
        self.reads = []

    def text(self, what, i):
        return app('json:' + what, (to_term(i),), 'U')

    def entries(self, what, i):
        """{key(i): entry}"""
        k = self.key(i)
        return SDict(lambda x: eq(x, k), lambda x: self.text(what, i), ONE,
                     'U', (ONE, lambda t: k))

    def contents(self, i):
        part = lambda p: PDict({
            'file': self.text(p + '.file', i),
            'results': self.entries(p + '.results', i)})
        pred = {p: self.entries(p, i) for p in PARTS}
        if self.feat:
            pred['event_feature'] = PDict({
                x: self.entries('event_feature.' + x, i) for x in FEATURES})
        return PDict({
            'condition': PDict({'scheme': 'cv', 'out_file': 'out'}),
            'environment': PDict({k: self.text('environment.' + k, i)
                                  for k in ('script', 'system', 'version')}),
            'training': part('training'), 'test': part('test'),
            'model': PDict({'name': self.text('model.name', i)}),
            'prediction': PDict(pred)})

    def file(self, i):
        return Opaque('file', {
            'contents': lambda: self.contents(to_term(i)),
            'reads': self.reads, 'index': i, 'name': 'file',
            'close': P(lambda: None)})


class Out(object):
    def __init__(self):
        self.text, self.closed = [], False

        def close():
            self.closed = True
        self.value = Opaque('out', {
            'write': P(lambda s: self.text.append(s)), 'close': P(close),
            '__str__': 'OUT'})


def check_merged(h, fs, r, n):
    """r holds the entries of the files 0 .. n-1, each under its fold"""
    k = fresh('k', 'U')
    i = fresh('i', 'I')
    h.assume(and_(le(ZERO, i), lt(i, n)))
    j = fresh('j', 'I')
    parts = [(('training', 'results'), 'training.results'),
             (('test', 'results'), 'test.results')] + [
        (('prediction', p), p) for p in PARTS]
    if fs.feat:
        parts += [(('prediction', 'event_feature', x), 'event_feature.' + x)
                  for x in FEATURES]

    def item(*ks):
        o = r
        for x in ks:
            o = h.item(o, x)
        return o
    dom = lambda D, k: D.dom(k) if isinstance(D, SDict) else DState.of(
        D.items, 'U').state[0](k)
    for p, what in parts + [(('environment', 'environment_fold'), None)]:
        D = item(*p)
        name = '.'.join(p)
        h.ensure(name + ' has exactly the folds of the files', forall(
            [k], eq(dom(D, k), exists([j], and_(
                le(ZERO, j), lt(j, n), eq(k, fs.key(j)))))))
        h.ensure(name + ' has the fold of every file', dom(D, fs.key(i)))
        v = h.item(D, fs.key(i))
        if what is not None:
            h.ensure(name + ' holds the entry of that file', eq(
                to_term(v), fs.text(what, i)))
        else:
            for x in ('script', 'system', 'version'):
                h.ensure(name + ' holds the %s of that file' % x, eq(
                    to_term(h.item(v, x)), fs.text('environment.' + x, i)))
    h.ensure('the result is marked as merged', TRUE if item(
        'condition', 'merged') is True else FALSE)
    h.ensure('other entries are those of the first file', and_(*[
        eq(to_term(item(*p)), fs.text('.'.join(p), 0)) for p in (
            ('training', 'file'), ('test', 'file'), ('model', 'name'))]))
    h.ensure('event features are merged exactly when there are any', TRUE if
             ('event_feature' in item('prediction').items) == fs.feat
             else FALSE)


def distinct(h, fs, n):
    """different files hold different folds"""
    a, b = var('a', 'I'), var('b', 'I')
    h.assume(forall([a, b], imp(
        and_(le(ZERO, a), lt(a, n), le(ZERO, b), lt(b, n),
             eq(fs.key(a), fs.key(b))), eq(a, b)),
        trig=(fs.key(a), fs.key(b))))


def merged(h, feat):
    n = h.int('n', 1)
    fs = Files(h, feat)
    distinct(h, fs, n)
    out = Out()
    opt = Opaque('options', {
        'infile': SList(n, lambda i: fs.file(i)), 'outfile': out.value})
    h.call(merge.do_task, opt)
    dec = h.C.ghost.get('decoded', ())
    h.ensure('one merged result is made serializable', TRUE if
             len(dec) == 1 else FALSE)
    h.ensure('the merged result is written', TRUE if len(
        out.text) == 1 and isinstance(out.text[0], Opaque) and
        out.text[0].attrs.get('of') is dec[0] else FALSE)
    h.ensure('the output file is closed', TRUE if out.closed else FALSE)
    check_merged(h, fs, dec[0], n)


@contract('merging the results of folds')
def merge_plain(h):
    merged(h, False)


@contract('merging the results of folds with event features',
          bounded='two fields')
def merge_feature(h):
    merged(h, True)


# ---- statistics -----------------------------------------------------------

def recorded(name, star):
    def call(args, kw):
        ctx().ghost['stats'] = ctx().ghost.get('stats', ()) + (
            (name, list(args), dict(kw)),)
        return Opaque('statistics', {'__class__': dict})
    return call


CONTRACTS[fn_key(score_predictor_statistics)] = recorded('score', True)
CONTRACTS[fn_key(item_finder_statistics)] = recorded('find', False)


class Result(object):
    """the contents of a result file of F folds (None: hold-out)"""

    def __init__(self, h, kind, F):
        self.F = F
        key = h.fun('key', 'U')
        a, b = var('a', 'I'), var('b', 'I')
        at = h.fun('place', 'I')
        h.assume(forall([a], imp(and_(le(ZERO, a), lt(
            a, F if F is not None else ONE)), eq(at(key(a)), a)),
            trig=(key(a),)))
        size = h.fun('size', 'I')
        k = var('k', 'U')
        h.assume(forall([k], le(ZERO, size(k)), trig=(size(k),)))
        self.values = {}

        def listing(what, k):
            val = h.fun(what)
            return SList(size(k), lambda j: val(k, j))

        def part(what):
            if F is None:
                return listing(what, key(0))
            return SDict(lambda k: and_(
                le(ZERO, at(k)), lt(at(k), F), eq(k, key(at(k)))),
                lambda k: listing(what, k), F, 'U', (
                    F, lambda i: key(i)))
        self.listing, self.key = listing, key
        self.dom = PList([h.real('lo'), h.real('hi'), h.real('step')])
        self.info = PDict({
            'condition': PDict({'score_domain': self.dom}),
            'model': PDict({'task_type': kind}),
            'prediction': PDict({k: part(k) for k in (
                'event', 'true', 'predicted')})})

    def expected(self, what):
        if self.F is None:
            return interp.call(np.array, [self.listing(what, self.key(0))])
        return interp.call(np.concatenate, [SList(
            self.F, lambda i: self.listing(what, self.key(i)))])


def statistics(h, kind, folds, keep):
    F = h.int('F', 1) if folds else None
    r = Result(h, kind, F)
    before = dict(r.info.items)
    out = Out()
    reads = []
    opt = Opaque('options', {
        'infile': Opaque('file', {
            'contents': lambda: r.info, 'reads': reads, 'index': 0,
            'close': P(lambda: None)}),
        'outfile': out.value, 'keepdata': keep})
    h.call(stats.do_task, opt)
    calls = h.C.ghost.get('stats', ())
    h.ensure('the statistics of this kind of task are computed once',
             TRUE if [c[0] for c in calls] == [
                 'score' if kind == 'score_predictor' else 'find']
             else FALSE)
    _, args, kw = calls[0]
    names = ['y_true', 'y_pred', 'score_domain']
    args = dict(zip(names, args), **kw)
    for what, k in (('true', 'y_true'), ('predicted', 'y_pred')):
        e = r.expected(what)
        g = e.fn()
        h.elements('%s scores of all folds' % what, ops.arr(args[k]),
                   e.shape, lambda j: g([j]))
    if kind == 'score_predictor':
        h.ensure('the score domain of the result', TRUE if args[
            'score_domain'] is r.dom else FALSE)
    h.ensure('no other arguments', TRUE if set(args) == set(
        names[:2] + (names[2:] if kind == 'score_predictor' else []))
        else FALSE)
    info = r.info
    h.ensure('the statistics are recorded', TRUE if isinstance(
        info.items.get('statistics'), Opaque) and info.items[
            'statistics'].name == 'statistics' else FALSE)
    h.ensure('the statistics are made serializable', TRUE if any(
        x is info.items['statistics'] or x is info
        for x in h.C.ghost.get('decoded', ())) else FALSE)
    h.ensure('the data are kept exactly on demand', TRUE if (
        'prediction' in info.items) == keep else FALSE)
    h.ensure('other entries are kept', TRUE if all(
        info.items.get(k) is before[k] for k in ('condition', 'model'))
        else FALSE)
    h.ensure('the result is written', TRUE if len(
        out.text) == 1 and isinstance(out.text[0], Opaque) and
        out.text[0].attrs.get('of') is info else FALSE)


for _kind in ('score_predictor', 'item_finder'):
    for _folds in (True, False):
        for _keep in (True, False):
            contract('statistics of a %s, %s%s' % (
                _kind, 'folds' if _folds else 'hold-out',
                ', data kept' if _keep else ''))(
                lambda h, a=(_kind, _folds, _keep): statistics(h, *a))


@contract('statistics of another task are refused')
def stats_other(h):
    r = Result(h, 'other', None)
    out = Out()
    opt = Opaque('options', {
        'infile': Opaque('file', {
            'contents': lambda: r.info, 'reads': [], 'index': 0,
            'close': P(lambda: None)}),
        'outfile': out.value, 'keepdata': True})
    h.expect(TypeError, stats.do_task, opt)
