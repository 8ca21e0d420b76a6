import copy
import importlib
import io
import json
import os
import sys
import numpy as np
from .gens import *


def script(name):
    p = os.path.join(os.environ.get('KAM_REPO', '/repo'), 'scripts')
    if p not in sys.path:
        sys.path.insert(0, p)
    return importlib.import_module(name)


class Out(io.StringIO):
    def __init__(self, name='out.json'):
        io.StringIO.__init__(self)
        self.name = name
        self.text = None

    def __str__(self):
        return 'OUT:' + self.name

    def close(self):
        self.text = self.getvalue()
        io.StringIO.close(self)


def stub(log, task='score_predictor'):
    class Stub(object):
        task_type = task
        explicit_ratings = True

        def __init__(self, **kw):
            self.kw = kw
            self.fit_results_ = {}

        def fit(self, data, *a, **k):
            assert not a and not k
            self.ev = np.array(data.to_eid_event(data.event))
            self.sc = None if getattr(data, 'score', None) is None else \
                np.array(data.score)
            self.nr = len(log)
            self.fit_results_ = {'marker': len(log),
                                 'n_events': int(len(self.ev))}
            log.append([self.kw, self.ev, self.sc, []])
            return self

        def predict(self, ev):
            ev = np.array(ev)
            log[self.nr][3].append(ev)
            # tells apart every row, the order and the fold
            return np.array([1000. * self.nr + 31. * r[0] + r[1] + 0.125 * i
                             for i, r in enumerate(ev)])
    return Stub


def make_data(g, n_users=None, feat=None, least=2):
    """text, rows: every user has at least two events; scores identify rows"""
    rows = []
    nu = n_users or g.int(1, 4)
    users = [int(u) for u in g.rng.permutation(20)[:nu]]
    for u in users:
        for _ in range(g.int(least, 7)):
            rows.append([u, g.int(0, 9)])
    rows = [rows[i] for i in g.rng.permutation(len(rows))]
    ev = np.array(rows)
    sc = g.rng.permutation(len(rows)) * 0.5 + 1.
    ts = g.rng.permutation(len(rows)) + 100
    return ev, sc, ts


def loader(files, dom, feat):
    from kamrecsys.data import EventWithScoreData

    def load_data(fp, info):
        ev, sc, ts = files[fp]
        d = EventWithScoreData(n_otypes=2)
        ef = None
        if feat:
            ef = np.zeros(len(ev), dtype=[('timestamp', int), ('w', float)])
            ef['timestamp'] = ts
            ef['w'] = ts * 0.5
        d.set_event(ev.copy(), sc.copy(), score_domain=dom, event_feature=ef)
        return d
    return load_data


def make_info(g, rec, scheme, n_folds, seed):
    return {'condition': {'scheme': scheme, 'n_folds': n_folds,
                          'out_file': Out(), 'score_domain': [1, 50, 0.5]},
            'environment': {},
            'training': {'file': 'TRAIN'},
            'test': {'file': None},
            'model': {'options': {'random_state': seed, 'C': 0.5},
                      'method': 'stub', 'recommender': rec},
            'prediction': {}}


def aslist(x):
    return np.asarray(x).tolist()


def rows_key(ev, sc):
    return sorted((int(a), int(b), float(s)) for (a, b), s in zip(ev, sc))


def check_fold(g, info, key, entry, full, feat, opts):
    ev, sc, ts = full
    p = info['prediction']
    kw, tev, tsc, preds = entry
    g.chk(kw == opts, 'options of the model', got=kw)
    idx = aslist(p['mask'][key])
    n = len(ev)
    g.chk(len(set(idx)) == len(idx) and len(idx) > 0 and
          all(0 <= i < n for i in idx), 'test indices', got=idx)
    rest = [i for i in range(n) if i not in set(idx)]
    for u in set(ev[:, 0].tolist()):
        mine = [i for i in range(n) if ev[i, 0] == u]
        k = len(set(mine) & set(idx))
        g.chk(k == int(np.ceil(0.2 * len(mine))),
              '20% of the ratings per user are tested', got=k, user=u)
    g.chk(rows_key(tev, tsc) == rows_key(ev[rest], sc[rest]),
          'the model is fitted to exactly the events outside the test '
          'indices', fitted=aslist(tev), test=idx)
    g.chk(len(preds) == 1 and aslist(preds[0]) == aslist(ev[idx]),
          'exactly the test events are predicted', got=preds)
    g.chk(aslist(p['event'][key]) == aslist(ev[idx]), 'recorded events')
    g.chk(aslist(p['true'][key]) == aslist(sc[idx]), 'recorded true scores')


def check_pred(g, info, key, nr, ev, idx):
    e = [1000. * nr + 31. * ev[i][0] + ev[i][1] + 0.125 * j
         for j, i in enumerate(idx)]
    g.chk(aslist(info['prediction']['predicted'][key]) == e,
          'recorded predictions', got=info['prediction']['predicted'][key])


def run(g, via, u, info, load, target):
    """runs the experiment, gives back the recorded information"""
    if via == 'task':
        out = info['condition']['out_file']
        seed = info['model']['options']['random_state']
        u.do_task(info, load, target_fold=target)
        return json.loads(out.text)
    np.random.seed(info['model']['options']['random_state'])
    if info['condition']['scheme'] == 'cv':
        if target is None and g.flip():
            u.cv_test(info, load)
        else:
            u.cv_test(info, load, target_fold=target)
    else:
        u.holdout_test(info, load)
    return info


def case_cv(g):
    u = script('exp_recsys_util')
    k = g.int(1, 4)
    feat = g.flip()
    full = make_data(g)
    ev, sc, ts = full
    seed = g.int(0, 1000)
    g.note(events=aslist(ev), scores=aslist(sc), n_folds=k, seed=seed,
           event_features=feat)
    load = loader({'TRAIN': full}, (1, 50, 0.5), feat)
    via = 'task' if g.int(0, 3) == 0 else 'direct'
    log = []
    rec = stub(log)
    info = run(g, via, u, make_info(g, rec, 'cv', k, seed), load, None)
    g.chk(len(log) == k, 'number of models', got=len(log))
    keys = [str(i) for i in range(k)]
    p = info['prediction']
    for part in (p['event'], p['true'], p['predicted'], p['mask'],
                 info['training']['results'], info['test']['results']):
        g.chk(sorted(part) == keys, 'recorded folds', got=sorted(part))
    for f in range(k):
        check_fold(g, info, str(f), log[f], full, feat,
                   {'random_state': seed, 'C': 0.5})
        idx = aslist(p['mask'][str(f)])
        check_pred(g, info, str(f), f, ev, idx)
        g.chk(info['training']['results'][str(f)]['marker'] == f,
              'training results belong to the fold')
        g.chk(info['test']['results'][str(f)]['n_events'] == len(idx),
              'number of test events')
        if feat:
            g.chk(sorted(p['event_feature']) == ['timestamp', 'w'],
                  'event features')
            g.chk(aslist(p['event_feature']['timestamp'][str(f)]) ==
                  aslist(ts[idx]), 'recorded event features')
            g.chk(aslist(p['event_feature']['w'][str(f)]) ==
                  aslist(ts[idx] * .5), 'recorded event features')
    if not feat:
        g.chk('event_feature' not in p, 'no event features')
    g.chk(info['training']['n_events'] == len(ev), 'number of events')
    g.chk(info['training']['n_users'] == len(set(ev[:, 0].tolist())),
          'number of users')
    g.chk(info['training']['n_items'] == len(set(ev[:, 1].tolist())),
          'number of items')
    # one-fold mode
    t = g.int(0, k - 1)
    log1 = []
    one = run(g, via, u, make_info(g, stub(log1), 'cv', k, seed), load, t)
    g.note(target_fold=t)
    g.chk(len(log1) == 1, 'only the requested fold is run', got=len(log1))
    q = one['prediction']
    for part in (q['event'], q['true'], q['predicted'], q['mask'],
                 one['training']['results'], one['test']['results']):
        g.chk(list(part) == [str(t)], 'only the requested fold is recorded',
              got=list(part))
    g.chk(aslist(q['mask'][str(t)]) == aslist(p['mask'][str(t)]),
          'the same split as without one-fold mode')
    check_fold(g, one, str(t), log1[0], full, feat,
               {'random_state': seed, 'C': 0.5})
    check_pred(g, one, str(t), 0, ev, aslist(q['mask'][str(t)]))
    if feat:
        g.chk(aslist(q['event_feature']['timestamp'][str(t)]) ==
              aslist(ts[aslist(q['mask'][str(t)])]),
              'recorded event features')


def case_holdout(g):
    u = script('exp_recsys_util')
    feat = g.flip()
    train, test = make_data(g), make_data(g, least=1)
    seed = g.int(0, 1000)
    g.note(train=aslist(train[0]), test=aslist(test[0]), feat=feat)
    load = loader({'TRAIN': train, 'TEST': test}, (1, 50, 0.5), feat)
    log = []
    info = make_info(g, stub(log), 'holdout', 5, seed)
    info['test']['file'] = 'TEST'
    via = 'task' if g.int(0, 3) == 0 else 'direct'
    r = run(g, via, u, info, load, None)
    g.chk(len(log) == 1, 'one model is fitted')
    kw, ev, sc, preds = log[0]
    g.chk(rows_key(ev, sc) == rows_key(train[0], train[1]) and
          len(ev) == len(train[0]), 'fitted to the whole training file')
    g.chk(len(preds) == 1 and aslist(preds[0]) == aslist(test[0]),
          'the test file is predicted', got=preds)
    p = r['prediction']
    g.chk(aslist(p['event']) == aslist(test[0]), 'recorded events')
    g.chk(aslist(p['true']) == aslist(test[1]), 'recorded true scores')
    e = [31. * a + b + 0.125 * i for i, (a, b) in enumerate(test[0])]
    g.chk(aslist(p['predicted']) == aslist(e), 'recorded predictions',
          got=p['predicted'])
    if feat:
        g.chk(aslist(p['event_feature']['timestamp']) == aslist(test[2]),
              'recorded event features')
    g.chk(r['test']['file'] == 'TEST' and r['training']['file'] == 'TRAIN',
          'recorded file names')
    for part, (a, b, c) in (('training', train), ('test', test)):
        g.chk(r[part]['n_events'] == len(a), part + ' number of events')
        g.chk(r[part]['n_users'] == len(set(a[:, 0].tolist())),
              part + ' number of users')
        g.chk(r[part]['n_items'] == len(set(a[:, 1].tolist())),
              part + ' number of items')
    g.chk(r['training']['results']['0']['marker'] == 0, 'training results')
    g.chk(r['test']['results']['0']['n_events'] == len(test[0]),
          'number of test events')
    # no test data
    info = make_info(g, stub([]), 'holdout', 5, seed)
    g.raises(IOError, lambda: u.holdout_test(info, load),
             'hold-out without test data')


def case_task(g):
    """inputs refused by the main task"""
    u = script('exp_recsys_util')
    full = make_data(g)
    load = loader({'TRAIN': full}, (1, 50, 0.5), False)
    k = g.int(1, 4)
    log = []
    bad = g.choice([-1, k, k + 2, -5])
    g.note(n_folds=k, target_fold=bad)
    g.raises(TypeError, lambda: u.do_task(make_info(
        g, stub(log), 'cv', k, 1), load, target_fold=bad),
        'an illegal fold number')
    g.chk(log == [], 'nothing is fitted for an illegal fold number')
    g.raises(TypeError, lambda: u.do_task(make_info(
        g, stub(log), 'loo', k, 1), load), 'an illegal validation scheme')
    g.chk(log == [], 'nothing is fitted for an illegal scheme')


def write(path, ev, sc, ts):
    with open(path, 'w') as f:
        for i in range(len(ev)):
            row = [str(ev[i][0]), str(ev[i][1]), repr(float(sc[i]))]
            f.write('\t'.join(row + ([str(ts[i])] if ts is not None
                                     else [])) + '\n')


def scores_for(g, full, binary):
    """scores of a small domain, enough of both classes"""
    ev, sc, ts = full
    sc = g.rng.randint(1, 6, size=len(ev)).astype(float)
    if binary and len(ev) >= 12:
        # no test set holds all of a class
        sc = np.array([float(g.int(1, 2) + 3 * (i % 2))
                       for i in range(len(ev))])
        return ev, g.rng.permutation(sc), ts
    for i, v in enumerate((1., 5., 1., 5., 2., 3.)[:len(sc)]):
        sc[i] = v
    return ev, sc, ts


def reference(binary, full, sel, dom, stamp):
    """the data set a script should use"""
    from kamrecsys.data import EventWithScoreData
    ev, sc, ts = full
    d = EventWithScoreData(n_otypes=2)
    d.set_event(ev[sel], sc[sel], score_domain=dom)
    if binary:
        d.binarize_score()
    return d


def case_load(g):
    """the loaders of the scripts"""
    binary = g.flip()
    s = script('exp_recsys_if' if binary else 'exp_recsys_sp')
    ev, sc, ts = full = scores_for(g, make_data(g), binary)
    stamp = g.flip()
    dom = g.choice([[0, 0, 0], [1, 5, 1], [0, 6, 1], [0.0, 10.0, 0.5],
                    [0, 5, 1]])
    given = list(dom)
    zeros = dom == [0, 0, 0]
    info = {'condition': {'has_timestamp': stamp, 'score_domain': dom}}
    g.note(item_finder=binary, events=aslist(ev), scores=aslist(sc),
           timestamps=stamp, domain=dom)
    rows = '\n'.join('\t'.join(map(str, [a, b, c] + ([t] if stamp else [])))
                     for (a, b), c, t in zip(ev, sc, ts)) + '\n'
    d = s.load_data(io.BytesIO(rows.encode()), info)
    lo, hi = (sc.min(), sc.max()) if zeros else given[:2]
    kept = aslist(info['condition']['score_domain'])
    if zeros:
        given = [lo, hi, np.min(np.diff(np.unique(sc)))]
    g.chk(kept == given, 'recorded score domain', got=kept, expected=given)
    g.chk(aslist(d.to_eid_event(d.event)) == aslist(ev), 'loaded events')
    if binary:
        e = [int(x > lo + (hi - lo) / 2.) for x in sc]
        g.chk(aslist(d.score) == e, 'binarized scores', got=aslist(d.score),
              expected=e)
        g.chk(aslist(d.score_domain) == [0, 1, 1], 'score domain')
    else:
        g.chk(aslist(d.score) == aslist(sc), 'loaded scores')
        g.chk(aslist(d.score_domain) == given, 'score domain')
    g.chk((d.event_feature is not None) == stamp, 'event features')
    if stamp:
        g.chk(aslist(d.event_feature['timestamp']) == aslist(ts),
              'loaded time stamps')


def case_main(g):
    """a whole script, from the command line to the result file"""
    import logging
    import shutil
    import tempfile
    from kamrecsys.item_finder import LogisticPMF
    from kamrecsys.score_predictor import MultinomialPLSA, PMF
    binary = g.flip(0.4)
    s = script('exp_recsys_if' if binary else 'exp_recsys_sp')
    method = 'lpmf' if binary else g.choice(['pmf', 'plsam', 'plsamm'])
    seed, k, it = g.int(0, 99), g.int(1, 2), g.int(1, 2)
    C = g.choice([0.5, 0.1, 2.0])
    stamp = g.flip()
    full = scores_for(g, make_data(g, n_users=2, least=6), binary)
    test = scores_for(g, make_data(g, n_users=2, least=4), binary)
    cv = g.flip()
    fold = g.int(2, 3)
    one = g.int(0, fold - 1) if cv and g.flip() else None
    g.note(method=method, scheme='cv' if cv else 'holdout', rseed=seed, k=k,
           maxiter=it, C=C, timestamps=stamp, n_folds=fold, fold_no=one,
           events=aslist(full[0]), scores=aslist(full[1]))
    tmp = tempfile.mkdtemp(prefix='kam-c24-')
    logger = logging.getLogger('exp_recsys')
    argv, level = sys.argv, logger.level
    try:
        paths = [os.path.join(tmp, x) for x in ('train', 'test', 'out')]
        write(paths[0], full[0], full[1], full[2] if stamp else None)
        write(paths[1], test[0], test[1], test[2] if stamp else None)
        a = ['x.py', '-q', '--rseed', str(seed), '-i', paths[0], '-o',
             paths[2], '-m', method, '-k', str(k), '--maxiter', str(it),
             '-d', '1', '5', '1', '-v', 'cv' if cv else 'holdout',
             '--lambda', str(C), '--alpha', '1.5', '--tol', '1e-3', '-f',
             str(fold)]
        if not stamp:
            a.append('--no-timestamp')
        if not cv:
            a += ['-t', paths[1]]
        if one is not None:
            a += ['-n', str(one)]
        sys.argv = a
        s.main()
        r = json.load(open(paths[2]))
    finally:
        sys.argv = argv
        logger.setLevel(level)
        shutil.rmtree(tmp)
    opts = {'k': k, 'maxiter': it, 'random_state': seed, 'tol': 1e-3}
    if method in ('pmf', 'lpmf'):
        opts['C'] = C
    else:
        opts.update(alpha=1.5, use_expectation=method == 'plsam')
    cls = {'pmf': PMF, 'lpmf': LogisticPMF}.get(method, MultinomialPLSA)
    p = r['prediction']
    dom = (1, 5, 1)
    if not cv:
        m = cls(**dict(opts))
        with np.errstate(all='ignore'):
            m.fit(reference(binary, full, slice(None), dom, stamp))
            e = m.predict(test[0])
        want = reference(binary, test, slice(None), dom, stamp)
        g.chk(aslist(p['event']) == aslist(test[0]), 'recorded events')
        g.chk(aslist(p['true']) == aslist(want.score), 'recorded scores')
        g.close(np.array(p['predicted']), e, 'recorded predictions')
        if stamp:
            g.chk(p['event_feature']['timestamp'] == aslist(test[2]),
                  'recorded event features')
        return
    keys = [str(one)] if one is not None else [str(i) for i in range(fold)]
    g.chk(sorted(p['mask']) == keys, 'recorded folds', got=sorted(p['mask']))
    for key in keys:
        idx = p['mask'][key]
        rest = [i for i in range(len(full[0])) if i not in set(idx)]
        want = reference(binary, full, slice(None), dom, stamp)
        m = cls(**dict(opts))
        with np.errstate(all='ignore'):
            m.fit(want.filter_event(np.array(rest)))
            e = m.predict(full[0][idx])
        g.chk(aslist(p['event'][key]) == aslist(full[0][idx]),
              'recorded events')
        g.chk(aslist(p['true'][key]) == aslist(want.score[idx]),
              'recorded scores')
        g.close(np.array(p['predicted'][key]), e, 'recorded predictions')
        if stamp:
            g.chk(p['event_feature']['timestamp'][key] ==
                  aslist(full[2][idx]), 'recorded event features')


FAMILIES = [(case_cv, 6), (case_holdout, 4), (case_task, 1), (case_load, 4),
            (case_main, 3)]
