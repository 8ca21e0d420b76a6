import copy
import io
import json
from argparse import Namespace
import numpy as np
from .gens import *
from .c24 import script, Out


def fp(obj, name):
    f = io.StringIO(json.dumps(obj))
    f.name = name
    return f


def fold_info(g, f, feat, task, n_folds):
    n = g.int(2, 5)
    if task == 'item_finder':
        t = g.rng.randint(0, 2, n)
        t[0] = f % 2
        t = t.tolist()
        dom = [0, 1, 1]
    else:
        t = g.rng.randint(1, 6, n).astype(float).tolist()
        dom = [1, 5, 1] if n_folds % 2 else [0, 6, 0.5]
    p = g.rng.rand(n).round(3)
    if task != 'item_finder':
        p = p * 4 + 1
    key = str(f)
    info = {
        'condition': {'n_folds': n_folds, 'scheme': 'cv', 'score_domain': dom,
                      'out_file': 'out%d' % f},
        'environment': {'system': {'node': 'host%d' % f},
                        'version': {'numpy': '1.%d' % g.int(0, 99)},
                        'script': {'name': 's'}},
        'training': {'file': 'F', 'n_events': 10,
                     'results': {key: {'elapsed': g.int(0, 99), 'nr': f}}},
        'test': {'file': 'F', 'n_events': 10,
                 'results': {key: {'n_events': n, 'nr': f + 100}}},
        'model': {'task_type': task, 'options': {'C': 1}},
        'prediction': {
            'event': {key: g.rng.randint(0, 9, size=(n, 2)).tolist()},
            'true': {key: t}, 'predicted': {key: p.tolist()},
            'mask': {key: sorted(g.rng.permutation(20)[:n].tolist())}}}
    if feat:
        info['prediction']['event_feature'] = {
            'timestamp': {key: g.rng.randint(0, 99, n).tolist()},
            'w': {key: g.rng.rand(n).round(2).tolist()}}
    return info


def gen_folds(g):
    k = g.int(1, 5)
    feat = g.flip()
    task = g.choice(['score_predictor', 'item_finder'])
    order = [int(i) for i in g.rng.permutation(k + 2)[:k]]
    return order, feat, task, [fold_info(g, f, feat, task, k) for f in order]


def merge(g, infos):
    m = script('exp_recsys_fold_merge')
    if g.flip(0.5):
        out = Out()
        m.do_task(Namespace(
            infile=[fp(i, 'f%d' % j) for j, i in enumerate(infos)],
            outfile=out))
        return json.loads(out.text)
    r = m.first_fold(fp(infos[0], 'f0'))
    for j, i in enumerate(infos[1:]):
        m.rest_fold(fp(i, 'f%d' % (j + 1)), r)
    return r


def case_merge(g):
    order, feat, task, infos = gen_folds(g)
    g.note(order=order, feat=feat, task=task, infos=infos)
    r = merge(g, infos)
    keys = sorted(str(f) for f in order)
    for part in ('training', 'test'):
        g.chk(sorted(r[part]['results']) == keys, part + ' folds',
              got=sorted(r[part]['results']))
    g.chk(sorted(r['environment']['environment_fold']) == keys,
          'folds of environments')
    g.chk(sorted(r['prediction']) == sorted(infos[0]['prediction']),
          'kinds of predictions')
    for f, i in zip(order, infos):
        key = str(f)
        for part in ('training', 'test'):
            g.chk(r[part]['results'][key] == i[part]['results'][key],
                  part + ' results of a fold', fold=f)
        g.chk(r['environment']['environment_fold'][key] == i['environment'],
              'environment of a fold', fold=f,
              got=r['environment']['environment_fold'][key])
        for s in ('event', 'true', 'predicted', 'mask'):
            g.chk(sorted(r['prediction'][s]) == keys, 'folds of ' + s)
            g.chk(r['prediction'][s][key] == i['prediction'][s][key],
                  s + ' of a fold', fold=f)
        if feat:
            for s in ('timestamp', 'w'):
                g.chk(sorted(r['prediction']['event_feature'][s]) == keys,
                      'folds of event features')
                g.chk(r['prediction']['event_feature'][s][key] ==
                      i['prediction']['event_feature'][s][key],
                      'event feature of a fold', fold=f)


def case_stats(g):
    from kamrecsys import metrics
    s = script('stats_recsys')
    order, feat, task, infos = gen_folds(g)
    k = g.int(0, 2)
    if k == 0:      # hold-out
        info = copy.deepcopy(infos[0])
        key = str(order[0])
        for part in ('event', 'true', 'predicted', 'mask'):
            info['prediction'][part] = info['prediction'][part][key]
        true, pred = info['prediction']['true'], info['prediction'][
            'predicted']
    else:
        info = copy.deepcopy(infos[0])
        for f, i in list(zip(order, infos))[1:]:
            for part in ('event', 'true', 'predicted', 'mask'):
                info['prediction'][part].update(
                    copy.deepcopy(i['prediction'][part]))
        keys = list(info['prediction']['true'])
        true = sum((info['prediction']['true'][q] for q in keys), [])
        pred = sum((info['prediction']['predicted'][q] for q in keys), [])
    keep = g.flip()
    g.note(info=info, keepdata=keep)
    out = Out()
    s.do_task(Namespace(infile=fp(info, 'in'), outfile=out, keepdata=keep,
                        rseed=None))
    r = json.loads(out.text)
    t, p = np.array(true), np.array(pred)
    st = r['statistics']
    n = len(true)
    g.chk(st['n_samples'] == n, 'number of samples', got=st['n_samples'])
    for key, v in (('true', t), ('predicted', p)):
        g.close(st[key]['mean'], np.mean(v), key + ' mean')
        g.close(st[key]['stdev'], np.std(v), key + ' stdev')
    if task == 'score_predictor':
        d = np.abs(t - p)
        g.close(st['mean absolute error']['mean'], np.mean(d), 'MAE')
        g.close(st['mean absolute error']['stdev'], np.std(d), 'MAE stdev')
        g.close(st['mean squared error']['mean'], np.mean(d ** 2), 'MSE')
        g.close(st['mean squared error']['rmse'], np.mean(d ** 2) ** .5,
                'RMSE')
        g.chk(sum(st['true']['histogram']) == n, 'histogram')
        lo, hi, step = info['condition']['score_domain']
        g.chk(st['true']['histogram'] == [
            int(np.sum(t == lo + v * step))
            for v in range(int(round((hi - lo) / step)) + 1)], 'histogram',
            got=st['true']['histogram'])
    else:
        from .c16 import auc
        key = 'area under the curve'
        g.chk((key in st) == (len(set(true)) == 2), 'AUC exactly when both '
              'classes occur')
        if key in st:
            g.close(st[key], auc(true, pred), 'AUC')
    g.chk(('prediction' in r) == keep, 'predictions are kept on request')
    if keep:
        g.chk(r['prediction'] == info['prediction'], 'kept predictions')
    for part in ('training', 'test', 'model', 'condition', 'environment'):
        g.chk(r[part] == info[part], part + ' is unchanged')


def case_pipeline(g):
    """merged folds, then statistics"""
    s = script('stats_recsys')
    order, feat, task, infos = gen_folds(g)
    r = merge(g, infos)
    true = sum((i['prediction']['true'][str(f)]
                for f, i in zip(order, infos)), [])
    pred = sum((i['prediction']['predicted'][str(f)]
                for f, i in zip(order, infos)), [])
    g.note(order=order, infos=infos)
    out = Out()
    s.do_task(Namespace(infile=fp(r, 'in'), outfile=out, keepdata=False,
                        rseed=None))
    st = json.loads(out.text)['statistics']
    g.chk(st['n_samples'] == len(true), 'number of samples')
    if task == 'score_predictor':
        g.close(st['mean squared error']['mean'],
                np.mean((np.array(true) - np.array(pred)) ** 2), 'MSE')
    elif len(set(true)) == 2:
        from .c16 import auc
        g.close(st['area under the curve'], auc(true, pred), 'AUC')


def case_type(g):
    s = script('stats_recsys')
    i = fold_info(g, 0, False, 'score_predictor', 1)
    i['model']['task_type'] = g.choice(['x', 'finder', ''])
    g.note(task=i['model']['task_type'])
    g.raises(TypeError, lambda: s.do_task(Namespace(
        infile=fp(i, 'in'), outfile=Out(), keepdata=False, rseed=None)),
        'unsupported type of models')


FAMILIES = [(case_merge, 3), (case_stats, 3), (case_pipeline, 2),
            (case_type, 1)]
