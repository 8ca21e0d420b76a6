import io
import os
import tempfile
import numpy as np
from .gens import *

FEATS = [None,
         [('timestamp', int)],
         [('w', float), ('n', int)],
         [('name', 'U9')],
         [('a', int), ('name', 'U5'), ('b', float)]]


def make(g, scored, types_two=False, string=False, domain=None):
    c = Cfg()
    if types_two or g.flip(0.4):
        c.n_otypes, c.event_otypes, c.types = 2, None, [0, 1]
        if g.flip(0.3) and not types_two:
            c.n_otypes = g.int(1, 3)
            c.types = list(range(c.n_otypes))
    else:
        c.n_otypes = g.int(1, 3)
        c.types = [g.int(0, c.n_otypes - 1) for _ in range(g.int(1, 4))]
        c.event_otypes = g.choice([tuple(c.types), list(c.types),
                                   np.array(c.types)])
    n = g.int(1, (2, 6, 12)[g.size - 1])
    if string:
        c.ev = np.array([['%s %d' % ('AbZ'[g.int(0, 2)], g.int(0, 9))
                          for _ in c.types] for _ in range(n)])
    else:
        lo = g.choice([0, 1, -9])
        c.ev = g.rng.randint(lo, 40, size=(n, len(c.types)))
    c.fdt = None if string else g.choice(FEATS)
    c.n = n
    c.sc = None
    if scored:
        c.sc = g.choice([g.rng.randint(1, 6, n).astype(float),
                         g.rng.randint(2, 11, n) / 2.])
    rows = []
    c.feat = []
    for i in range(n):
        r = [str(v) for v in c.ev[i]]
        if scored:
            v = c.sc[i]
            r.append(repr(v) if g.flip() or v != int(v) else str(int(v)))
        if c.fdt is not None:
            f = []
            for nm, t in c.fdt:
                v = {int: lambda: g.int(-5, 10 ** 9),
                     float: lambda: g.int(-40, 40) / 8.}.get(
                         t, lambda: 'n%d' % g.int(0, 999))()
                f.append(v)
                r.append(repr(v) if t is float else str(v))
            c.feat.append(tuple(f))
        rows.append('\t'.join(r))
    c.text = '\n'.join(rows) + ('\n' if g.flip(0.8) else '')
    return c


def load(g, f, c, **kw):
    k = g.int(0, 1)
    path = None
    try:
        if k == 0:
            fd, path = tempfile.mkstemp(suffix='.event')
            with os.fdopen(fd, 'w') as fp:
                fp.write(c.text)
            if g.flip():
                return f(path, **kw)
            with open(path) as fp:
                return f(fp, **kw)
        return f(io.StringIO(c.text), **kw)
    finally:
        if path is not None and path.startswith(tempfile.gettempdir()):
            os.unlink(path)


def verify(g, d, c, domain):
    g.chk(d.n_events == c.n, 'number of events', got=d.n_events)
    g.same(d.to_eid_event(d.event), c.ev, 'events in external ids')
    g.chk(d.n_otypes == c.n_otypes, 'number of object types')
    g.same(np.asarray(d.event_otypes), c.types, 'types of the columns')
    for t in range(c.n_otypes):
        ids = ref_ids(c.ev, c.types, t)
        g.chk(int(d.n_objects[t]) == len(ids), 'number of objects')
        if ids:
            g.same(np.asarray(d.eid[t]), ids, 'external ids')
    if c.sc is not None:
        g.same(np.asarray(d.score, dtype=float), c.sc, 'scores')
        if domain is not None:
            g.close(np.asarray(d.score_domain, dtype=float), domain,
                    'score domain')
            r = (domain[1] - domain[0]) / float(domain[2])
            if abs(r - round(r)) < 1e-9:
                g.chk(d.n_score_levels == int(round(r)) + 1, 'score levels')
    if c.fdt is None:
        g.chk(d.event_feature is None, 'event features', got=d.event_feature)
    else:
        g.chk(len(d.event_feature) == c.n, 'number of event features')
        g.chk(d.event_feature.dtype.names == tuple(x for x, _ in c.fdt),
              'names of event features')
        for i in range(c.n):
            g.chk(tuple(d.event_feature[i].tolist()) == c.feat[i],
                  'event feature', got=d.event_feature[i],
                  expected=c.feat[i])


def base_kw(g, c):
    kw = {}
    if c.fdt is not None:
        kw['event_dtype'] = np.dtype(c.fdt)
    if c.n_otypes != 2 or g.flip(0.3):
        kw['n_otypes'] = c.n_otypes
    if c.event_otypes is not None:
        kw['event_otypes'] = c.event_otypes
    return kw


def case_event(g):
    from kamrecsys.datasets import load_event
    c = make(g, False)
    g.note(text=c.text, types=c.types, feat=c.fdt)
    d = load(g, load_event, c, **base_kw(g, c))
    verify(g, d, c, None)


def case_score(g):
    from kamrecsys.datasets import load_event_with_score
    c = make(g, True)
    kw = base_kw(g, c)
    dom = (1, 5, 1)
    k = g.int(0, 2)
    if k == 1:
        dom = g.choice([(0.5, 5, 0.5), (0, 5, 1), [1, 5, 0.5],
                        np.array([1., 10., 1.])])
        kw['score_domain'] = dom
    elif k == 2 and len(set(c.sc.tolist())) > 1:
        kw['score_domain'] = None
        u = sorted(set(c.sc.tolist()))
        dom = (u[0], u[-1], min(b - a for a, b in zip(u[:-1], u[1:])))
    g.note(text=c.text, types=c.types, feat=c.fdt, domain=dom)
    d = load(g, load_event_with_score, c, **kw)
    verify(g, d, c, dom)


def case_flixster(g):
    from kamrecsys.datasets import load_flixster_rating
    c = make(g, True, types_two=True)
    kw = {} if c.fdt is None else {'event_dtype': np.dtype(c.fdt)}
    g.note(text=c.text, feat=c.fdt)
    d = load(g, load_flixster_rating, c, **kw)
    verify(g, d, c, (0.5, 5., 0.5))


def case_pci(g):
    from kamrecsys.datasets import load_pci_sample
    c = make(g, True, types_two=True, string=True)
    if c.n == 1:
        return
    g.note(text=c.text)
    d = load(g, load_pci_sample, c)
    verify(g, d, c, (1., 5., 0.5))


TEXT = ['Toy Story (1995)', 'Les Mis\u00e9rables', 'B', "It's", '\u9bdb', '0']
LAYOUT = {
    'movielens100k': [[('age', int), ('gender', int), ('occupation', int),
                       ('zip', 'U5')],
                      [('name', 'U81'), ('day', int), ('month', int),
                       ('year', int), ('genre', 'i1', 18),
                       ('imdb', 'U134')]],
    'movielens1m': [[('gender', int), ('age', int), ('occupation', int),
                     ('zip', 'U5')],
                    [('name', 'U82'), ('year', int), ('genre', 'i1', 18)]],
    'sushi3': [[(k, int) for k in (
        'original_uid gender age answer_time child_prefecture child_region '
        'child_ew current_prefecture current_region current_ew '
        'moved').split()],
        [('name', 'U20'), ('maki', int), ('seafood', int), ('genre', int),
         ('heaviness', float), ('frequency', float), ('price', float),
         ('supply', float)]]}


def case_named(g):
    """the loaders of named data sets, on generated files of their layout"""
    import shutil
    from kamrecsys import datasets
    from kamrecsys.datasets import movielens, sushi3
    stem = g.choice(sorted(LAYOUT))
    mod = sushi3 if stem == 'sushi3' else movielens
    name = {'sushi3': 'sushi3b_score'}.get(stem, stem)
    lo, hi = (0, 4) if stem == 'sushi3' else (1, 5)
    n = g.int(1, 12)
    ev = g.rng.randint(1, 12, size=(n, 2))
    sc = g.rng.randint(lo, hi + 1, n).astype(float)
    stamp = g.rng.randint(0, 10 ** 9, n) if stem != 'sushi3' else None
    rows = ['\t'.join([str(v) for v in ev[i]] + ['%d' % sc[i]] + (
        [str(stamp[i])] if stamp is not None else [])) for i in range(n)]
    tabs = []
    for t in range(2):
        ids = list(range(1, 12 + g.int(0, 3)))
        g.rng.shuffle(ids)
        tab = {}
        for k in ids:
            f = []
            for c in LAYOUT[stem][t]:
                if len(c) == 3:
                    f.append([g.int(0, 1) for _ in range(c[2])])
                elif c[1] is int:
                    f.append(g.int(0, 99))
                elif c[1] is float:
                    f.append(g.int(0, 40) / 8.)
                else:
                    f.append(g.choice(TEXT)[:int(c[1][1:])]
                             if c[0] == 'name' else 'x%d' % g.int(0, 999))
            tab[k] = f
        tabs.append(tab)
    g.note(loader=name, events=rows, tables=tabs)
    d = tempfile.mkdtemp()
    old = mod.SAMPLE_PATH
    try:
        def write(fn, lines):
            with io.open(os.path.join(d, fn), 'w', encoding='utf-8') as fp:
                fp.write(u'\n'.join(lines) + u'\n')
        write(name + '.event', rows)
        for t, e in enumerate(('user', 'item')):
            write('%s.%s' % (stem, e), ['\t'.join(
                [str(k)] + ['\t'.join(map(str, v)) if isinstance(v, list)
                            else str(v) for v in f])
                for k, f in tabs[t].items()])
        mod.SAMPLE_PATH = d
        f = getattr(datasets, 'load_' + name)
        x = f() if g.flip() else f(
            infile=os.path.join(d, name + '.event'))
    finally:
        mod.SAMPLE_PATH = old
        shutil.rmtree(d)
    c = Cfg()
    c.ev, c.n, c.types, c.n_otypes, c.sc = ev, n, [0, 1], 2, sc
    c.fdt = None if stamp is None else [('timestamp', int)]
    c.feat = [] if stamp is None else [(int(v),) for v in stamp]
    verify(g, x, c, (lo, hi, 1))
    for t in range(2):
        F = x.feature[t]
        g.chk(F.dtype.names == tuple(c[0] for c in LAYOUT[stem][t]),
              'names of features')
        g.chk(len(F) == x.n_objects[t], 'number of feature rows')
        for i, k in enumerate(x.eid[t]):
            want = tabs[t][int(k)]
            got = [v.tolist() if hasattr(v, 'tolist') else v for v in F[i]]
            g.chk(got == want, 'feature of an object', got=got,
                  expected=want, id=int(k))


FAMILIES = [(case_named, 1), (case_event, 2), (case_score, 3), (case_flixster, 1),
            (case_pci, 1)]
