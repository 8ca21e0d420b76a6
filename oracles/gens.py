"""input generators shared by the properties"""
import copy
import inspect
import sys
import numpy as np


class Cfg(object):
    pass


def gen_types(g, need_two=False, max_s=4):
    """number of object types and types of columns"""
    c = Cfg()
    c.n_otypes = g.int(1, 3)
    if need_two:
        s = g.int(2, max_s)
    else:
        s = g.int(1, max_s)
    if g.flip(0.35):
        c.n_otypes = max(c.n_otypes, 2)
        c.event_otypes = None
        c.types = list(range(c.n_otypes))
    else:
        c.event_otypes = [g.int(0, c.n_otypes - 1) for _ in range(s)]
        c.types = list(c.event_otypes)
        form = g.int(0, 2)
        if form == 1:
            c.event_otypes = tuple(c.event_otypes)
        elif form == 2:
            c.event_otypes = np.array(c.event_otypes)
    c.s = len(c.types)
    return c


def gen_events(g, c, ids='any', min_n=1, max_n=None):
    max_n = max_n or (3, 8, 14)[g.size - 1]
    n = g.int(min_n, max(min_n, max_n))
    kind = g.int(0, 2) if ids == 'any' else ids
    pool_n = g.int(1, (2, 4, 8)[g.size - 1])
    cols = []
    pools = {}
    for t in c.types:
        if t not in pools:
            m = pool_n + g.int(0, 2)
            if kind == 2:
                pools[t] = np.array(
                    ['%s%d' % ('abcXYz'[g.int(0, 5)], g.int(0, 120))
                     for _ in range(m)], dtype='U6')
            elif kind == 1:
                pools[t] = np.array([g.int(-40, 40) for _ in range(m)])
            else:
                pools[t] = np.array([g.int(0, 2 + 3 * m) for _ in range(m)])
        cols.append(pools[t][[g.int(0, len(pools[t]) - 1)
                              for _ in range(n)]])
    return np.array(cols).T.copy()


def unknown_ids(g, ev, k=6):
    """ids not occurring in ev (some of them between the known ones)"""
    known = set(ev.ravel().tolist())
    out = []
    tries = 0
    while len(out) < k and tries < 400:
        tries += 1
        if ev.dtype.kind == 'U':
            x = '%s%d' % ('abcXYz'[g.int(0, 5)], g.int(0, 400))
        else:
            lo, hi = int(ev.min()), int(ev.max())
            x = g.int(lo - 5, hi + 5) if tries % 2 else g.int(-10, 40)
        if x not in known:
            out.append(x)
    return out


def gen_domain(g):
    """admissible score domain: (lo, hi, stride), n_levels, levels"""
    stride = g.choice([1, 1, 2, 0.5, 0.1, 0.25, 0.3, 0.2, 0.7, 1. / 3, 10,
                       0.05])
    lo = g.choice([0, 1, -2, 0.5, -1.5, 3, 0.1])
    n = g.int(2, 12)
    if g.flip(0.1):
        n = g.int(20, 60)
    if isinstance(stride, int) and isinstance(lo, int):
        hi = lo + stride * (n - 1)
    else:
        # 10-digit rounding as a person would write the maximum
        hi = float(lo + stride * (n - 1))
        if g.flip(0.7) and stride != 1. / 3:
            hi = round(hi, 6)
    dom = (lo, hi, stride)
    f = g.int(0, 3)
    if f == 1:
        dom = list(dom)
    elif f == 2:
        dom = np.array(dom)
    elif f == 3:
        dom = tuple(float(d) for d in dom)
    return dom, n, np.linspace(float(lo), float(hi), n)


def gen_feature(g, n):
    k = g.int(0, 3)
    if k == 0:
        return g.rng.randn(n)
    if k == 1:
        return g.rng.randint(0, 50, size=(n, g.int(1, 3)))
    if k == 2:
        a = np.zeros(n, dtype=[('a', int), ('b', float)])
        a['a'] = g.rng.randint(0, 99, n)
        a['b'] = g.rng.rand(n)
        return a
    return np.array(['f%d' % g.int(0, 999) for _ in range(n)], dtype='U8')


def snapshot(x):
    return copy.deepcopy(x)


def equal_deep(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(equal_deep(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes() if a.dtype.kind != 'U' else \
            bool(np.all(a == b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a.keys()) == list(b.keys()) and \
            all(equal_deep(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(
            equal_deep(x, y) for x, y in zip(a, b))
    if hasattr(a, '__dict__') and type(a) == type(b) and \
            not isinstance(a, type):
        return equal_deep(vars(a), vars(b))
    if a is b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def attrs(o, names):
    return {n: snapshot(getattr(o, n, None)) for n in names}


DATA_ATTRS = ['n_otypes', 'n_objects', 'eid', 'iid', 'feature', 's_event',
              'event_otypes', 'n_events', 'event', 'event_feature',
              'score_domain', 'score', 'n_score_levels']


# ---------------------------------------------------------------------------
# optimizer stand-in
# ---------------------------------------------------------------------------

class FakeOptimizer(object):
    """stands in for scipy.optimize.minimize while a model is fitted; the
    callback sees the objective and its gradient as the model passes them"""

    def __init__(self, callback):
        self.callback = callback
        self.calls = 0

    def __enter__(self):
        import scipy.optimize
        self.real = scipy.optimize.minimize
        sig = inspect.signature(self.real)
        me = self

        def fake(*a, **k):
            me.calls += 1
            b = sig.bind(*a, **k).arguments
            args = b.get('args', ())
            if not isinstance(args, tuple):
                args = (args,)
            fun, jac = b['fun'], b.get('jac')
            if jac is True:
                f = lambda x: fun(x, *args)[0]
                df = lambda x: fun(x, *args)[1]
            else:
                f = lambda x: fun(x, *args)
                df = (lambda x: jac(x, *args)) if callable(jac) else None
            r = me.callback(f, df, np.array(b['x0'], dtype=float), b)
            if r is None:
                return me.real(*a, **k)
            return r
        self.saved = []
        scipy.optimize.minimize = fake
        for m in list(sys.modules.values()):
            if m is None or not getattr(m, '__name__', '').startswith(
                    'kamrecsys'):
                continue
            if getattr(m, 'minimize', None) is self.real:
                self.saved.append(m)
                m.minimize = fake
        return self

    def __exit__(self, *a):
        import scipy.optimize
        scipy.optimize.minimize = self.real
        for m in self.saved:
            m.minimize = self.real


def result(x, fun, **kw):
    from scipy.optimize import OptimizeResult
    d = dict(x=x, fun=fun, success=True, status=0, message='stand-in',
             nit=3, nfev=5, njev=4)
    d.update(kw)
    return OptimizeResult(**d)


# ---------------------------------------------------------------------------
# data sets for recommenders
# ---------------------------------------------------------------------------

def gen_rec_data(g, binary=False, two_cols=False, min_n=1, dense=False,
                 domain=None):
    """EventWithScoreData with integer ids; returns data, events, scores,
    cfg and event_index"""
    from kamrecsys.data import EventWithScoreData
    c = Cfg()
    if two_cols or g.flip(0.4):
        c.n_otypes, c.event_otypes, c.types = 2, None, [0, 1]
        index = (0, 1)
    else:
        c.n_otypes = g.int(1, 3)
        c.types = [g.int(0, c.n_otypes - 1) for _ in range(g.int(2, 4))]
        c.event_otypes = np.array(c.types)
        a = g.int(0, len(c.types) - 1)
        b = g.choice([i for i in range(len(c.types)) if i != a])
        index = (a, b)
        if g.flip(0.3):
            index = (0, 1)
    c.s = len(c.types)
    c.index = index
    if g.flip(0.5):
        c.index_arg = index
    elif g.flip():
        c.index_arg = list(index)
    else:
        c.index_arg = np.array(index)
    # the first two columns are the default
    c.fit_kw = {} if index == (0, 1) and g.flip(0.3) else {
        'event_index': c.index_arg}
    while True:
        ev = gen_events(g, c, ids=g.int(0, 1), min_n=max(min_n, 2 if binary
                                                        else 1))
        break
    n = len(ev)
    if binary:
        sc = g.rng.randint(0, 2, size=n)
        sc[0], sc[1] = 0, 1
        if g.flip():
            sc = sc.astype(float)
        dom = g.choice([(0, 1, 1), [0, 1, 1], np.array([0, 1, 1]),
                        (0., 1., 1.)])
    else:
        if domain is None:
            dom, m, levels = gen_domain(g)
        else:
            dom, m, levels = domain
        sc = levels[g.rng.randint(0, m, size=n)]
    d = EventWithScoreData(n_otypes=c.n_otypes, event_otypes=c.event_otypes)
    d.set_event(ev.copy(), sc.copy(), score_domain=dom)
    g.note(n_otypes=c.n_otypes, event_otypes=c.types, events=ev.tolist(),
           scores=sc.tolist(), score_domain=list(dom), event_index=index)
    return d, ev, sc, c


def ref_ids(ev, types, otype):
    """sorted external ids of a type (reference)"""
    vals = set()
    for j, t in enumerate(types):
        if t == otype:
            vals.update(ev[:, j].tolist())
    return sorted(vals)
