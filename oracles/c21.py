import collections
import json
import numpy as np
import scipy.sparse as sps
from .gens import *


class Odd(object):
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return '<odd %s>' % self.s

    def __str__(self):
        return 'odd-%s' % self.s


def leaf(g):
    """(value, expected)"""
    k = g.int(0, 15)
    n = g.int(-5, 300)
    f = g.choice([0.1, -2.5, 1e-300, 3., 1e17, 1. / 3])
    if k == 0:
        return n, n
    if k == 1:
        return f, f
    if k == 2:
        b = g.flip()
        return b, b
    if k == 3:
        s = 's%d' % n
        return s, s
    if k == 4:
        t = g.choice([np.int64, np.int32, np.int16])
        return t(n), n
    if k == 5:
        u = g.choice([np.uint8, np.uint64])
        return u(abs(n) % 200), abs(n) % 200
    if k == 6:
        return np.float64(f), f
    if k == 7:
        h = g.choice([0.5, -2., 3.25])
        return g.choice([np.float32, np.float16])(h), h
    if k == 8:
        a = g.rng.randint(-9, 9, size=g.choice([(3,), (2, 2), (0,), (1, 2, 2),
                                                ()]))
        return a, a.tolist()
    if k == 9:
        a = g.rng.randn(*g.choice([(3,), (2, 2), (1,)]))
        return a, a.tolist()
    if k == 10:
        a = g.rng.randint(0, 3, size=(2, 3))
        c = g.choice([sps.csr_matrix, sps.csc_matrix, sps.coo_matrix,
                      sps.lil_matrix, sps.dok_matrix])
        return c(a), a.tolist()
    if k == 11:
        a = np.array([g.flip() for _ in range(3)])
        return a, a.tolist()
    if k == 12:
        a = np.array(['a%d' % g.int(0, 99) for _ in range(2)])
        return a, a.tolist()
    if k == 13:
        o = Odd(n)
        return o, str(o)
    if k == 14:
        import datetime
        d = datetime.timedelta(seconds=n)
        return d, str(d)
    a = np.empty(2, dtype=object)
    a[0] = n
    a[1] = Odd(n)
    return a, [n, str(a[1])]


def gen(g, depth):
    k = g.int(0, 4)
    if depth <= 0 or k <= 1:
        return leaf(g)
    n = g.int(0, 4)
    if k == 2 or k == 3:
        c = dict if g.flip(0.7) else collections.OrderedDict
        v, e = c(), {}
        for _ in range(n):
            key = 'k%d' % g.int(0, 50)
            v[key], e[key] = gen(g, depth - 1)
        return v, e
    v, e = [], []
    for _ in range(n):
        a, b = gen(g, depth - 1)
        v.append(a)
        e.append(b)
    return v, e


def eq(a, b):
    if type(b) is dict:
        return isinstance(a, dict) and list(a) == list(b) and all(
            eq(a[k], b[k]) for k in b)
    if type(b) is list:
        return isinstance(a, list) and len(a) == len(b) and all(
            eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def containers(x, acc):
    if sps.issparse(x):
        pass
    elif isinstance(x, dict):
        acc.append(x)
        for v in x.values():
            containers(v, acc)
    elif isinstance(x, list):
        acc.append(x)
        for v in x:
            containers(v, acc)
    return acc


def case_tree(g):
    from kamrecsys.utils import json_decodable
    while True:
        v, e = gen(g, 3)
        if isinstance(v, (dict, list)) and not sps.issparse(v):
            break
    g.note(value=v)
    before = containers(v, [])
    json_decodable(v)
    ids = set(id(c) for c in containers(v, []))
    g.chk(all(id(c) in ids for c in before),
          'containers are converted in place')
    g.note(got=v, expected=e)
    g.chk(eq(v, e), 'converted structure')
    s = json.dumps(v)
    g.chk(eq(json.loads(s), e) or 'nan' in s.lower(), 'JSON round trip')
    json_decodable(v)
    g.chk(eq(v, e), 'converting twice')


FAMILIES = [(case_tree, 1)]
