"""C21 Making results JSON-ready preserves every number and the structure

Structural induction: a container (dictionary or list) with any number of
entries, one arbitrary entry of which is described; nested containers are
handled by the contract of the recursive call."""
import collections
import numpy as np
import scipy.sparse as sps
from .common import *
from engine.interp import CONTRACTS, Partial, fn_key
from engine.ops import It
from kamrecsys.utils import json_decodable


class Container(Opaque):
    """dictionary or list; state: its described entry, and whether all its
    entries have been converted (by the contract of json_decodable)"""

    def __init__(self, cls, name, entry=None):
        self.state = PDict({'entry': entry, 'converted': False})
        n, i = var('n.' + name, 'I'), var('i.' + name, 'I')
        self.n, self.i = n, i
        self.key = i if issubclass(cls, list) else Opaque(
            'key', {'__class__': str})
        a = {'__class__': cls, '__len__': n}
        P = lambda f: Partial(lambda args, kw: f(*args, **kw))

        def at(j):
            if j is not i:
                raise Unsupported('an entry other than the described one')

        def it(f):
            def g(j):
                at(j)
                return f()
            return n, g
        if entry is not None:
            ctx().generic[n] = i
            key = lambda: self.key
            val = lambda: self.state.items['entry']
            a['__iter__'] = it(val if issubclass(cls, list) else key)
            if not issubclass(cls, list):
                a['items'] = P(lambda: It(*it(lambda: (key(), val()))))
                a['keys'] = P(lambda: It(*it(key)))
                a['values'] = P(lambda: It(*it(val)))

            def get(k):
                if k is not self.key:
                    raise Unsupported('other entry')
                return val()

            def put(k, v):
                if k is not self.key:
                    raise Unsupported('write to another entry')
                self.state.items = dict(self.state.items, entry=v)
            a['__getitem__'], a['__setitem__'] = get, put
        Opaque.__init__(self, name, a)

    @property
    def converted(self):
        return self.state.items['converted']


def by_contract(args, kw):
    """the contract of json_decodable: converts the entries of a dictionary
    or list in place, leaves anything else alone"""
    x, = args
    if isinstance(x, Container):
        x.state.items = dict(x.state.items, converted=True)
    elif isinstance(x, Opaque) and '__class__' in x.attrs:
        pass
    else:
        raise Unsupported('argument of the recursive call')


CONTRACTS[fn_key(json_decodable)] = by_contract


def py(cls, name):
    o = Opaque(name, {'__class__': cls})
    if cls is str:
        o.attrs['__str__'] = o
    else:
        o.attrs['__str__'] = Opaque('str of ' + name, {'__class__': str})
    if cls in (int, bool):
        o.attrs['__int__'] = o if cls is int else Opaque(
            'int of a boolean', {'__class__': int})
    if cls is float:
        o.attrs['__float__'] = o
    o.attrs['__len__'] = var('len.' + name, 'I')
    return o


def val(cls, conv=None):
    """a value of this class; conv: attribute giving the Python number"""
    o = py(cls, cls.__name__)
    if conv:
        for c in (int, float):
            n = Opaque('%s of %s' % (c.__name__, cls.__name__),
                       {'__class__': c})
            o.attrs['__%s__' % c.__name__] = n
            n.attrs['__%s__' % c.__name__] = n
        o.attrs['item'] = Partial(lambda a, k: o.attrs['__%s__' % conv])
        o.attrs['tolist'] = o.attrs['item']
    return o


def h_ndim():
    d = var('ndim', 'I')
    ctx().facts.append(le(ONE, d))
    return d


def array(dims):
    """an array; its tolist() is a list for at least one dimension and a
    Python number otherwise"""
    o = py(np.ndarray, 'array')
    r = Container(list, 'list of the elements') if dims else py(
        float, 'element')
    o.attrs['tolist'] = Partial(lambda a, k: r)
    o.attrs['item'] = Partial(lambda a, k: py(float, 'single element'))
    o.attrs['size'] = var('size', 'I') if dims else 1
    o.attrs['ndim'] = h_ndim() if dims else 0
    o.result = r
    return o


def sparse(cls):
    o = py(cls, 'sparse matrix')
    a = array(True)
    o.attrs['__sparse__'] = True
    for n in ('toarray',):
        o.attrs[n] = Partial(lambda args, k: a)
    o.result = a.result
    return o


def case(h, cls, make, expected):
    v = make()
    x = Container(cls, 'container', v)
    h.C.assumed.add('finite nesting: structural induction over the depth '
                    'of the value')
    h.call(json_decodable, x)
    r = x.state.items['entry']
    w = expected(v)
    while isinstance(r, VIte):
        a, b = r.a, r.b
        if a is w or b is w:
            h.ensure('value of the entry is %r (got %r)' % (
                w, b if a is w else a), r.c if a is w else not_(r.c))
            r = w
        else:
            r = a
    h.ensure('value of the entry is %r (got %r)' % (w, r),
             TRUE if r is w else FALSE)
    if isinstance(r, Container):
        h.ensure('the entries of a nested container are converted',
                 TRUE if r.converted else FALSE)
    ok = (dict, list, bool, int, float, str)
    h.ensure('type can be serialized', TRUE if isinstance(r, Opaque) and
             issubclass(r.attrs['__class__'], ok) and not issubclass(
                 r.attrs['__class__'], np.generic) else FALSE)


CASES = []
for _c in (dict, collections.OrderedDict, list):
    CASES.append(('nested ' + _c.__name__, lambda c=_c: Container(
        c, 'nested'), lambda v: v))
for _c in (bool, int, float, str):
    CASES.append((_c.__name__, lambda c=_c: py(c, c.__name__), lambda v: v))
for _c in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16,
           np.uint32, np.uint64):
    CASES.append((_c.__name__, lambda c=_c: val(c, 'int'),
                  lambda v: v.attrs['__int__']))
for _c in (np.float16, np.float32, np.float64):
    CASES.append((_c.__name__, lambda c=_c: val(c, 'float'),
                  lambda v: v.attrs['__float__']))
CASES.append(('array', lambda: array(True), lambda v: v.result))
CASES.append(('array without dimensions', lambda: array(False),
              lambda v: v.result))
for _c in (sps.csr_matrix, sps.csc_matrix, sps.coo_matrix, sps.lil_matrix,
           sps.dok_matrix):
    CASES.append((_c.__name__, lambda c=_c: sparse(c), lambda v: v.result))
for _c in (object, type, tuple, type(None), np.bool_, set,
           type(json_decodable)):
    CASES.append((_c.__name__, lambda c=_c: py(c, c.__name__),
                  lambda v: v.attrs['__str__']))
for _k in (dict, collections.OrderedDict, list):
    for _n, _m, _e in CASES:
        contract('%s with an entry of type %s' % (_k.__name__, _n))(
            lambda h, k=_k, m=_m, e=_e: case(h, k, m, e))


@contract('other values are left alone')
def other(h):
    for c in (int, float, str, type(None)):
        h.ensure('no result', TRUE if h.call(
            json_decodable, py(c, c.__name__)) is None else FALSE)
