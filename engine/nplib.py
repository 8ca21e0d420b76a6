"""Contracts of the Python and numpy functions the program uses.

Floats are exact reals; every model here is an assumed contract and is listed
in the evidence of the properties whose proofs use it."""
import builtins
import itertools
import math
import operator
import os
import numpy as np
from .values import *
from . import term as tm
from . import interp
from .ops import *
from .ops import It, msum, mforall, mexists, StructView, StructRow, SL
from .interp import (MODELS, model, Partial, Bound, Slice, SRange, Closure,
                     Gen, ExcVal, Super, call, Frame)
import ast

Add, Sub, Mult, Div = ast.Add(), ast.Sub(), ast.Mult(), ast.Div()


def use(name):
    ctx().trusted.add(name)


def np_model(*names, **kw):
    """register a handler under numpy functions"""
    def deco(h):
        for nm in names:
            o = np
            for p in nm.split('.'):
                o = getattr(o, p, None)
                if o is None:
                    break
            if o is None:
                continue

            def w(args, kwargs, h=h, nm=nm):
                use('numpy.' + nm)
                return h(*args, **kwargs)
            try:
                MODELS[o] = w
            except TypeError:
                pass
        return h
    return deco


def py_model(*fns):
    def deco(h):
        for f in fns:
            MODELS[f] = lambda args, kwargs, h=h: h(*args, **kwargs)
        return h
    return deco


# --------------------------------------------------------------------------
# dtypes
# --------------------------------------------------------------------------

class KDtype(Value):
    def __init__(self, kind):
        self.kind = kind


def dkind(d):
    if d is None:
        return None
    if isinstance(d, KDtype):
        return d.kind
    if d is int or d in ('int', 'i8', 'int64', 'i'):
        return 'i'
    if d is float or d in ('float', 'f8', 'float64', 'd'):
        return 'f'
    if d is bool or d in ('bool', '?'):
        return 'b'
    if d is object or d == 'O' or d == 'object':
        return 'O'
    if isinstance(d, type) and issubclass(d, np.generic):
        if issubclass(d, (np.int64,)):
            return 'i'
        if issubclass(d, np.float64):
            return 'f'
        if issubclass(d, np.bool_):
            return 'b'
    if isinstance(d, np.dtype):
        if d == np.dtype(int):
            return 'i'
        if d == np.dtype(float):
            return 'f'
        if d == np.dtype(bool):
            return 'b'
        if d == np.dtype(object):
            return 'O'
    raise Unsupported('dtype %s' % (d,))


@np_model('dtype')
def m_dtype(d, **kw):
    if isinstance(d, (RecDtype, SymDtype, KDtype)):
        return d
    if isinstance(d, np.dtype) and d.names:
        d = PList([(k, d[k].base, d[k].shape) for k in d.names])
    if isinstance(d, PList):
        fields = []
        for f in d.items:
            if not isinstance(f, tuple) or not isinstance(f[0], str):
                raise Unsupported('dtype')
            sh = f[2] if len(f) > 2 else ()
            sh = [to_term(s) for s in (
                sh if isinstance(sh, tuple) else (sh,))]
            k = f[1]
            if isinstance(k, np.dtype) and k.names:
                k = m_dtype(k)
            if isinstance(k, (RecDtype, Opaque)):
                fields.append((f[0], k, sh))
            else:
                if isinstance(k, np.dtype) and k.kind == 'U':
                    k = k.str[1:]
                if isinstance(k, np.dtype) and k == np.dtype('i1'):
                    k = 'i1'
                if isinstance(k, str) and (
                        k[:1] == 'U' and k[1:].isdigit() or k == 'i1'):
                    fields.append((f[0], k, sh))
                else:
                    fields.append((f[0], dkind(k), sh))
        if all(k == 'f' for _, k, _ in fields):
            return SymDtype(fields)
        return RecDtype(fields)
    return KDtype(dkind(d))


class RecDtype(Value):
    def __init__(self, fields):
        self.fields = fields


def dtype_width(d):
    """number of columns of a text file that a field takes"""
    if isinstance(d, Opaque):
        return app('columns.' + d.name, (), 'I')
    if isinstance(d, (RecDtype, SymDtype)):
        return add(ZERO, *[mul(dtype_width(k), *sh)
                           for _, k, sh in d.fields])
    return ONE


def dtype_name(d):
    if isinstance(d, Opaque):
        return d.name
    if isinstance(d, (RecDtype, SymDtype)):
        for _, _, sh in d.fields:
            if any(cint(x) is None for x in sh):
                raise Unsupported('nested symbolic dtype')
        return '(%s)' % ','.join('%s:%s%s' % (
            n, dtype_name(k), ''.join('*%d' % cint(x) for x in sh))
            for n, k, sh in d.fields)
    return d


@np_model('genfromtxt')
def np_genfromtxt(fname, delimiter=None, dtype=None, converters=None,
                  encoding='bytes', **kw):
    """One record per line of the file, in order; the fields of the type take
    the columns from left to right.  Columns read as integers, strings or
    records are ordered values of which nothing else is known ('E')."""
    noopt(kw)
    use('numpy.genfromtxt')
    if delimiter != '\t':
        raise Unsupported('delimiter of genfromtxt')
    if not isinstance(dtype, (RecDtype, SymDtype)):
        raise Unsupported('dtype of genfromtxt')
    if converters is not None:
        raise Unsupported('converters')
    if encoding not in ('bytes', None, 'utf-8', 'utf8', 'UTF-8'):
        raise Unsupported('encoding of genfromtxt')
    f = 'file.' + (fname.name if isinstance(fname, Opaque) else
                   os.path.basename(fname))
    n = app('lines.' + f, (), 'I')

    def fields(lead):
        out = {}
        off = ZERO
        for name, k, sh in dtype.fields:
            w = dtype_width(k)
            if sh and not isinstance(k, str):
                raise Unsupported('array of records')
            if len(sh) > 1:
                raise Unsupported('matrix in a record')
            cell = 'cell.%s.%s' % (dtype_name(k), f)

            def content(idx, cell=cell, off=off, sh=sh,
                        sort='R' if k == 'f' else 'E'):
                i = idx[0] if lead else ZERO
                c = add(off, idx[-1]) if sh else off
                return app(cell, (to_term(i), c), sort)
            out[name] = Arr.make(([n] if lead else []) + sh, content,
                                 'f' if k == 'f' else 'E')
            off = add(off, mul(w, *sh))
        return out
    full = Arr.make([n], lambda i: app('line.' + f, (i[0],), 'E'), 'E')
    full.tag = {'fields': fields(True)}
    if not ctx().branch(eq(n, ONE)):
        return full
    one = Arr.make([], lambda i: app('line.' + f, (ZERO,), 'E'), 'E')
    one.tag = {'fields': fields(False), 'full': full}
    return one


# --------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------

@py_model(len)
def m_len(v):
    if isinstance(v, PList):
        return len(v.items)
    if isinstance(v, (tuple, str, range, list)):
        return len(v)
    if isinstance(v, (SList, It)):
        return unterm(v.n) if isinstance(v.n, T) else v.n
    if isinstance(v, PDict):
        return len(v.items)
    if isinstance(v, Arr):
        if not v.shape:
            raise PyExc(TypeError, 'len of a scalar')
        return unterm(v.shape[0])
    if isinstance(v, SDict):
        if v.n is None:
            raise Unsupported('size of a dictionary')
        return unterm(v.n)
    if isinstance(v, SRange):
        return unterm(sub(v.hi, v.lo))
    if isinstance(v, VIte):
        if ctx().branch(v.c):
            return m_len(v.a)
        return m_len(v.b)
    if v is None:
        raise PyExc(TypeError, 'len of None')
    if isinstance(v, Opaque) and '__len__' in v.attrs:
        return v.attrs['__len__']
    raise Unsupported('len of %s' % type(v).__name__)


@py_model(range)
def m_range(*args):
    a = [scal(x) for x in args]
    if all(cint(x) is not None for x in a):
        return range(*[cint(x) for x in a])
    if len(a) == 3 and cint(a[2]) != 1:
        raise Unsupported('range with a step')
    for x in a:
        if isinstance(x, T) and x.sort != 'I':
            raise PyExc(TypeError, 'float in range')
    lo = ZERO if len(a) == 1 else to_term(a[0])
    hi = to_term(a[0] if len(a) == 1 else a[1])
    return SRange(lo, hi)


@py_model(enumerate)
def m_enumerate(v, start=0):
    n, f = iter_of(v)
    s = to_term(start)

    def g(i):
        t = num(i) if isinstance(i, int) else i
        return (unterm(add(s, t)), f(i))
    return It(n, g)


@py_model(zip)
def m_zip(*vs):
    its = [iter_of(v) for v in vs]
    if not its:
        return It(0, lambda i: ())
    n = its[0][0]
    for m, _ in its[1:]:
        if m is n or m == n and isinstance(m, int) and isinstance(n, int):
            continue
        if isinstance(m, int) and isinstance(n, int):
            n = min(m, n)
            continue
        if not ctx().valid(eq(to_term(m), to_term(n))):
            raise Unsupported('zip of different lengths')
    return It(n, lambda i: tuple(f(i) for _, f in its))


@py_model(reversed)
def m_reversed(v):
    n, f = iter_of(v)
    if isinstance(n, T):
        return It(n, lambda i: f(sub(sub(n, ONE), i)))
    return It(n, lambda i: f(n - 1 - i))


@py_model(isinstance)
def m_isinstance(v, c):
    if isinstance(c, tuple):
        return any(m_isinstance(v, x) for x in c)
    if isinstance(v, Obj):
        return issubclass(v.cls, c)
    if isinstance(v, Opaque) and '__class__' in v.attrs:
        return issubclass(v.attrs['__class__'], c)
    if isinstance(v, Arr):
        return issubclass(np.ndarray, c)
    if isinstance(v, PList):
        return issubclass(list, c)
    if isinstance(v, PDict):
        return issubclass(v.cls, c)
    if isinstance(v, SDict):
        return issubclass(dict, c)
    if isinstance(v, SList):
        return issubclass(list, c)
    if isinstance(v, T):
        if v.sort == 'I':
            # Python or numpy integer
            return issubclass(int, c) or issubclass(np.int64, c)
        if v.sort == 'R':
            return issubclass(float, c)
        if v.sort == 'B':
            return issubclass(bool, c) or issubclass(np.bool_, c)
        raise Unsupported('type of an id')
    if isinstance(v, Value):
        raise Unsupported('type of %s' % type(v).__name__)
    return isinstance(v, c)


@py_model(issubclass)
def m_issubclass(a, b):
    return issubclass(a, b)


@py_model(hasattr)
def m_hasattr(o, n):
    from .interp import getattribute
    try:
        getattribute(o, n)
        return True
    except PyExc:
        return False


@py_model(getattr)
def m_getattr(o, n, *d):
    from .interp import getattribute
    try:
        return getattribute(o, n)
    except PyExc as e:
        if d and e.cls is AttributeError:
            return d[0]
        raise


@py_model(setattr)
def m_setattr(o, n, v):
    from .interp import setattribute
    setattribute(o, n, v)


@py_model(type)
def m_type(o):
    if isinstance(o, Obj):
        return o.cls
    raise Unsupported('type()')


@py_model(int, np.int64)
def m_int(v=0):
    v = scal(v)
    if isinstance(v, Opaque) and '__int__' in v.attrs:
        return v.attrs['__int__']
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, T):
        if v.sort == 'B':
            return ite(v, ONE, ZERO)
        return unterm(trunc(v))
    raise Unsupported('int()')


@py_model(float, np.float64)
def m_float(v=0.0):
    v = scal(v)
    if isinstance(v, Opaque) and '__float__' in v.attrs:
        return v.attrs['__float__']
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, T):
        return tonum(v)
    raise Unsupported('float()')


@py_model(bool)
def m_bool(v=False):
    return truth(scal(v))


@py_model(str, repr)
def m_str(v=''):
    if isinstance(v, Opaque) and '__str__' in v.attrs:
        return v.attrs['__str__']
    if isinstance(v, str):
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, T) and v.sort == 'I':
        k = cint(v)
        if k is not None:
            return str(k)
        return app('str', (v,), 'U')
    if isinstance(v, T) and v.sort == 'U':
        return v
    return Opaque('string')


@py_model(tuple)
def m_tuple(v=()):
    n, f = iter_of(v)
    if isinstance(n, T):
        raise Unsupported('tuple of symbolic length')
    return tuple(f(k) for k in range(n))


@py_model(list)
def m_list(v=()):
    n, f = iter_of(v)
    if isinstance(n, T):
        return SList(n, f)
    return PList([f(k) for k in range(n)])


@py_model(dict)
def m_dict(v=None, **kw):
    d = {}
    if v is not None:
        if isinstance(v, PDict):
            d.update(v.items)
        elif isinstance(v, dict):
            d.update(v)
        elif isinstance(v, SDict):
            r = SDict(v.dom, v.val, v.n, v.ksort, v.order)
            return r
        else:
            n, f = iter_of(v)
            if isinstance(n, T):
                i = fresh('c', 'I')
                k, x = unpack(f(i), 2)
                return sym_dict(n, i, k, x)
            for j in range(n):
                k, x = unpack(f(j), 2)
                if isinstance(k, T):
                    raise Unsupported('symbolic key')
                d[k] = x
    d.update(kw)
    return PDict(d)


@py_model(sorted)
def m_sorted(v, **kw):
    if kw:
        raise Unsupported('sorted with a key')
    if isinstance(v, SDict):
        return sorted_keys(v)
    n, f = iter_of(v)
    if isinstance(n, T):
        raise Unsupported('sorted of symbolic length')
    xs = [f(k) for k in range(n)]
    if all(isinstance(x, str) for x in xs) or all(concrete(x) for x in xs):
        return PList(sorted(xs))
    raise Unsupported('sorted of symbolic elements')


def sorted_keys(d):
    """the keys of a dictionary in increasing order"""
    if d.n is None:
        raise Unsupported('sorted keys')
    C = ctx()
    k = fresh('k', d.ksort)
    name, params, new = C.symbol('sorted', [([k], d.dom(k))], d.ksort)
    if params:
        raise Unsupported('sorted keys of a dictionary of a family')
    n = d.n
    f = lambda i: app(name, (to_term(i),), d.ksort)
    pos = lambda k: app('pos' + name[6:], (k,), 'I')
    if new:
        i, j = fresh('i', 'I'), fresh('j', 'I')
        less = ltE if d.ksort == 'E' else lt
        inr = lambda i: and_(le(ZERO, i), lt(i, n))
        C.axiom({name}, forall([i], imp(inr(i), and_(
            d.dom(f(i)), eq(pos(f(i)), i))), (f(i),)))
        C.axiom({name}, forall([i, j], imp(and_(
            le(ZERO, i), lt(i, j), lt(j, n)), less(f(i), f(j))),
            (f(i), f(j))))
        C.axiom({name}, forall([k], imp(d.dom(k), and_(
            inr(pos(k)), eq(f(pos(k)), k))), (pos(k),)))
    return SList(n, f)


@py_model(print)
def m_print(*a, **k):
    return None


@py_model(abs)
def m_abs(v):
    v = scal(v)
    if concrete(v):
        return abs(v)
    if is_scalar(v):
        return t_abs(to_term(v))
    return np_abs(v)


def t_abs(t):
    t = tonum(t)
    return ite(le(ZERO, t), t, neg(t))


def _fold(args, f):
    if len(args) == 1:
        n, g = iter_of(args[0])
        if isinstance(n, T):
            return None
        args = [g(k) for k in range(n)]
        if not args:
            raise PyExc(ValueError, 'empty sequence')
    r = args[0]
    for x in args[1:]:
        if concrete(r) and concrete(x):
            r = f[0](r, x)
        else:
            r = f[1](tonum(to_term(r)), tonum(to_term(x)))
    return r


def t_max(a, b):
    return ite(le(b, a), a, b)


def t_min(a, b):
    return ite(le(a, b), a, b)


@py_model(max)
def m_max(*args, **kw):
    if kw:
        raise Unsupported('max with options')
    r = _fold(args, (max, t_max))
    return np_max(args[0]) if r is None else r


@py_model(min)
def m_min(*args, **kw):
    if kw:
        raise Unsupported('min with options')
    r = _fold(args, (min, t_min))
    return np_min(args[0]) if r is None else r


@py_model(sum)
def m_sum(v, start=0):
    n, f = iter_of(v)
    if isinstance(n, T):
        if is_scalar(f(fresh('i', 'I'))):
            return add(msum(n, lambda i: to_term(f(i))), nterm(start))
        # sum of arrays
        return binop(Add, np_sum(arr(v), axis=0), start)
    r = start
    for k in range(n):
        r = binop(Add, r, f(k))
    return r


@py_model(all)
def m_all(v):
    n, f = iter_of(v)
    if isinstance(n, T):
        return mforall([n], lambda vs: to_term(truth(f(vs[0]))))
    return unterm(and_(*[to_term(truth(f(k))) for k in range(n)]))


@py_model(any)
def m_any(v):
    n, f = iter_of(v)
    if isinstance(n, T):
        return mexists([n], lambda vs: to_term(truth(f(vs[0]))))
    return unterm(or_(*[to_term(truth(f(k))) for k in range(n)]))


@py_model(iter)
def m_iter(v):
    if isinstance(v, (Opaque, Iter, KFoldIter)):
        return v
    return Iter(v)


@py_model(next)
def m_next(v, *d):
    if isinstance(v, Iter):
        try:
            return v.next()
        except PyExc as e:
            if e.cls is StopIteration and d:
                return d[0]
            raise
    if isinstance(v, KFoldIter):
        return v.next()
    if isinstance(v, Opaque) and '__next__' in v.attrs:
        return v.attrs['__next__']()
    raise Unsupported('next')


@py_model(callable)
def m_callable(v):
    return not is_scalar(v)


@py_model(round)
def m_round(v, nd=0):
    # nearest integer, ties unspecified
    v = scal(v)
    if concrete(v):
        return round(v)
    return np_rint(v)


@py_model(map)
def m_map(f, *vs):
    z = m_zip(*vs)
    return It(z.n, lambda i: call(f, list(z.fn(i)), {}))


import copy as _copy


@py_model(_copy.copy)
def m_copy(o):
    if isinstance(o, Obj):
        r = Obj(o.cls, o.attrs)
        return r
    if isinstance(o, Arr):
        return o.copy()
    if isinstance(o, PList):
        return PList(o.items)
    if isinstance(o, PDict):
        return PDict(o.items)
    if isinstance(o, SDict):
        return SDict(o.dom, o.val, o.n, o.ksort, o.order)
    return o


# --------------------------------------------------------------------------
# creation
# --------------------------------------------------------------------------

def shape_of(s):
    s = scal(s)
    if isinstance(s, (tuple, PList)):
        items = s.items if isinstance(s, PList) else s
        return [to_term(scal(x)) for x in items]
    if isinstance(s, Arr):
        k = cint(s.shape[0])
        if k is None:
            raise Unsupported('shape of symbolic length')
        return [s.read([num(j)]) for j in range(k)]
    return [to_term(s)]


def check_shape(sh):
    for d in sh:
        if d.sort != 'I':
            raise PyExc(TypeError, 'float in a shape')
        ctx().require(le(ZERO, d), ValueError, 'negative dimensions')


def const_arr(shape, v, kind):
    check_shape(shape)
    if kind == 'O':
        return Arr.make(shape, lambda idx: v, 'O')
    t = coerce(to_term(v), kind)
    return Arr.make(shape, lambda idx: t, kind)


@np_model('zeros')
def np_zeros(shape, dtype=float, **kw):
    r = const_arr(shape_of(shape), 0, dkind(dtype))
    r.tag = {'const': ZERO}
    return r


@np_model('ones')
def np_ones(shape, dtype=float, **kw):
    r = const_arr(shape_of(shape), 1, dkind(dtype))
    r.tag = {'const': ONE}
    return r


@np_model('full')
def np_full(shape, v, dtype=None, **kw):
    if v is None:
        return const_arr(shape_of(shape), None, 'O')
    v = scal(v)
    k = dkind(dtype) or kind_of(to_term(v))
    if isinstance(v, float) and dtype is None:
        k = 'f'
    r = const_arr(shape_of(shape), v, k)
    return r


@np_model('empty')
def np_empty(shape, dtype=float, **kw):
    sh = shape_of(shape)
    check_shape(sh)
    k = dkind(dtype)
    if k == 'O':
        return Arr.make(sh, lambda idx: None, 'O')
    return junk(sh, k)


def junk(sh, k):
    """uninitialised memory"""
    C = ctx()
    lv = tuple(loopvars())
    name = fresh_name('junk')
    return Arr.make(sh, lambda idx: app(name, tuple(idx) + lv, SORT[k]), k)


def loopvars():
    """iteration variables of the enclosing symbolic loops"""
    C = ctx()
    out = []
    for t in C.scope:
        for n in fv(t):
            if n.startswith('it!') or n.startswith('c!'):
                v = var(n, 'I')
                if v not in out:
                    out.append(v)
    return out


@np_model('empty_like')
def np_empty_like(a, dtype=None, **kw):
    a = arr(a)
    return junk(list(a.shape), dkind(dtype) or a.kind)


def like(a, v, dtype):
    a = arr(a)
    if a.struct is not None:
        s = a.struct
        fl = {}
        for n, b in s.fields.items():
            t = tonum(to_term(v))
            fl[n] = Buffer(lambda idx, t=t: t, b.shape, b.kind)
        return Arr(None, [], list(a.shape), a.kind, None,
                   Struct(s.n, s.dt, fl))
    return const_arr(list(a.shape), v, dkind(dtype) or a.kind)


@np_model('zeros_like')
def np_zeros_like(a, dtype=None, **kw):
    return like(a, 0, dtype)


@np_model('ones_like')
def np_ones_like(a, dtype=None, **kw):
    return like(a, 1, dtype)


@np_model('full_like')
def np_full_like(a, v, dtype=None, **kw):
    return like(a, scal(v), dtype)


@np_model('array')
def np_array(v, dtype=None, copy=True, **kw):
    if kw:
        raise Unsupported('np.array options')
    if isinstance(v, Arr) and v.struct is not None:
        return v.copy() if copy else v
    a = arr(v)
    k = dkind(dtype)
    if a.tag and 'fields' in a.tag:
        return rec_copy(a)
    if k is not None and k != a.kind:
        return cast(a, k)
    if isinstance(v, Arr) and not copy:
        return v
    return a.copy()


def rec_copy(a):
    r = Arr(a.buf, a.vmap, list(a.shape), a.kind, a.fin)
    r.tag = {'fields': {n: f.copy() for n, f in a.tag['fields'].items()}}
    if a.kind != 'O':
        r2 = a.copy()
        r2.tag = r.tag
        return r2
    return r


def cast(a, k):
    if a.kind in 'EUO' or k in 'EUO':
        raise Unsupported('cast from %s to %s' % (a.kind, k))
    if a.fin is not None and k != 'f':
        nofin(a)
    f = a.fn()
    return Arr.make(list(a.shape), memo1(lambda idx: coerce(f(idx), k)), k,
                    a.fin)


@np_model('asarray', 'asanyarray', 'ascontiguousarray')
def np_asarray(v, dtype=None, **kw):
    if isinstance(v, Arr):
        k = dkind(dtype)
        if k is None or k == v.kind:
            return v
        return cast(v, k)
    if isinstance(v, Opaque) and '__array__' in v.attrs:
        return v.attrs['__array__']()
    if v is None and dtype is None:
        return Arr.make([], lambda idx: None, 'O')
    return np_array(v, dtype)


@np_model('copy')
def np_copy(v, **kw):
    return arr(v).copy()


@np_model('atleast_1d')
def np_atleast_1d(v):
    a = arr(v)
    if not a.shape:
        if a.tag and 'full' in a.tag:
            return a.tag['full']
        return index_view(a, [None])
    return a


@np_model('atleast_2d')
def np_atleast_2d(v):
    a = arr(v)
    if a.ndim == 0:
        return index_view(a, [None, None])
    if a.ndim == 1:
        return index_view(a, [None])
    return a


@np_model('tile')
def np_tile(v, reps):
    if v is None:
        return const_arr(shape_of(reps), None, 'O')
    if is_scalar(scal(v)):
        v = scal(v)
        k = kind_of(to_term(v))
        return const_arr(shape_of(reps), v, k)
    raise Unsupported('tile of an array')


@np_model('repeat')
def np_repeat(v, n, axis=None):
    v = scal(v)
    n = scal(n)
    if v is None:
        return const_arr([to_term(n)], None, 'O')
    if is_scalar(v):
        return const_arr([to_term(n)], v, kind_of(to_term(v)))
    raise Unsupported('repeat of an array')


def ceil_div(x):
    return ceil(x)


@np_model('arange')
def np_arange(*args, **kw):
    dtype = kw.pop('dtype', None)
    args = [scal(x) for x in args]
    for nm in ('start', 'stop', 'step'):
        pass
    if kw:
        raise Unsupported('arange keywords')
    if len(args) == 4:
        dtype = args.pop()
    a = [tonum(to_term(x)) for x in args]
    lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else \
        (a[0], a[1], ONE) if len(a) == 2 else (a[0], a[1], a[2])
    C = ctx()
    if st is ONE:
        ln = ceil(sub(hi, lo))
    else:
        if isnum(st) and numval(st) > 0 or C.valid(lt(ZERO, st)):
            pass
        else:
            raise Unsupported('arange with a step of unknown sign')
        ln = ceil(div(sub(hi, lo), st))
    isint = all(x.sort == 'I' for x in (lo, hi, st)) and not any(
        isinstance(x, float) for x in args)
    k = dkind(dtype) or ('i' if isint else 'f')
    if k == 'i' and not isint:
        raise Unsupported('integer arange of reals')
    if not C.valid(le(ZERO, ln)):
        ln = ite(le(ZERO, ln), ln, ZERO)
    return Arr.make([ln], lambda idx: add(lo, mul(idx[0], st)), k)


@np_model('linspace')
def np_linspace(a, b, num_=None, **kw):
    n = to_term(scal(kw.pop('num', 50) if num_ is None else num_))
    if kw:
        raise Unsupported('linspace options')
    C = ctx()
    a, b = tonum(to_term(scal(a))), tonum(to_term(scal(b)))
    check_shape([n])
    if C.valid(lt(ONE, n)):
        f = lambda idx: add(a, mul(idx[0], div(sub(b, a), sub(n, ONE))))
    elif isnum(n, 1):
        f = lambda idx: a
    else:
        f = lambda idx: ite(lt(ONE, n), add(a, mul(idx[0], div(
            sub(b, a), sub(n, ONE)))), a)
    return Arr.make([n], f, 'f')


# --------------------------------------------------------------------------
# elementwise functions
# --------------------------------------------------------------------------

def noopt(kw):
    for k in list(kw):
        if kw[k] is None or k == 'out' and kw[k] is None:
            kw.pop(k)
    if kw:
        raise Unsupported('options %s' % sorted(kw))


def ew(f, kind):
    def h(*vs, **kw):
        noopt(kw)
        return elementwise(f, kind, *[scal(v) for v in vs])
    return h


np_abs = np_model('abs', 'absolute', 'fabs')(ew(t_abs, numkind))


@np_model('sqrt')
def np_sqrt(v):
    domain('the argument of a square root is not negative', v,
           lambda t: le(ZERO, t))
    return elementwise(lambda t: app('sqrt', (tonum(t),), 'R'), 'f', scal(v))


@np_model('log')
def np_log(v):
    domain('the argument of a logarithm is positive', v,
           lambda t: lt(ZERO, t))
    return elementwise(lambda t: app('log', (tonum(t),), 'R'), 'f', scal(v))


np_model('exp')(ew(lambda t: app('exp', (tonum(t),), 'R'), 'f'))
np_model('square')(ew(lambda t: powi(tonum(t), 2), numkind))
np_model('negative')(ew(lambda t: neg(tonum(t)), numkind))
np_model('maximum', 'fmax')(ew(lambda a, b: t_max(tonum(a), tonum(b)),
                               numkind))
np_model('minimum', 'fmin')(ew(lambda a, b: t_min(tonum(a), tonum(b)),
                               numkind))
np_model('logical_not')(ew(lambda a: not_(coerce(a, 'b')), 'b'))
np_model('invert', 'bitwise_not')(ew(lambda a: not_(a), 'b'))
np_model('logical_and')(ew(lambda a, b: and_(coerce(a, 'b'),
                                             coerce(b, 'b')), 'b'))
np_model('logical_or')(ew(lambda a, b: or_(coerce(a, 'b'),
                                           coerce(b, 'b')), 'b'))
py_model(math.ceil)(lambda a: unterm(ceil(nterm(a))))
py_model(math.floor)(lambda a: unterm(floor(nterm(a))))
np_model('floor')(ew(lambda a: floor(tonum(a)), 'f'))
np_model('ceil')(ew(lambda a: ceil(tonum(a)), 'f'))


@np_model('rint', 'round', 'around')
def np_rint(v, *a):
    if a and cint(a[0]) != 0:
        raise Unsupported('rounding to decimals')
    # ties go to an unspecified neighbour: half up is used, callers must not
    # depend on it
    raise Unsupported('rounding')


def bin_fn(op):
    def h(a, b, **kw):
        noopt(kw)
        return binop(op, a, b)
    return h


np_model('add')(bin_fn(Add))
np_model('subtract')(bin_fn(Sub))
np_model('multiply')(bin_fn(Mult))
np_model('divide', 'true_divide')(bin_fn(Div))
np_model('power')(bin_fn(ast.Pow()))
np_model('mod', 'remainder')(bin_fn(ast.Mod()))
np_model('floor_divide')(bin_fn(ast.FloorDiv()))


def cmp_fn(op):
    def h(a, b, **kw):
        noopt(kw)
        return compare(op, a, b)
    return h


np_model('less')(cmp_fn(ast.Lt()))
np_model('less_equal')(cmp_fn(ast.LtE()))
np_model('greater')(cmp_fn(ast.Gt()))
np_model('greater_equal')(cmp_fn(ast.GtE()))
np_model('equal')(cmp_fn(ast.Eq()))
np_model('not_equal')(cmp_fn(ast.NotEq()))


@np_model('clip')
def np_clip(x, lo, hi, **kw):
    noopt(kw)

    def f(t, a, b):
        t, a, b = tonum(t), tonum(a), tonum(b)
        m = ite(lt(t, a), a, t)
        return ite(lt(b, m), b, m)
    return elementwise(f, numkind, scal(x), scal(lo), scal(hi))


@np_model('where')
def np_where(c, *ab):
    if not ab:
        return np_nonzero(c)
    a, b = ab
    c = scal(c)

    def f(t, x, y):
        return ite(coerce(t, 'b'), x, y)

    def kind(kc, ka, kb):
        return join_kind(ka, kb)
    vs = [c, scal(a), scal(b)]
    for v in vs:
        if v is None:
            raise Unsupported('None in an array')
    if all(is_scalar(v) for v in vs):
        return f(*[to_term(v) for v in vs])
    return elementwise(f, kind, *vs)


@np_model('isfinite')
def np_isfinite(x, **kw):
    noopt(kw)
    x = scal(x)
    if is_scalar(x):
        t = to_term(x)
        return t.op != 'inf'
    a = arr(x)
    if a.fin is None:
        return Arr.make(list(a.shape), lambda idx: TRUE, 'b')
    fin = a.fin
    return Arr.make(list(a.shape), lambda idx: fin(list(idx)), 'b')


@np_model('isnan', 'isinf')
def np_isnan(x, **kw):
    noopt(kw)
    a = arr(x)
    nofin(a)
    return Arr.make(list(a.shape), lambda idx: FALSE, 'b')


def expit_model(args, kwargs):
    use('scipy.special.expit')
    return elementwise(lambda t: app('expit', (tonum(t),), 'R'), 'f',
                       scal(args[0]))


try:
    from scipy.special import expit as _expit
    MODELS[_expit] = expit_model
except ImportError:
    pass


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------

def norm_axis(axis, nd):
    if axis is None:
        return list(range(nd))
    ax = axis if isinstance(axis, tuple) else (axis,)
    out = []
    for a in ax:
        a = cint(a)
        if a is None:
            raise Unsupported('symbolic axis')
        if not -nd <= a < nd:
            raise PyExc(ValueError, 'axis out of range')
        out.append(a % nd)
    return sorted(out)


def reduce_(a, axis, keepdims, f, kind):
    """f(dims, reader of the reduced index tuple) -> term"""
    a = arr(a)
    ax = norm_axis(axis, a.ndim)
    rd = a.fn()
    keep = [k for k in range(a.ndim) if k not in ax]
    dims = [a.shape[k] for k in ax]

    def at(oidx):
        def g(vs):
            idx = [None] * a.ndim
            for k, v in zip(ax, vs):
                idx[k] = v
            for k, v in zip(keep, oidx):
                idx[k] = v
            return rd(idx)
        return f(dims, g)
    if not keep and not keepdims:
        return at([])
    if keepdims:
        shape = [ONE if k in ax else a.shape[k] for k in range(a.ndim)]
        return Arr.make(shape, memo1(lambda idx: at(
            [idx[k] for k in keep])), kind)
    return Arr.make([a.shape[k] for k in keep],
                    memo1(lambda idx: at(list(idx))), kind)


def sum_dims(dims, g):
    """nested sums"""
    if not dims:
        return tonum(g([]))

    def rec(k, vs):
        if k == len(dims):
            return tonum(g(vs))
        return msum(dims[k], lambda v: rec(k + 1, vs + [v]))
    return rec(0, [])


@np_model('sum', 'nansum')
def np_sum(a, axis=None, keepdims=False, **kw):
    dt = kw.pop('dtype', None)
    noopt(kw)
    if is_scalar(scal(a)):
        return tonum(to_term(scal(a)))
    if isinstance(a, Sparse):
        return a.sum(axis)
    a = arr(a)
    nofin(a)
    if a.kind not in 'bif':
        raise Unsupported('sum of objects')
    return reduce_(a, axis, keepdims, sum_dims,
                   'f' if a.kind == 'f' else 'i')


def count_of(a, axis):
    a = arr(a)
    return mul(ONE, *[a.shape[k] for k in norm_axis(axis, a.ndim)])


@np_model('mean', 'nanmean', 'average')
def np_mean(a, axis=None, keepdims=False, **kw):
    kw.pop('dtype', None)
    noopt(kw)
    if isinstance(a, (PList, SList)) or isinstance(a, Arr) or \
            not is_scalar(a):
        a = arr(a)
    else:
        return tonum(to_term(a))
    n = count_of(a, axis)
    s = np_sum(a, axis, keepdims)
    return binop(Div, s, n)


def np_var_impl(a, axis=None, ddof=0, keepdims=False):
    a = arr(a)
    m = np_mean(a, axis, True if axis is not None else False)
    d = binop(Sub, a, m)
    s = np_sum(binop(Mult, d, d), axis, keepdims)
    n = count_of(a, axis)
    dd = tonum(to_term(ddof))
    return binop(Div, s, sub(n, dd) if not isnum(dd, 0) else n)


@np_model('var', 'nanvar')
def np_var(a, axis=None, ddof=0, keepdims=False, **kw):
    noopt(kw)
    return np_var_impl(a, axis, ddof, keepdims)


@np_model('std', 'nanstd')
def np_std(a, axis=None, ddof=0, keepdims=False, **kw):
    noopt(kw)
    v = np_var_impl(a, axis, ddof, keepdims)
    return elementwise(lambda t: app('sqrt', (tonum(t),), 'R'), 'f', v)


def extremum(kind, a, axis=None, keepdims=False):
    a = arr(a)
    nofin(a)
    C = ctx()

    def f(dims, g):
        for d in dims:
            C.require(lt(ZERO, d), ValueError, 'zero-size array')
        vs = [fresh('i', 'I') for _ in dims]
        C.scope.append(in_range(vs, dims))
        body = tonum(g(vs))
        C.scope.pop()
        name, params, new = C.symbol(kind, [(vs, body)] + [
            ([], d) for d in dims], body.sort)
        m = app(name, tuple(params), body.sort)
        if new:
            rel = le(m, body) if kind == 'amin' else le(body, m)
            C.axiom({name}, forall(list(params) + vs, imp(
                in_range(vs, dims), rel)))
            ws = [app('%s_w%d' % (name, k), tuple(params), 'I')
                  for k in range(len(dims))]
            C.axiom({name}, forall(list(params), imp(
                and_(*[lt(ZERO, d) for d in dims]),
                and_(in_range(ws, dims), eq(subst(body, dict(
                    zip(vs, ws))), m)))))
        return m
    return reduce_(a, axis, keepdims, f, a.kind)


@np_model('min', 'amin', 'nanmin')
def np_min(a, axis=None, keepdims=False, **kw):
    noopt(kw)
    return extremum('amin', a, axis, keepdims)


@np_model('max', 'amax', 'nanmax')
def np_max(a, axis=None, keepdims=False, **kw):
    noopt(kw)
    return extremum('amax', a, axis, keepdims)


def arg_ext(kind, a, axis):
    a = arr(a)
    nofin(a)
    C = ctx()
    if axis is None and a.ndim != 1:
        raise Unsupported('argmax of several dimensions')

    def f(dims, g):
        n = dims[0]
        C.require(lt(ZERO, n), ValueError, 'zero-size array')
        v = fresh('i', 'I')
        C.scope.append(in_range([v], [n]))
        body = tonum(g([v]))
        C.scope.pop()
        name, params, new = C.symbol(kind, [([v], body), ([], n)], 'I')
        m = app(name, tuple(params), 'I')
        if new:
            bm = subst(body, {v: m})
            rel = le(body, bm) if kind == 'argmax' else le(bm, body)
            str_ = lt(body, bm) if kind == 'argmax' else lt(bm, body)
            C.axiom({name}, forall(list(params), imp(
                lt(ZERO, n), and_(le(ZERO, m), lt(m, n))), (m,)))
            C.axiom({name}, forall(list(params) + [v], imp(
                in_range([v], [n]), and_(rel, imp(lt(v, m), str_)))))
        return m
    return reduce_(a, axis if axis is not None else 0, False, f, 'i')


@np_model('argmax')
def np_argmax(a, axis=None, **kw):
    noopt(kw)
    return arg_ext('argmax', a, axis)


@np_model('argmin')
def np_argmin(a, axis=None, **kw):
    noopt(kw)
    return arg_ext('argmin', a, axis)


@np_model('any')
def np_any(a, axis=None, keepdims=False, **kw):
    noopt(kw)
    if is_scalar(scal(a)):
        return truth(scal(a))
    a = arr(a)
    return reduce_(a, axis, keepdims, lambda dims, g: mexists(
        dims, lambda vs: coerce(g(vs), 'b')), 'b')


@np_model('all')
def np_all(a, axis=None, keepdims=False, **kw):
    noopt(kw)
    if is_scalar(scal(a)):
        return truth(scal(a))
    a = arr(a)
    return reduce_(a, axis, keepdims, lambda dims, g: mforall(
        dims, lambda vs: coerce(g(vs), 'b')), 'b')


@np_model('count_nonzero')
def np_count_nonzero(a, axis=None, **kw):
    noopt(kw)
    if isinstance(a, Sparse):
        return a.count_nonzero()
    a = arr(a)
    return reduce_(a, axis, False, lambda dims, g: sum_dims(
        dims, lambda vs: ind(coerce(g(vs), 'b'))), 'i')


@np_model('array_equal')
def np_array_equal(a, b, **kw):
    noopt(kw)
    if a is None or b is None:
        if a is None and b is None:
            return True
        o = b if a is None else a
        return False
    a, b = arr(a), arr(b)
    if a.ndim != b.ndim:
        return False
    c = and_(*[eq(x, y) for x, y in zip(a.shape, b.shape)])
    if c is FALSE:
        return False
    ks = [cint(d) for d in b.shape]
    ks2 = [cint(d) for d in a.shape]
    sh = b.shape if all(k is not None for k in ks) else a.shape
    kk = ks if all(k is not None for k in ks) else ks2
    if all(k is not None for k in kk) and len(kk) <= 1 and (
            not kk or kk[0] <= 8):
        pts = [[num(j)] for j in range(kk[0])] if kk else [[]]
        e = and_(*[t_eq(a.read(p), b.read(p)) for p in pts])
    else:
        e = mforall(sh, lambda vs: t_eq(a.read(vs), b.read(vs)))
    return unterm(and_(c, e))


@np_model('allclose')
def np_allclose(a, b, **kw):
    raise Unsupported('allclose')


@np_model('nonzero')
def np_nonzero(a):
    a = arr(a)
    if a.ndim != 1:
        raise Unsupported('nonzero of several dimensions')
    f = a.fn()
    cnt, sel, rank = selection(a.shape[0], lambda e: coerce(f([e]), 'b'))
    return (Arr.make([cnt], lambda idx: sel(idx[0]), 'i'),)


@np_model('flatnonzero')
def np_flatnonzero(a):
    return np_nonzero(a)[0]


@np_model('argwhere')
def np_argwhere(a):
    r = np_nonzero(a)[0]
    return index_view(r, [SL(), None])


@np_model('compress')
def np_compress(c, a, axis=None, **kw):
    noopt(kw)
    c, a = arr(c), arr(a)
    if axis is None:
        if a.ndim != 1:
            if a.ndim == 0:
                a = index_view(a, [None])
            else:
                raise Unsupported('compress of several dimensions')
        if c.ndim == 0:
            c = index_view(c, [None])
        axis = 0
    keys = [SL()] * a.ndim
    keys[cint(axis)] = c if c.kind == 'b' else binop_nonzero(c)
    return getitem(a, tuple(keys))


def binop_nonzero(c):
    return compare(ast.NotEq(), c, 0)


@np_model('extract')
def np_extract(c, a):
    return np_compress(c, a)


@np_model('take')
def np_take(a, idx, axis=None, **kw):
    noopt(kw)
    a = arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('take of several dimensions')
        axis = 0
    ax = norm_axis(axis, a.ndim)[0]
    keys = [SL()] * a.ndim
    keys[ax] = idx if not is_listlike(idx) else arr(idx)
    return getitem(a, tuple(keys))


@np_model('bincount')
def np_bincount(x, weights=None, minlength=0):
    x = arr(x)
    C = ctx()
    if x.ndim != 1:
        raise PyExc(ValueError, 'object too deep')
    if x.kind not in 'ib':
        raise PyExc(TypeError, 'cannot cast')
    n = x.shape[0]
    xf = x.fn()
    ml = to_term(scal(minlength))
    C.require(mforall([n], lambda vs: le(ZERO, xf(vs))), ValueError,
              'negative value in bincount')
    if C.valid(mforall([n], lambda vs: lt(xf(vs), ml))):
        ln = ml
    else:
        # max + 1 or minlength
        if C.valid(eq(n, ZERO)):
            ln = ml
        else:
            if not C.valid(lt(ZERO, n)):
                raise Unsupported('length of a bincount')
            mx = add(np_max(x), ONE)
            ln = t_max(mx, ml)
    if weights is not None:
        w = arr(weights)
        nofin(w)
        if w.shape[0] is not n:
            C.require(eq(w.shape[0], n), ValueError,
                      'weights of another length')
        wf = w.fn()
        return Arr.make([ln], memo1(lambda idx: msum(n, lambda e: mul(
            ind(eq(xf([e]), idx[0])), tonum(wf([e]))))), 'f')
    return Arr.make([ln], memo1(lambda idx: msum(
        n, lambda e: ind(eq(xf([e]), idx[0])))), 'i')


@np_model('dot', 'matmul')
def dot(a, b, **kw):
    noopt(kw)
    a, b = arr(a), arr(b)
    nofin(a)
    nofin(b)
    C = ctx()
    if a.ndim == 0 or b.ndim == 0:
        return binop(Mult, a, b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('dot of several dimensions')
    k = a.shape[-1]
    C.require(eq(k, b.shape[0]), ValueError, 'shapes not aligned')
    fa, fb = a.fn(), b.fn()
    kind = numkind(a.kind, b.kind)
    sh = a.shape[:-1] + b.shape[1:]
    na = a.ndim - 1

    def at(idx):
        return msum(k, lambda e: mul(
            tonum(fa(list(idx[:na]) + [e])),
            tonum(fb([e] + list(idx[na:])))))
    if not sh:
        return at([])
    return Arr.make(sh, memo1(at), kind)


@np_model('inner')
def np_inner(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    raise Unsupported('inner')


@np_model('outer')
def np_outer(a, b, **kw):
    a, b = arr(a), arr(b)
    return binop(Mult, index_view(a, [SL(), None]), index_view(b, [None]))


@np_model('einsum')
def np_einsum(spec, *ops, **kw):
    noopt(kw)
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    if '->' not in spec or '.' in spec:
        raise Unsupported('einsum')
    ins, out = spec.split('->')
    ins = ins.split(',')
    As = [arr(o) for o in ops]
    dims = {}
    for s, a in zip(ins, As):
        if len(s) != a.ndim:
            raise PyExc(ValueError, 'einsum')
        for ch, d in zip(s, a.shape):
            if ch in dims and dims[ch] is not d:
                ctx().require(eq(dims[ch], d), ValueError, 'einsum')
            dims.setdefault(ch, d)
    red = sorted(set(dims) - set(out))
    fs = [a.fn() for a in As]

    def at(idx):
        env = dict(zip(out, idx))

        def g(vs):
            e = dict(env)
            e.update(zip(red, vs))
            return mul(*[tonum(f([e[c] for c in s]))
                         for f, s in zip(fs, ins)])
        return sum_dims([dims[c] for c in red], g)
    if not out:
        return at([])
    return Arr.make([dims[c] for c in out], memo1(at),
                    numkind(*[a.kind for a in As]))


@np_model('squeeze')
def np_squeeze(a, **kw):
    noopt(kw)
    a = arr(a)
    C = ctx()
    keys = []
    for d in a.shape:
        if isnum(d, 1):
            keys.append(0)
        else:
            c = eq(d, ONE)
            keys.append(0 if C.branch(c) else SL())
    if all(type(k).__name__ == 'Slice' for k in keys):
        return a
    if a.ndim and all(k == 0 for k in keys if not isinstance(k, Slice)) \
            and all(not isinstance(k, Slice) for k in keys):
        return index_view(a, [0] * a.ndim)
    return index_view(a, keys)


@np_model('ravel')
def np_ravel(a, **kw):
    noopt(kw)
    a = arr(a)
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return index_view(a, [None])
    ones = [k for k, d in enumerate(a.shape) if isnum(d, 1)]
    if len(ones) >= a.ndim - 1:
        keep = [k for k in range(a.ndim) if k not in ones][:1] or [0]
        return index_view(a, [SL() if k in keep else 0
                              for k in range(a.ndim)])
    if a.ndim == 2:
        nofin(a)
        f = a.fn()
        n1 = a.shape[1]
        return Arr.make([mul(*a.shape)], memo1(
            lambda idx: f([idiv(idx[0], n1), mod(idx[0], n1)])), a.kind)
    raise Unsupported('ravel')


@np_model('reshape')
def np_reshape(a, *shape, **kw):
    noopt(kw)
    a = arr(a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList)):
        shape = tuple(shape[0] if isinstance(shape[0], tuple)
                      else shape[0].items)
    sh = [to_term(scal(s)) for s in shape]
    if len(sh) == 1 and (isnum(sh[0], -1) or sh[0] is a.size()):
        return np_ravel(a)
    if len(sh) == a.ndim and all(x is y for x, y in zip(sh, a.shape)):
        return a
    base = [d for d in a.shape if not isnum(d, 1)]
    neg_ = [k for k, s in enumerate(sh) if isnum(s, -1)]
    if len(neg_) == 1:
        rest = [s for k, s in enumerate(sh) if k != neg_[0]
                and not isnum(s, 1)]
        if len(base) == 1 and not rest:
            sh[neg_[0]] = base[0]
        elif len(base) == len(rest) + 1:
            full = [s for k, s in enumerate(sh) if not isnum(s, 1)]
            ok = all(isnum(s, -1) or s is b for s, b in zip(full, base))
            if ok:
                sh[neg_[0]] = base[[isnum(s, -1) for s in full].index(True)]
        elif not base and not rest:
            sh[neg_[0]] = ONE
    nz = [s for s in sh if not isnum(s, 1)]
    if len(nz) == len(base) and all(x is y for x, y in zip(nz, base)):
        v = index_view(a, [0 if isnum(d, 1) else SL() for d in a.shape])
        v = arr(v)
        return index_view(v, [None if isnum(s, 1) else SL() for s in sh])
    raise Unsupported('reshape')


def transpose(a):
    a = arr(a)
    nd = a.ndim
    vm = [m if m[0] == 'f' else ('d', nd - 1 - m[1], m[2]) for m in a.vmap]
    fin = None
    if a.fin is not None:
        f0 = a.fin
        fin = lambda idx: f0(list(reversed(idx)))
    return Arr(a.buf, vm, list(reversed(a.shape)), a.kind, fin)


@np_model('transpose')
def np_transpose(a, axes=None):
    if axes is not None:
        raise Unsupported('transpose with axes')
    return transpose(a)


@np_model('newaxis')
def _na():
    raise Unsupported('newaxis')


def concat(parts, axis=0):
    """parts: arrays of equal dimension count"""
    C = ctx()
    nd = parts[0].ndim
    kind = parts[0].kind
    for p in parts:
        if p.ndim != nd:
            raise PyExc(ValueError, 'all the input arrays must have the '
                        'same number of dimensions')
        kind = join_kind(kind, p.kind)
    for k in range(nd):
        if k == axis:
            continue
        for p in parts[1:]:
            if p.shape[k] is not parts[0].shape[k]:
                C.require(eq(p.shape[k], parts[0].shape[k]), ValueError,
                          'dimensions must match')
    offs = []
    o = ZERO
    for p in parts:
        offs.append(o)
        o = add(o, p.shape[axis])
    shape = list(parts[0].shape)
    shape[axis] = o
    fs = [p.fn() for p in parts]

    def content(idx):
        def val(k):
            j = list(idx)
            j[axis] = sub(idx[axis], offs[k])
            v = fs[k](j)
            return coerce(v, kind) if kind in 'bif' else v
        r = None
        for k in range(len(parts) - 1, -1, -1):
            if isnum(parts[k].shape[axis], 0):
                continue
            if r is None:
                r = val(k)
                continue
            c = lt(idx[axis], add(offs[k], parts[k].shape[axis]))
            d = C.decide(c) if (C.scope or c in (TRUE, FALSE)) else None
            if d is True:
                r = val(k)
            elif d is False:
                pass
            else:
                r = ite(c, val(k), r)
        return r if r is not None else ZERO
    fins = [p.fin for p in parts]
    fin = None
    if any(f is not None for f in fins):
        def fin(idx):
            out = []
            for k, p in enumerate(parts):
                if fins[k] is None:
                    continue
                j = list(idx)
                j[axis] = sub(idx[axis], offs[k])
                inside = and_(le(offs[k], idx[axis]),
                              lt(idx[axis], add(offs[k], p.shape[axis])))
                out.append(imp(inside, fins[k](j)))
            return and_(*out)
    r = Arr.make(shape, memo1(content), kind, fin)
    r.tag = {'parts': parts, 'axis': axis}
    return r


def part(v):
    v = scal(v)
    if is_scalar(v):
        t = to_term(v)
        if t.op == 'inf':
            r = Arr.make([ONE], lambda idx: ZERO, 'f',
                         fin=lambda idx: FALSE)
            r.tag = {'inf': t}
            return r
        k = 'f' if isinstance(v, float) else kind_of(t)
        return Arr.make([ONE], lambda idx: t, k)
    a = arr(v)
    if a.ndim == 0:
        return index_view(a, [None])
    return a


@np_model('hstack')
def np_hstack(vs, **kw):
    n, f = iter_of(vs)
    if isinstance(n, T):
        raise Unsupported('hstack')
    ps = [part(f(k)) for k in range(n)]
    return concat(ps, 0 if ps[0].ndim == 1 else 1)


def concat_many(n, f, axis):
    """concatenation of a symbolic number of arrays along their first axis"""
    C = ctx()
    i = fresh('i', 'I')
    C.scope += [le(ZERO, i), lt(i, n)]
    try:
        x = arr(f(i))
    finally:
        del C.scope[-2:]
    if not x.shape or norm_axis(axis, x.ndim)[0] != 0 or x.kind == 'O' or \
            x.struct is not None or x.fin is not None:
        raise Unsupported('concatenate of a symbolic number of arrays')
    C.require(lt(ZERO, n), ValueError,
              'need at least one array to concatenate')
    if any(i.args[0] in fv(s) for s in x.shape[1:]):
        raise Unsupported('ragged arrays')
    L = lambda t: subst(x.shape[0], {i: to_term(t)})
    name, par, new = C.symbol('cat', [([i], x.shape[0]), ([], n)], 'I')
    part = lambda j: app(name + '.part', (j,) + tuple(par), 'I')
    pos = lambda j: app(name + '.pos', (j,) + tuple(par), 'I')
    t = fresh('t', 'I')
    off = lambda k: sum_(t, k, L(t))
    if new:
        j, k, p = fresh('j', 'I'), fresh('k', 'I'), fresh('p', 'I')
        C.axiom({name + '.part', name + '.pos'}, forall(
            list(par) + [j], imp(and_(le(ZERO, j), lt(j, off(n))), and_(
                le(ZERO, part(j)), lt(part(j), n), le(ZERO, pos(j)),
                lt(pos(j), L(part(j))),
                eq(add(off(part(j)), pos(j)), j))), (part(j),)))
        e = add(off(k), p)
        C.axiom({name + '.part', name + '.pos'}, forall(
            list(par) + [k, p], imp(and_(
                le(ZERO, k), lt(k, n), le(ZERO, p), lt(p, L(k))), and_(
                    eq(part(e), k), eq(pos(e), p)))))

    def content(idx):
        a = arr(f(part(idx[0])))
        return a.fn()([pos(idx[0])] + list(idx[1:]))
    return Arr.make([off(n)] + list(x.shape[1:]), memo1(content), x.kind)


@np_model('concatenate')
def np_concatenate(vs, axis=0, **kw):
    noopt(kw)
    n, f = iter_of(vs)
    if isinstance(n, T):
        return concat_many(n, f, axis)
    if n == 0:
        raise PyExc(ValueError, 'need at least one array to concatenate')
    ps = [arr(f(k)) for k in range(n)]
    for p in ps:
        if not p.shape:
            raise PyExc(ValueError, 'zero-dimensional arrays cannot be '
                        'concatenated')
    return concat(ps, norm_axis(axis, ps[0].ndim)[0])


@np_model('append')
def np_append(a, b, axis=None):
    a, b = part(a), part(b)
    if axis is None:
        return concat([np_ravel(a), np_ravel(b)], 0)
    return concat([a, b], norm_axis(axis, a.ndim)[0])


@np_model('vstack')
def np_vstack(vs, **kw):
    n, f = iter_of(vs)
    if isinstance(n, T):
        return arr(vs)
    ps = [np_atleast_2d(f(k)) for k in range(n)]
    return concat(ps, 0)


@np_model('stack')
def np_stack(vs, axis=0, **kw):
    a = arr(vs)
    if cint(axis) == 0:
        return a
    if a.ndim == 2 and cint(axis) in (1, -1):
        return transpose(a)
    raise Unsupported('stack')


@np_model('column_stack')
def np_column_stack(vs):
    a = arr(vs)
    if a.ndim == 2:
        return transpose(a)
    raise Unsupported('column_stack')


class NpR(Value):
    pass


def special_getitem(o, key):
    if o is np.r_:
        use('numpy.r_')
        ks = key if isinstance(key, tuple) else (key,)
        return concat([part(k) for k in ks], 0)
    if o is np.c_:
        raise Unsupported('np.c_')
    if isinstance(o, Sparse):
        return o.getitem(key)
    return NotImplemented


@np_model('diff')
def np_diff(a, **kw):
    noopt(kw)
    a = arr(a)
    if a.ndim != 1:
        raise Unsupported('diff of several dimensions')
    nofin(a)
    f = a.fn()
    n = sub(a.shape[0], ONE)
    if not ctx().valid(le(ZERO, n)):
        n = ite(le(ZERO, n), n, ZERO)
    return Arr.make([n], memo1(lambda idx: sub(
        tonum(f([add(idx[0], ONE)])), tonum(f([idx[0]])))),
        numkind(a.kind))


@np_model('unique')
def np_unique(a, axis=None, **kw):
    for k in list(kw):
        if kw[k] is False or kw[k] is None:
            kw.pop(k)
    inverse = kw.pop('return_inverse', False)
    noopt(kw)
    C = ctx()
    a = arr(a)
    nofin(a)
    if inverse and (axis is not None or a.ndim != 1):
        raise Unsupported('unique with an inverse')
    if axis is not None:
        if cint(axis) == 0 and a.ndim == 2:
            return unique_rows(a)
        raise Unsupported('unique with an axis')
    if a.ndim == 0:
        a = index_view(a, [None])
    vs = [fresh('u', 'I') for _ in a.shape]
    C.scope.append(in_range(vs, a.shape))
    try:
        body = a.read(vs)
    finally:
        C.scope.pop()
    # membership in terms of the full index range
    cond = []
    evs = []
    ranks = []
    b = body
    for v, n in zip(vs, a.shape):
        u = unselect(v, n, b)
        if u is None:
            cond += [le(ZERO, v), lt(v, n)]
            evs.append(v)
        else:
            e, n0, m, b = u
            cond += [le(ZERO, e), lt(e, n0), m]
            evs.append(e)
            sn, rn, par = C.unselected
            ranks.append(eq(app(sn, (app(rn, (e,) + par, 'I'),) + par, 'I'),
                            e))
    b = C.resolve(b, cond)
    cond = and_(*cond)
    name, params, new = C.symbol('uniq', [(evs, b), (evs, cond)], body.sort)
    mname, pname = 'nu' + name[4:], 'up' + name[4:]
    pv = tuple(params)
    m = app(mname, pv, 'I')
    U = lambda c: app(name, (c,) + pv, body.sort)
    P = lambda x: app(pname, (x,) + pv, 'I')
    if new:
        W = [lambda c, k=k: app('uw%d%s' % (k, name[4:]), (c,) + pv, 'I')
             for k in range(len(evs))]
        names = {name, mname, pname}
        lts = ltE if body.sort == 'E' else lt
        c, d = fresh('c', 'I'), fresh('d', 'I')
        C.axiom(names, forall(params, le(ZERO, m)))
        C.axiom(names, forall(list(params) + [c, d], imp(
            and_(le(ZERO, c), lt(c, d), lt(d, m)), lts(U(c), U(d))),
            (U(c), U(d))))
        for k in range(3):
            C.axiom(names, forall(params, imp(
                lt(num(k + 1), m), lts(U(num(k)), U(num(k + 1))))))
        tr = (P(b),)
        C.axiom(names, forall(list(params) + evs, imp(cond, and_(
            le(ZERO, P(b)), lt(P(b), m), eq(U(P(b)), b))), tr))
        if b.op == 'app':
            C.axiom(names, forall(list(params) + evs, imp(cond, and_(
                le(ZERO, P(b)), lt(P(b), m), eq(U(P(b)), b))), (b,)))
        sb = dict(zip(evs, [w(c) for w in W]))
        C.axiom(names, forall(list(params) + [c], imp(
            and_(le(ZERO, c), lt(c, m)),
            and_(subst(cond, sb), eq(subst(b, sb), U(c)),
                 *[subst(x, sb) for x in ranks])), (U(c),)))
        # empty exactly when there is no element
        C.axiom(names, forall(list(params) + evs, imp(cond, lt(ZERO, m))))
        for k in range(3):
            sb = dict(zip(evs, [w(num(k)) for w in W]))
            C.axiom(names, forall(params, imp(lt(num(k), m), and_(
                subst(cond, sb), eq(subst(b, sb), U(num(k)))))))
        C.uniques[name] = (mname, pname, body.sort)
    values = Arr.make([m], lambda idx: U(idx[0]), a.kind)
    if inverse:
        return (values, Arr.make(a.shape, lambda idx: P(a.read(idx)), 'i'))
    return values


def unique_rows(a):
    """sorted distinct rows of a two-dimensional array"""
    C = ctx()
    s = cint(a.shape[1])
    if s is None or s > 4:
        raise Unsupported('unique rows of symbolic width')
    j = fresh('u', 'I')
    C.scope.append(in_range([j], a.shape[:1]))
    cols = [a.read([j, num(k)]) for k in range(s)]
    C.scope.pop()
    n = a.shape[0]
    srt = cols[0].sort
    name, params, new = C.symbol('urow', [([j], c) for c in cols] +
                                 [([], n)], srt)
    pv = tuple(params)
    mname, oname, rname = ('um' + name[4:], 'occ' + name[4:],
                           'rpos' + name[4:])
    m = app(mname, pv, 'I')
    U = lambda c, k: app(name, (c, k) + pv, srt)
    O = lambda xs: app(oname, tuple(xs) + pv, 'B')
    R = lambda xs: app(rname, tuple(xs) + pv, 'I')
    if new:
        names = {name, mname, oname, rname}
        c = fresh('c', 'I')
        xs = [fresh('x', srt) for _ in range(s)]
        w = app('ow' + name[4:], tuple(xs) + pv, 'I')
        row = [U(c, num(k)) for k in range(s)]
        C.axiom(names, forall(params, le(ZERO, m)))
        # every row of the result occurs, at its own position
        C.axiom(names, forall(list(params) + [c], imp(
            and_(le(ZERO, c), lt(c, m)), and_(O(row), eq(R(row), c)))))
        # every occurring combination is one row of the result
        C.axiom(names, forall(list(params) + xs, imp(O(xs), and_(
            le(ZERO, R(xs)), lt(R(xs), m),
            *[eq(U(R(xs), num(k)), x) for k, x in enumerate(xs)])),
            (R(xs),)))
        # occurrence: some event has this combination
        C.axiom(names, forall(list(params) + xs, imp(O(xs), and_(
            le(ZERO, w), lt(w, n), *[eq(subst(cols[k], {j: w}), x)
                                     for k, x in enumerate(xs)])),
            (O(xs),)))
        C.axiom(names, forall(list(params) + [j], imp(
            and_(le(ZERO, j), lt(j, n)), O(cols))))
        C.urows[name] = (oname, rname, mname)
    return Arr.make([m, num(s)], lambda idx: U(idx[0], idx[1]), a.kind)


@np_model('digitize')
def np_digitize(x, bins, right=False, **kw):
    noopt(kw)
    if right is not False:
        raise Unsupported('digitize with right')
    C = ctx()
    b = arr(bins)
    count, mono = bin_count(b)
    C.require(mono, ValueError, 'bins must be monotonically increasing')

    def f(t):
        return count(tonum(t), False)
    return elementwise(f, 'i', scal(x))


@np_model('searchsorted')
def np_searchsorted(a, v, side='left', **kw):
    noopt(kw)
    C = ctx()
    b = arr(a)
    count, mono = bin_count(b)
    C.oblige('searchsorted needs a sorted array', mono)
    return elementwise(lambda t: count(t if t.sort == 'E' else tonum(t),
                                       side == 'left'), 'i',
                       scal(v))


def bin_count(b):
    """number of elements <= t (or < t when strict) of a sorted array whose
    first / last elements may be infinite; and the sortedness condition"""
    parts = b.tag['parts'] if b.tag and 'parts' in b.tag else [b]
    flat = []
    for p in parts:
        flat.append(p)
    mono = []
    prev = None
    for p in flat:
        if p.tag and 'inf' in p.tag:
            t = p.tag['inf']
            if t is NINF and prev is not None or \
                    t is INF and p is not flat[-1]:
                raise Unsupported('infinite bin edge inside')
            continue
        nofin(p)
        f = p.fn()
        n = p.shape[0]
        mono.append(mforall([sub(n, ONE)], lambda vs: le_any(
            f(vs), f([add(vs[0], ONE)]))))
        if prev is not None:
            pf, pn = prev
            mono.append(imp(and_(lt(ZERO, pn), lt(ZERO, n)), le_any(
                pf([sub(pn, ONE)]), f([ZERO]))))
        prev = (f, n)

    def count(t, strict):
        out = []
        for p in flat:
            if p.tag and 'inf' in p.tag:
                if p.tag['inf'] is NINF:
                    out.append(ONE)
                continue
            out.append(sorted_count(p.fn(), p.shape[0], t, strict))
        return add(*out) if out else ZERO
    return count, and_(*mono)


def lt_any(a, b):
    if a.sort == 'E' and b.sort == 'E':
        return ltE(a, b)
    return lt(tonum(a), tonum(b))


def le_any(a, b):
    if a.sort == 'E' and b.sort == 'E':
        return not_(ltE(b, a))
    return le(tonum(a), tonum(b))


def sorted_count(f, n, t, strict):
    """number of the elements f(0..n-1), in increasing order, that are
    <= t (< t when strict): the elements before this index are, those from
    this index on are not"""
    C = ctx()
    k = cint(n)
    if k is not None and k <= 3:
        return add(ZERO, *[ind(lt_any(f([num(e)]), t) if strict else
                               le_any(f([num(e)]), t))
                           for e in range(k)])
    e = fresh('e', 'I')
    C.scope.append(in_range([e], [n]))
    body = f([e])
    if body.sort != 'E':
        body = tonum(body)
    C.scope.pop()
    name, params, new = C.symbol('cnt' + ('lt' if strict else 'le'),
                                 [([e], body), ([], n)], 'I')
    pv = tuple(params)
    cnt = lambda x: app(name, (x,) + pv, 'I')
    if new:
        x = fresh('x', 'E' if body.sort == 'E' else 'R')
        c = cnt(x)
        at = lambda i: subst(body, {e: i})
        bel = (lambda v: lt_any(v, x)) if strict else \
            (lambda v: le_any(v, x))
        C.axiom({name}, forall(list(params) + [x], imp(le(ZERO, n), and_(
            le(ZERO, c), le(c, n),
            imp(lt(ZERO, c), bel(at(sub(c, ONE)))),
            imp(lt(c, n), not_(bel(at(c)))))), (c,)))
        trg = [a for a in apps_in(body) if e.args[0] in fv(a)]
        if trg:
            C.axiom({name}, forall(list(params) + [x, e], imp(
                and_(le(ZERO, e), lt(e, n)),
                eq_bool(bel(body), lt(e, c))), (c, trg[0])))
    if body.sort == 'E':
        if t.sort != 'E':
            raise Unsupported('search of a number among identifiers')
        return cnt(t)
    return cnt(tonum(t))


def eq_bool(a, b):
    return and_(imp(a, b), imp(b, a))


@np_model('histogram')
def np_histogram(x, bins=10, **kw):
    noopt(kw)
    C = ctx()
    x = arr(x)
    nofin(x)
    if x.ndim != 1:
        x = np_ravel(x)
    xf = x.fn()
    n = x.shape[0]
    bins = scal(bins)
    if is_scalar(bins):
        nb = to_term(bins)
        C.require(le(ONE, nb), ValueError, '`bins` must be positive')
        i = fresh('i', 'I')
        body = tonum(xf([i]))
        name, params, new = C.symbol('hist', [([i], body), ([], n),
                                              ([], nb)], 'I')
        pv = tuple(params)
        H = lambda c: app(name, (c,) + pv, 'I')
        if C.valid(lt(ZERO, n)):
            mn, mx = np_min(x), np_max(x)
            mn, mx = tonum(to_term(scal(mn))), tonum(to_term(scal(mx)))
            half = num('1/2')
            lo = ite(lt(mn, mx), mn, sub(mn, half))
            hi = ite(lt(mn, mx), mx, add(mx, half))
        else:
            lo = app('hlo' + name[4:], pv, 'R')
            hi = app('hhi' + name[4:], pv, 'R')
        if new:
            c = fresh('c', 'I')
            C.axiom({name}, forall(list(params) + [c], le(ZERO, H(c)),
                                   (H(c),)))
            C.axiom({name}, eq(sum_(c, nb, H(c)), n))
            C.axiom({name}, lt(lo, hi))
            C.axiom({name}, forall(list(params) + [i], imp(
                and_(le(ZERO, i), lt(i, n)),
                and_(le(lo, body), le(body, hi)))))
        hist = Arr.make([nb], lambda idx: H(idx[0]), 'i')
        edges = Arr.make([add(nb, ONE)], lambda idx: add(
            lo, mul(idx[0], div(sub(hi, lo), nb))), 'f')
        return (hist, edges)
    b = arr(bins)
    count, mono = bin_count(b)
    C.require(mono, ValueError, 'bins must increase monotonically')
    parts = b.tag['parts'] if b.tag and 'parts' in b.tag else [b]
    # number of bin edges <= t, minus one, is the bin of t; the last bin is
    # closed on the right
    nb = sub(b.shape[0], ONE)
    C.require(le(ONE, b.shape[0]), ValueError, 'bins')
    lastinf = bool(parts[-1].tag and 'inf' in parts[-1].tag)
    if not lastinf:
        raise Unsupported('histogram with a finite last edge')

    def hist(idx):
        return msum(n, lambda e: ind(eq(sub(count(
            tonum(xf([e])), False), ONE), idx[0])))
    return (Arr.make([nb], memo1(hist), 'i'), b)


# --------------------------------------------------------------------------
# attributes of values
# --------------------------------------------------------------------------

def P(f):
    return Partial(lambda args, kw: f(*args, **kw))


def value_attr(o, name):
    if isinstance(o, Arr):
        return arr_attr(o, name)
    if isinstance(o, T) or isinstance(o, (int, float, np.number)) and \
            not isinstance(o, bool):
        if name in ('shape',):
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name == 'dtype':
            return KDtype(kind_of(to_term(o)))
        if name in ('sum', 'mean', 'min', 'max', 'item', 'copy', 'tolist'):
            return P(lambda *a, **k: o)
        raise PyExc(AttributeError, name)
    if isinstance(o, KDtype) and name == 'kind' and o.kind in 'ifbOU':
        return o.kind
    if isinstance(o, PDict):
        return dict_attr(o, name)
    if isinstance(o, SDict):
        return sdict_attr(o, name)
    if isinstance(o, PList):
        return list_attr(o, name)
    if isinstance(o, str):
        if name == 'format':
            return P(lambda *a, **k: Opaque('formatted string'))
        if name == 'join':
            return P(lambda *a, **k: Opaque('string'))
        return P(getattr(o, name))
    if isinstance(o, Opaque):
        if name in o.attrs:
            return o.attrs[name]
        raise Unsupported('attribute %s of %s' % (name, o.name))
    if isinstance(o, ExcVal):
        if name == 'args':
            return tuple(o.args)
        raise Unsupported('attribute of an exception')
    if isinstance(o, Closure) and name == '__name__':
        return o.name
    if isinstance(o, StructRow):
        raise Unsupported('structured row')
    if isinstance(o, Sparse):
        return o.attr(name)
    if isinstance(o, tuple):
        if name == 'index':
            raise Unsupported('tuple.index')
        raise PyExc(AttributeError, name)
    if isinstance(o, Bound):
        if name in ('__name__', '__func__'):
            return getattr(o.fn, name, None)
    raise Unsupported('attribute %s of %s' % (name, type(o).__name__))


def arr_attr(a, name):
    if name == 'shape':
        return tuple(unterm(s) for s in a.shape)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        return unterm(a.size())
    if name == 'dtype':
        if a.tag and 'dtype' in a.tag:
            return a.tag['dtype']
        return KDtype(a.kind)
    if name == 'T':
        return transpose(a)
    table = {
        'sum': np_sum, 'mean': np_mean, 'std': np_std, 'var': np_var,
        'min': np_min, 'max': np_max, 'any': np_any, 'all': np_all,
        'nonzero': np_nonzero, 'argmax': np_argmax, 'argmin': np_argmin,
        'dot': dot, 'squeeze': np_squeeze, 'transpose': np_transpose,
        'take': np_take, 'clip': np_clip, 'reshape': np_reshape,
    }
    if name in table:
        f = table[name]

        def h(*args, **kw):
            use('numpy.ndarray.' + name)
            return f(a, *args, **kw)
        return P(h)
    if name == 'copy':
        if a.tag and 'fields' in a.tag:
            return P(lambda **k: rec_copy(a))
        return P(lambda **k: a.copy())
    if name == 'ravel':
        return P(lambda **k: np_ravel(a))
    if name == 'flatten':
        return P(lambda **k: np_ravel(a).copy())
    if name == 'astype':
        def astype(d, **k):
            k = dkind(d)
            return a.copy() if k == a.kind else cast(a, k)
        return P(astype)
    if name == 'fill':
        def fill(v):
            f = value_for(a.kind, a.shape, v)
            a.assign(f)
        return P(fill)
    if name == 'view':
        def view(d=None):
            if not isinstance(d, SymDtype):
                raise Unsupported('view')
            if a.struct is None:
                if not (a.tag and 'const' in a.tag):
                    raise Unsupported('structured view of an array')
                tot = d.total()
                if not (len(a.shape) == 1 and a.shape[0] is tot):
                    ctx().require(eq(a.shape[0], tot), ValueError,
                                  'size of the structured dtype')
                v = a.tag['const']
                fl = {}
                for n, k, sh in d.fields:
                    fl[n] = Buffer(lambda idx, v=v: v, list(sh), 'f')
                a.struct = Struct(a.shape[0], d, fl)
            elif not a.struct.dt.same(d):
                raise Unsupported('view with another dtype')
            use('numpy structured view')
            return StructView(a)
        return P(view)
    if name == 'tolist':
        def tolist():
            n, f = iter_of(a)
            if isinstance(n, T):
                return SList(n, f)
            return PList([f(k) for k in range(n)])
        return P(tolist)
    if name == 'item':
        return P(lambda: truth_item(a))
    if name == '__array__':
        return P(lambda: a)
    raise Unsupported('ndarray.%s' % name)


def truth_item(a):
    if a.shape and not all(isnum(s, 1) for s in a.shape):
        raise Unsupported('item')
    return a.read([ZERO] * a.ndim)


def dict_attr(o, name):
    if name == 'get':
        def get(k, d=None):
            if isinstance(k, T):
                r = d
                for kk, v in o.items.items():
                    r = vite(to_term(compare(ast.Eq(), kk, k)), v, r)
                return r
            return o.items.get(k, d)
        return P(get)
    if name == 'items':
        return P(lambda: It(len(o.items), lambda k: list(
            o.items.items())[k]))
    if name == 'keys':
        return P(lambda: PList(list(o.items)))
    if name == 'values':
        return P(lambda: PList(list(o.items.values())))
    if name == 'pop':
        def pop(k, *d):
            if k in o.items:
                return o.items.pop(k)
            if d:
                return d[0]
            raise PyExc(KeyError, str(k))
        return P(pop)
    if name == 'update':
        def update(*a, **kw):
            for x in a:
                if isinstance(x, PDict):
                    o.items.update(x.items)
                else:
                    raise Unsupported('update')
            o.items.update(kw)
        return P(update)
    if name == 'copy':
        return P(lambda: PDict(o.items))
    if name == 'setdefault':
        def setdefault(k, d=None):
            return o.items.setdefault(k, d)
        return P(setdefault)
    raise Unsupported('dict.%s' % name)


def sdict_attr(o, name):
    if name == 'get':
        def get(k, d=None):
            k = to_term(scal(k))
            c = o.dom(k)
            dd = ctx().decide(c)
            if dd is True:
                return o.val(k)
            if dd is False:
                return d
            return vite(c, o.val(k), d)
        return P(get)
    if name == 'keys':
        n, f = iter_of(o)
        return P(lambda: SList(n, f))
    if name == 'items':
        n, f = iter_of(o)
        return P(lambda: It(n, lambda i: (f(i), o.val(to_term(f(i))))))
    if name == 'values':
        n, f = iter_of(o)
        return P(lambda: It(n, lambda i: o.val(to_term(f(i)))))
    if name == 'copy':
        return P(lambda: SDict(o.dom, o.val, o.n, o.ksort, o.order))
    raise Unsupported('dict.%s' % name)


def list_attr(o, name):
    if name == 'append':
        def append(v):
            o.items = o.items + [v]
        return P(append)
    if name == 'extend':
        def extend(v):
            n, f = iter_of(v)
            if isinstance(n, T):
                raise Unsupported('extend of symbolic length')
            o.items = o.items + [f(k) for k in range(n)]
        return P(extend)
    if name == 'copy':
        return P(lambda: PList(o.items))
    if name == 'pop':
        def pop(k=-1):
            items = list(o.items)
            v = items.pop(cint(k))
            o.items = items
            return v
        return P(pop)
    raise Unsupported('list.%s' % name)


# --------------------------------------------------------------------------
# sparse matrices
# --------------------------------------------------------------------------

class Sparse(Value):
    """immutable sparse matrix: entry(u, i)"""

    def __init__(self, shape, entry, fmt='coo', kind='i'):
        self.shape, self.entry, self.fmt, self.kind = shape, entry, fmt, kind

    def dense(self):
        e = self.entry
        return Arr.make(list(self.shape), memo1(
            lambda idx: e(idx[0], idx[1])), self.kind)

    def getrow(self, i):
        i = norm_index(scal(i), self.shape[0])
        e = self.entry
        return Sparse([ONE, self.shape[1]], lambda u, c: e(i, c), self.fmt,
                      self.kind)

    def getcol(self, i):
        i = norm_index(scal(i), self.shape[1])
        e = self.entry
        return Sparse([self.shape[0], ONE], lambda u, c: e(u, i), self.fmt,
                      self.kind)

    def getitem(self, key):
        ks = list(key) if isinstance(key, tuple) else [key]
        if len(ks) == 1 and not isinstance(ks[0], (Slice, Arr)):
            return self.getrow(ks[0])
        if len(ks) == 2 and isinstance(ks[1], Slice) and ks[1].lo is None \
                and ks[1].hi is None and not isinstance(ks[0],
                                                        (Slice, Arr)):
            return self.getrow(ks[0])
        if len(ks) == 2 and not any(isinstance(k, (Slice, Arr, PList))
                                    for k in ks):
            return self.entry(norm_index(scal(ks[0]), self.shape[0]),
                              norm_index(scal(ks[1]), self.shape[1]))
        raise Unsupported('index of a sparse matrix')

    def sum(self, axis=None):
        d = self.dense()
        if axis is None:
            return np_sum(d)
        # a matrix keeps two dimensions
        return np_sum(d, axis=axis, keepdims=True)

    def count_nonzero(self):
        return np_count_nonzero(self.dense())

    def attr(self, name):
        if name == 'shape':
            return tuple(unterm(s) for s in self.shape)
        if name in ('tocsr', 'tocsc', 'tolil', 'tocoo'):
            def conv(**k):
                return Sparse(self.shape, self.entry, name[2:], self.kind)
            return P(conv)
        if name in ('toarray', 'todense'):
            return P(lambda **k: self.dense())
        if name == 'getrow':
            return P(self.getrow)
        if name == 'getcol':
            return P(self.getcol)
        if name == 'sum':
            return P(lambda axis=None, **k: self.sum(axis))
        if name == 'count_nonzero':
            return P(self.count_nonzero)
        if name == 'nnz':
            raise Unsupported('number of stored entries')
        if name == 'T':
            e = self.entry
            return Sparse([self.shape[1], self.shape[0]],
                          lambda u, i: e(i, u), self.fmt, self.kind)
        raise Unsupported('sparse.%s' % name)


def coo(fmt):
    def h(args, kwargs):
        use('scipy.sparse.%s_matrix' % fmt)
        C = ctx()
        v = args[0]
        shape = kwargs.get('shape', args[1] if len(args) > 1 else None)
        if not isinstance(v, tuple) or shape is None:
            raise Unsupported('sparse matrix constructor')
        data, (rows, cols) = v[0], unpack(v[1], 2)
        data, rows, cols = arr(data), arr(rows), arr(cols)
        sh = shape_of(shape)
        if len(sh) != 2:
            raise PyExc(TypeError, 'invalid input format')
        n = rows.shape[0]
        for a in (data, cols):
            C.require(eq(a.shape[0], n), ValueError,
                      'row, column, and data array must be all the same '
                      'length')
        df, rf, cf = data.fn(), rows.fn(), cols.fn()
        C.require(mforall([n], lambda vs: and_(
            le(ZERO, rf(vs)), lt(rf(vs), sh[0]))), ValueError,
            'row index exceeds matrix dimensions')
        C.require(mforall([n], lambda vs: and_(
            le(ZERO, cf(vs)), lt(cf(vs), sh[1]))), ValueError,
            'column index exceeds matrix dimensions')
        c = fresh('c', 'I')
        r0, c0 = rf([c]), cf([c])
        for nm, (on, rn, mn) in C.urows.items():
            if r0.op == 'app' and r0.args[0] == nm and r0.args[1] is c and \
                    c0.op == 'app' and c0.args[0] == nm and \
                    c0.args[1] is c and r0.args[3:] == c0.args[3:]:
                k0, k1 = cint(r0.args[2]), cint(c0.args[2])
                if {k0, k1} == {0, 1} and n is app(
                        mn, tuple(r0.args[3:]), 'I'):
                    pv = tuple(r0.args[3:])

                    def entry(u, i):
                        xs = (u, i) if k0 == 0 else (i, u)
                        return ite(app(on, xs + pv, 'B'), tonum(df(
                            [app(rn, xs + pv, 'I')])), ZERO)
                    return Sparse(sh, entry, fmt, data.kind)

        def entry(u, i):
            return msum(n, lambda e: mul(
                ind(eq(rf([e]), u)), ind(eq(cf([e]), i)),
                tonum(df([e]))))
        return Sparse(sh, entry, fmt, data.kind)
    return h


try:
    from scipy import sparse as _sp
    MODELS[_sp.coo_matrix] = coo('coo')
    MODELS[_sp.csr_matrix] = coo('csr')
    MODELS[_sp.csc_matrix] = coo('csc')
    def issparse(x):
        return isinstance(x, Sparse) or isinstance(
            x, Opaque) and '__sparse__' in x.attrs
    MODELS[_sp.issparse] = lambda a, k: issparse(*a)
    MODELS[_sp.isspmatrix] = lambda a, k: issparse(*a)
except ImportError:
    pass


# --------------------------------------------------------------------------
# random numbers
# --------------------------------------------------------------------------

def rng_attr():
    """random numbers: the values of the c-th draw are an arbitrary function
    of c; the number of draws so far is a variable of the program"""
    C = ctx()
    lv = tuple(loopvars())
    made = {}
    count = PDict({'n': ZERO})
    if lv:
        tag = const('rng@' + C.where, 'U')
        base, params, new = C.symbol('rng', [([], tag)] + [
            ([], v) for v in lv], 'U')
    else:
        base = fresh_name('rng')

    def draw(dist):
        name = '%s:%s' % (base, dist)
        c = count.items['n']
        count.items['n'] = add(c, ONE)
        return name, (c,) + lv

    def normal(loc=0.0, scale=1.0, size=None):
        use('RandomState.normal')
        sh = shape_of(size) if size is not None else []
        check_shape(sh)
        name, lv = draw('normal%d' % len(sh))
        return Arr.make(sh, lambda idx: app(name, tuple(idx) + lv, 'R'),
                        'f') if sh else app(name, lv, 'R')

    def dirichlet(alpha, size=None):
        use('RandomState.dirichlet')
        a = arr(alpha)
        k = a.shape[0]
        af = a.fn()
        C.require(mforall([k], lambda vs: lt(ZERO, tonum(af(vs)))),
                  ValueError, 'alpha <= 0')
        sh = shape_of(size) if size is not None else []
        check_shape(sh)
        name, lv = draw('dirichlet%d' % len(sh))
        pre = [fresh('r', 'I') for _ in sh]
        par = [fresh('c', 'I') for _ in lv]
        kk = fresh('k', 'I')
        i, j = fresh('i', 'I'), fresh('j', 'I')
        D = lambda r, x, n, l: app(name, tuple(r) + (x, n) + tuple(l), 'R')
        if name not in made:
            made[name] = True
            C.axiom({name}, forall(pre + [i, kk] + par, and_(
                le(ZERO, D(pre, i, kk, par)), le(D(pre, i, kk, par), ONE)),
                (D(pre, i, kk, par),)))
        C.axiom({name}, forall(pre + list(fvars(lv)), imp(lt(ZERO, k), eq(
            sum_(j, k, D(pre, j, k, lv)), ONE))))
        return Arr.make(sh + [k], lambda idx: D(idx[:-1], idx[-1], k, lv),
                        'f')

    def permuted(n):
        """(permutation of 0..n-1, its inverse)"""
        name, lv = draw('permutation')
        iname = name + 'inv'
        p = lambda x, n=n, lv=lv: app(name, (x, n) + tuple(lv), 'I')
        q = lambda x, n=n, lv=lv: app(iname, (x, n) + tuple(lv), 'I')
        if name not in made:
            made[name] = True
            x, nn = fresh('x', 'I'), fresh('n', 'I')
            par = [fresh('c', 'I') for _ in lv]
            for f, g in ((p, q), (q, p)):
                t = f(x, nn, par)
                C.axiom({name, iname}, forall([x, nn] + par, imp(
                    and_(le(ZERO, x), lt(x, nn)),
                    and_(le(ZERO, t), lt(t, nn), eq(g(t, nn, par), x))),
                    (t,)))
        return p, q

    def permutation(x):
        use('RandomState.permutation')
        if is_scalar(x):
            n = to_term(x)
            p, q = permuted(n)
            return Arr.make([n], lambda idx: p(idx[0]), 'i')
        a = arr(x)
        f = a.fn()
        p, q = permuted(a.shape[0])
        return Arr.make(list(a.shape), memo1(lambda idx: f(
            [p(idx[0])] + list(idx[1:]))), a.kind)

    def shuffle(a):
        use('RandomState.shuffle')
        if not isinstance(a, Arr):
            raise Unsupported('shuffle')
        f = a.fn()
        p, q = permuted(a.shape[0])
        a.assign(lambda idx: f([p(idx[0])] + list(idx[1:])))
    return {'normal': P(normal), 'dirichlet': P(dirichlet),
            'permutation': P(permutation), 'shuffle': P(shuffle),
            'permuted': permuted}


def fvars(ts):
    """integer variables of the terms"""
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == 'var' and x.args[0] in fv(t) and '!' in x.args[0] \
                    and x not in out:
                out.append(x)
    return out


def rng_value():
    o = Opaque('RandomState')
    o.attrs = rng_attr()
    return o


# --------------------------------------------------------------------------
# sklearn.model_selection.KFold: the k-th iterator that split() returns over
# m samples yields, one after another, the sets number t = 0, ..., K - 1.
# kfold(x, k, m, K) is the number of the set with sample x; the sizes of the
# sets are m // K, and one more for the first m % K sets; kfoldsel(q, t, ...)
# are the samples of set t in increasing order, kfoldrank their places in it;
# kfoldtrain(q, t, ...) are the other samples

def kfold_axioms():
    C = ctx()
    if 'kfoldaxiom' in C.ghost:
        return
    C.ghost['kfoldaxiom'] = True
    x, q, r, t, k, m, K = vs = [fresh(c, 'I') for c in 'xqrtkmK']
    p = (k, m, K)
    f = lambda x: app('kfold', (x,) + p, 'I')
    rk = lambda x: app('kfoldrank', (x,) + p, 'I')
    sl = lambda q, t: app('kfoldsel', (q, t) + p, 'I')
    tr = lambda q, t: app('kfoldtrain', (q, t) + p, 'I')
    size = lambda t: add(idiv(m, K), ind(lt(t, mod(m, K))))
    ok = and_(lt(ZERO, K), le(K, m))
    inm = lambda x: and_(le(ZERO, x), lt(x, m))
    names = {'kfold', 'kfoldrank', 'kfoldsel', 'kfoldtrain'}
    one = and_(le(ZERO, f(x)), lt(f(x), K), le(ZERO, rk(x)),
               lt(rk(x), size(f(x))), eq(sl(rk(x), f(x)), x))
    for g in (f(x), rk(x)):
        C.axiom(names, forall([x, k, m, K], imp(and_(ok, inm(x)), one),
                              (g,)))
    int_ = and_(ok, le(ZERO, t), lt(t, K))
    C.axiom(names, forall([q, t, k, m, K], imp(and_(
        int_, le(ZERO, q), lt(q, size(t))), and_(
            inm(sl(q, t)), eq(f(sl(q, t)), t), eq(rk(sl(q, t)), q))),
        (sl(q, t),)))
    C.axiom(names, forall([q, r, t, k, m, K], imp(and_(
        int_, le(ZERO, q), lt(q, r), lt(r, size(t))), lt(
            sl(q, t), sl(r, t))), (sl(q, t), sl(r, t))))
    C.axiom(names, forall([q, t, k, m, K], imp(and_(
        int_, le(ZERO, q), lt(q, sub(m, size(t)))), and_(
            inm(tr(q, t)), not_(eq(f(tr(q, t)), t)))), (tr(q, t),)))
    C.axiom(names, forall([q, r, t, k, m, K], imp(and_(
        int_, le(ZERO, q), lt(q, r), lt(r, sub(m, size(t)))), lt(
            tr(q, t), tr(r, t))), (tr(q, t), tr(r, t))))


def kfold_state():
    """the number of iterators made so far, and how often each was used"""
    C = ctx()
    s = C.ghost.get('kfold')
    if s is None:
        s = C.ghost['kfold'] = (PDict({'n': ZERO}), Arr.make(
            [fresh('iterators', 'I')], lambda idx: ZERO, 'i'))
    return s


class KFoldIter(Value):
    def __init__(self, k, m, K):
        self.k, self.m, self.K = k, m, K

    def vkey(self):
        return ('kfold', self.k, self.m, self.K)

    def subst(self, m):
        return KFoldIter(*[subst(x, m) for x in (self.k, self.m, self.K)])

    def number(self, x):
        return app('kfold', (x, self.k, self.m, self.K), 'I')

    def rank(self, x):
        return app('kfoldrank', (x, self.k, self.m, self.K), 'I')

    def size(self, t):
        return add(idiv(self.m, self.K), ind(lt(t, mod(self.m, self.K))))

    def place(self, q, t):
        return app('kfoldsel', (q, t, self.k, self.m, self.K), 'I')

    def pair(self, t):
        C = ctx()
        kfold_axioms()
        C.ghost['kfoldtest'] = (loopvars(), self)
        p = (t, self.k, self.m, self.K)
        return (Arr.make([sub(self.m, self.size(t))], lambda idx: app(
                    'kfoldtrain', (idx[0],) + p, 'I'), 'i'),
                Arr.make([self.size(t)], lambda idx: self.place(
                    idx[0], t), 'i'))

    def check(self):
        ctx().require(le(self.K, self.m), ValueError,
                      'Cannot have number of splits greater than the number '
                      'of samples')

    def used(self, pos):
        # (the array is as long as the program needs)
        return Arr(pos.buf, [('f', self.k)], [], 'i')

    def next(self):
        use('sklearn.model_selection.KFold')
        C = ctx()
        self.check()
        pos = kfold_state()[1]
        t = C.resolve(pos.read([self.k]), [])
        C.require(lt(t, self.K), StopIteration)
        self.used(pos).assign(lambda idx: add(t, ONE))
        return self.pair(t)

    def items(self):
        self.check()
        pos = kfold_state()[1]
        if not ctx().valid(eq(pos.read([self.k]), ZERO)):
            raise Unsupported('rest of an iterator')
        K = self.K
        self.used(pos).assign(lambda idx: K)
        return self.K, self.pair


def kfold_iter(K, X):
    n = kfold_state()[0]
    k = n.items['n']
    n.items['n'] = add(k, ONE)
    return KFoldIter(k, to_term(m_len(X)), K)


def setup_sklearn():
    import sklearn.utils as su
    import sklearn.utils.validation as sv
    import sklearn.model_selection as msel
    import sklearn.model_selection._split as ms

    @py_model(su.check_random_state)
    def check_random_state(seed):
        use('sklearn.utils.check_random_state')
        if isinstance(seed, Opaque) and 'permuted' in seed.attrs:
            return seed
        return rng_value()

    @py_model(su.assert_all_finite, sv.assert_all_finite)
    def assert_all_finite(x, **kw):
        use('sklearn.utils.assert_all_finite')
        x = arr(x) if not (isinstance(x, tuple) or isinstance(
            x, PList)) else arr(x)
        if x.fin is not None:
            fin = x.fin
            ctx().require(mforall(x.shape, lambda vs: fin(list(vs))),
                          ValueError, 'Input contains NaN or infinity')

    @py_model(su.as_float_array, sv.as_float_array)
    def as_float_array(x, copy=True, **kw):
        use('sklearn.utils.as_float_array')
        x = arr(x)
        if x.kind == 'f':
            return x.copy() if copy else x
        return cast(x, 'f')

    @py_model(su.check_consistent_length, sv.check_consistent_length)
    def check_consistent_length(*arrays):
        use('sklearn.utils.check_consistent_length')
        ls = [to_term(m_len(a)) for a in arrays if a is not None]
        for l in ls[1:]:
            ctx().require(eq(l, ls[0]), ValueError,
                          'inconsistent numbers of samples')

    @py_model(su.check_array, sv.check_array)
    def check_array(x, **kw):
        use('sklearn.utils.check_array')
        dt = kw.pop('dtype', 'numeric')
        if kw:
            raise Unsupported('check_array options')
        x = arr(x)
        if x.ndim != 2:
            raise PyExc(ValueError, 'Expected 2D array')
        ctx().require(le(ONE, x.shape[0]), ValueError,
                      'minimum of 1 sample is required')
        ctx().require(le(ONE, x.shape[1]), ValueError,
                      'minimum of 1 feature is required')
        if x.kind == 'E':
            return x
        k = dkind(dt) if dt != 'numeric' else None
        if k and k != x.kind:
            return cast(x, k)
        return x

    import sklearn.metrics as skm

    def errs(t, p):
        check_consistent_length(t, p)
        for a in (t, p):
            assert_all_finite(a)
        d = binop(Sub, arr(t), arr(p))
        ctx().require(lt(ZERO, arr(t).shape[0]), ValueError, 'no samples')
        return d

    @py_model(skm.mean_absolute_error)
    def mean_absolute_error(t, p):
        use('sklearn.metrics.mean_absolute_error')
        return np_mean(elementwise(t_abs, 'f', errs(t, p)))

    @py_model(skm.mean_squared_error)
    def mean_squared_error(t, p):
        use('sklearn.metrics.mean_squared_error')
        d = errs(t, p)
        return np_mean(binop(Mult, d, d))

    @py_model(skm.roc_auc_score)
    def roc_auc_score(t, p):
        """an uninterpreted function of the two arrays; the arrays must
        have the same length and both classes must occur"""
        use('sklearn.metrics.roc_auc_score')
        C = ctx()
        t, p = arr(t), arr(p)
        check_consistent_length(t, p)
        f, g = t.fn(), p.fn()
        n = t.shape[0]
        for v in (ZERO, ONE):
            C.require(mexists([n], lambda i: eq(tonum(f(i)), v)),
                      ValueError, 'Only one class present in y_true')
        i = fresh('i', 'I')
        name, params, new = C.symbol('auc', [
            ([i], tonum(f([i]))), ([i], tonum(g([i]))), ([], n)], 'R')
        C.auc = (t, p)
        return app(name, tuple(params), 'R')

    @py_model(su.indexable, sv.indexable)
    def indexable(*its):
        use('sklearn.utils.indexable')
        ls = [to_term(m_len(a)) for a in its if a is not None]
        for l in ls[1:]:
            ctx().require(eq(l, ls[0]), ValueError,
                          'inconsistent numbers of samples')
        return PList(list(its))
    MODELS[sv._num_samples] = lambda a, k: m_len(a[0])

    @py_model(su.column_or_1d, sv.column_or_1d)
    def column_or_1d(y, **kw):
        use('sklearn.utils.column_or_1d')
        y = arr(y)
        if kw or y.ndim != 1:
            raise Unsupported('column_or_1d')
        return y

    @py_model(msel.train_test_split)
    def train_test_split(*arrays, test_size=None, train_size=None,
                         random_state=None, shuffle=True, stratify=None):
        """the numbers of elements are those of _validate_shuffle_split;
        the test set are the first elements of a random permutation, the
        training set the ones that follow"""
        use('sklearn.model_selection.train_test_split')
        C = ctx()
        if stratify is not None or len(arrays) != 1:
            raise Unsupported('train_test_split')
        a = arr(arrays[0])
        n = a.shape[0]
        ntr, nte = [to_term(x) for x in interp.call(
            ms._validate_shuffle_split, [n, test_size, train_size],
            {'default_test_size': 0.25})]
        f = a.fn()
        if truth(shuffle):
            p, q = check_random_state(random_state).attrs['permuted'](n)
            tr = te = p
            o = nte
        else:
            tr = lambda x: x
            te = lambda x: add(ntr, x)
            o = ZERO
        take = lambda p, k, m: Arr.make([m], memo1(lambda idx: f(
            [p(add(k, idx[0]))] + list(idx[1:]))), a.kind)
        C.ghost['tts'] = (loopvars(), nte, memo1(lambda idx: f(
            [te(idx[0])])), n)
        return PList([take(tr, o, ntr), take(te, ZERO, nte)])

    @py_model(msel.KFold)
    def KFold(n_splits=5, *, shuffle=False, random_state=None):
        use('sklearn.model_selection.KFold')
        C = ctx()
        K = to_term(scal(n_splits))
        C.require(lt(ONE, K), ValueError, 'n_splits must be 2 or more')
        if not truth(shuffle):
            if random_state is not None:
                raise PyExc(ValueError, 'random_state has no effect')
        kfold_state()
        o = Opaque('KFold')
        o.attrs = {
            'n_splits': unterm(K),
            'get_n_splits': P(lambda *a, **k: unterm(K)),
            'split': P(lambda X, y=None, groups=None: kfold_iter(K, X))}
        return o

    # the code of scikit-learn that is executed as it is
    for f in ('BaseCrossValidator', 'BaseCrossValidator.split',
              'BaseCrossValidator._iter_test_masks',
              'PredefinedSplit', 'PredefinedSplit.__init__',
              'PredefinedSplit.split', 'PredefinedSplit._iter_test_masks',
              '_validate_shuffle_split'):
        interp.INTERPRET.add('%s.%s' % (ms.__name__, f))


setup_sklearn()


def setup_misc():
    def seed(v=None):
        # what the global random numbers depend on
        ctx().ghost['seed'] = ctx().ghost.get('seed', ()) + (v,)
    np_model('random.seed')(seed)
    np_model('seterr')(lambda *a, **k: PDict({}))
    np_model('ndim')(lambda a: arr(a).ndim if not is_scalar(a) else 0)
    np_model('shape')(lambda a: value_attr(arr(a), 'shape'))
    np_model('size')(lambda a, *x: unterm(arr(a).size()))
    import json
    import sys

    @py_model(json.dumps)
    def dumps(v, **kw):
        use('json.dumps')
        return Opaque('string', {'of': v})
    np_model('isscalar')(lambda a: is_scalar(a) and not isinstance(a, Arr))


setup_misc()


# --------------------------------------------------------------------------
# scipy.optimize
# --------------------------------------------------------------------------

def setup_optimize():
    import scipy.optimize as so

    @py_model(so.minimize)
    def minimize(fun=None, x0=None, args=(), method=None, jac=None, **kw):
        """the returned point is arbitrary, res.fun is fun at that point; the
        callables are called with copies of the point (they are proved pure
        by their own contracts)"""
        use('scipy.optimize.minimize: res.fun = fun(res.x, *args); x0 and '
            'args are not modified')
        C = ctx()
        if not isinstance(x0, Arr) or x0.ndim != 1:
            raise Unsupported('minimize: x0')
        if not isinstance(args, tuple):
            args = (args,)
        n = x0.shape[0]
        if x0.struct is not None:
            fields = {f: Buffer(memo1(lambda x, f=f: app(
                'opt.' + f, tuple(x), 'R')), list(b.shape), 'f')
                for f, b in x0.struct.fields.items()}
            point = Arr.make([n], lambda x: app('opt', tuple(x), 'R'), 'f')
            point.struct = Struct(n, x0.struct.dt, fields)
        else:
            point = Arr.make([n], lambda x: app('opt', tuple(x), 'R'), 'f')
        f0 = interp.call(fun, [x0] + list(args))
        f = interp.call(fun, [point] + list(args))
        C.min_call = dict(fun=fun, x0=x0, args=args, method=method, jac=jac,
                          kw=kw, f=f, f0=f0, point=point)
        a = {'x': point, 'fun': f}
        for k, srt in (('status', 'I'), ('nit', 'I'), ('nfev', 'I'),
                       ('njev', 'I'), ('success', 'B')):
            a[k] = var('res.' + k, srt)
        a['message'] = Opaque('res.message')
        return Opaque('OptimizeResult', a)


setup_optimize()


@py_model(os.path.join)
def os_path_join(*parts):
    if not all(isinstance(p, str) for p in parts):
        raise Unsupported('path of an unknown name')
    return os.path.join(*parts)
