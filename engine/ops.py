"""Operators, truth, indexing and iteration on symbolic values."""
import ast
import types
import numpy as np
from .values import *
from . import term as tm
from . import smt


class It(Value):
    """finished iterable: n (int or term) and item function"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class Iter(Obj):
    """iterator over a container, with its position"""

    def __init__(self, src):
        Obj.__init__(self, Iter, {'src': src, 'pos': ZERO})

    def items(self):
        n, f = iter_of(self.attrs['src'])
        p = to_term(self.attrs['pos'])
        if p is ZERO:
            return n, f
        if not isinstance(n, T):
            k = cint(p)
            if k is None:
                raise Unsupported('position of an iterator')
            return max(n - k, 0), lambda j: f(k + j)
        return sub(n, p), lambda j: f(add(p, to_term(j)))

    def next(self):
        n, f = iter_of(self.attrs['src'])
        p = to_term(self.attrs['pos'])
        ctx().require(lt(p, to_term(n)), StopIteration, '')
        self.attrs['pos'] = add(p, ONE)
        k = cint(p)
        return f(k if k is not None and not isinstance(n, T) else p)


# --------------------------------------------------------------------------
# conversions
# --------------------------------------------------------------------------

def dim(t):
    t = to_term(t)
    return t


def isnum(t, k=None):
    return isinstance(t, T) and t.op == 'poly' and is_num(t) and (
        k is None or numval(t) == k)


def cint(t):
    """concrete int of a term, or None"""
    if isinstance(t, (int, np.integer)) and not isinstance(t, bool):
        return int(t)
    if isnum(t) and numval(t).denominator == 1:
        return int(numval(t))
    return None


def is_listlike(v):
    return isinstance(v, (PList, tuple, SList, It, SRange, list))


def arr(v, kind=None):
    """value as array"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, np.ndarray):
        return from_numpy(v)
    if isinstance(v, VIte):
        raise Unsupported('conditional array')
    if is_scalar(v):
        t = to_term(v)
        k = kind_of(t)
        if isinstance(v, (float, np.floating)):
            k = 'f'
        return Arr.make([], lambda idx: t, k)
    if is_listlike(v):
        n, item = iter_of(v)
        if not isinstance(n, T):
            items = [arr(item(k)) if not isinstance(item(k), Arr) else item(k)
                     for k in range(n)]
            if not items:
                return Arr.make([ZERO], lambda idx: ZERO, 'f')
            nd = items[0].ndim
            if any(x.ndim != nd for x in items):
                raise Unsupported('ragged list')
            for x in items[1:]:
                for p, q in zip(x.shape, items[0].shape):
                    if p is not q and not ctx().valid(eq(p, q)):
                        raise Unsupported('ragged list')
            kind = items[0].kind
            for x in items[1:]:
                kind = join_kind(kind, x.kind)
            if any(x.fin is not None for x in items):
                raise Unsupported('list of arrays with non-finite elements')
            fs = [x.fn() for x in items]

            def content(idx):
                k = cint(idx[0])
                if k is not None and 0 <= k < n:
                    return coerce(fs[k](idx[1:]), kind)
                r = coerce(fs[-1](idx[1:]), kind)
                for k in range(n - 2, -1, -1):
                    r = ite(eq(idx[0], num(k)), coerce(fs[k](idx[1:]), kind),
                            r)
                return r
            return Arr.make([num(n)] + list(items[0].shape), memo1(content),
                            kind)
        i = fresh('i', 'I')
        ctx().scope.append(in_range([i], [n]))
        try:
            x = item(i)
            if is_listlike(x):
                item0 = item
                item = lambda t: arr(item0(t))
                x = item(i)
        finally:
            ctx().scope.pop()
        if is_scalar(x):
            t = to_term(x)
            kind = kind_of(t)
            return Arr.make([n], lambda idx: to_term(item(idx[0])), kind)
        if isinstance(x, Arr) and x.kind != 'O' and x.struct is None:
            for s in x.shape:
                if i.args[0] in fv(s):
                    raise Unsupported('ragged list')
            return Arr.make([n] + list(x.shape), memo1(
                lambda idx: item(idx[0]).read(list(idx[1:]))), x.kind)
        raise Unsupported('array of %s' % type(x).__name__)
    raise Unsupported('array of %s' % type(v).__name__)


def coerce(t, kind):
    if kind == 'f':
        return tonum(t)
    if kind == 'i':
        t = tonum(t)
        return t if t.sort == 'I' else trunc(t)
    if kind == 'b' and t.sort != 'B':
        return not_(eq(t, ZERO))
    return t


def scal(a):
    """0-d arrays become scalars"""
    if isinstance(a, Arr) and not a.shape and a.struct is None:
        return a.read([])
    return a


def nofin(a):
    if a.fin is not None:
        # all elements known to be finite?
        vs = a.vars()
        g = forall(vs, imp(in_range(vs, a.shape), a.fin(vs)))
        if ctx().valid(g):
            return
        raise Unsupported('operation on possibly non-finite elements')


def in_range(vs, shape):
    return and_(*[c for v, n in zip(vs, shape)
                  for c in (le(ZERO, v), lt(v, n))])


# --------------------------------------------------------------------------
# sums and quantifiers over (possibly selected) index ranges
# --------------------------------------------------------------------------

def sel_of(name):
    return ctx().sels.get(name)


def unselect(c, n, t):
    """if c occurs in t only as sel(c) for the selection whose size is n:
    (bound e, range n0, mask(e), t[sel(c):=e])"""
    C = ctx()
    cn = c.args[0]
    cand = None
    for a in apps_in(t):
        if a.args[0] in C.sels and len(a.args) > 1 and a.args[1] is c:
            cand = a
            break
    if cand is None:
        return None
    info = C.sels[cand.args[0]]
    par = list(cand.args[2:])
    if cn in frozenset().union(frozenset(), *[fv(p) for p in par]):
        return None
    if info.cnt(par) is not n:
        return None
    e = fresh('e', 'I')
    r = map_apps(t, lambda x: e if x is cand else None)
    if cn in fv(r):
        return None
    C.unselected = (cand.args[0], info.rank, tuple(par))
    return e, info.n(par), info.mask(e, par), r


def msum(n, f, hint='i'):
    """sum of f(i) for i < n"""
    c = fresh(hint, 'I')
    body = tonum(f(c))
    if is_num(body) and numval(body) == 0:
        return body
    u = unselect(c, n, body)
    if u is not None:
        e, n0, m, b = u
        return msum_raw(e, n0, mul(ind(m), b))
    return msum_raw(c, n, reenum(c, n, body))


def msum_raw(c, n, body):
    if n.op == 'ite' or (n.op == 'poly' and not is_num(n)):
        pass
    return sum_(c, n, body)


def reenum(c, n, body):
    """a sum over the elements of a finite set does not depend on the
    enumeration: other enumerations are replaced by the first one"""
    C = ctx()
    if not C.enums or n not in C.enums:
        return body
    for first, other in C.enums[n]:
        o = other(c)
        if any(x is o for x in apps_in(body)):
            r = map_apps(body, lambda x: first(c) if x is o else None)
            q = map_apps(body, lambda x: ZERO if x is o else None)
            if c.args[0] not in fv(q):
                return r
    return body


def mforall(dims, f):
    """for all index tuples in range: f(idx)"""
    vs = [fresh('i', 'I') for _ in dims]
    body = f(vs)
    if body is TRUE:
        return TRUE
    rng = []
    out = []
    for v, n in zip(vs, dims):
        u = unselect(v, n, body)
        if u is not None:
            e, n0, m, body = u
            rng += [le(ZERO, e), lt(e, n0), m]
            out.append(e)
        else:
            rng += [le(ZERO, v), lt(v, n)]
            out.append(v)
    return forall(out, imp(and_(*rng), body))


def mexists(dims, f):
    return not_(mforall(dims, lambda vs: not_(f(vs))))


# --------------------------------------------------------------------------
# selections
# --------------------------------------------------------------------------

class SelInfo(object):
    def __init__(self, name, rank, n, mask, params):
        self.name, self.rank = name, rank
        self._n, self._mask, self.params = n, mask, params

    def n(self, par):
        return subst(self._n, dict(zip(self.params, par)))

    def mask(self, e, par):
        w, m = self._mask
        d = dict(zip(self.params, par))
        d[w] = e
        return subst(m, d)

    def cnt(self, par):
        e = fresh('e', 'I')
        return sum_(e, self.n(par), ind(self.mask(e, par)))


def selection_counts(forms):
    """the sizes of selections that depend on parameters, as applications:
    terms with the same parameters are then equal for the solvers even where
    the sums are written differently"""
    C = ctx()
    out = {}
    if C is None or not C.sels:
        return out
    ranks = {i.rank: k for k, i in C.sels.items() if i.params}
    seen = set()
    for f in forms:
        for a in apps_in(f):
            nm = a.args[0]
            nm = nm if nm in C.sels else ranks.get(nm)
            par = a.args[2:]
            if nm is None or not par or (nm, par) in seen:
                continue
            seen.add((nm, par))
            c = C.sels[nm].cnt(par)
            if c.op == 'sum':
                out[c] = app('count' + nm[3:], tuple(par), 'I')
    return out


smt.counter = selection_counts


def selection(n, maskf, exact=False):
    """(count, sel function, rank function) of the indices e<n with maskf(e)"""
    C = ctx()
    e = fresh('e', 'I')
    m = to_term(maskf(e))
    if m is not TRUE and not exact:
        # every element may be known to be selected
        C.scope += [le(ZERO, e), lt(e, n)]
        try:
            if C.valid(m):
                m = TRUE
        finally:
            del C.scope[-2:]
    if m is TRUE:
        return n, (lambda c: c), (lambda x: x)
    name, params, new = C.symbol('sel', [([e], m), ([], n)], 'I')
    rname = 'rank' + name[3:]
    pv = [p for p in params]
    if new:
        info = SelInfo(name, rname, n, (e, m), list(params))
        C.sels[name] = info
        cnt = info.cnt(params)
        c, d, x = fresh('c', 'I'), fresh('d', 'I'), fresh('x', 'I')
        s = lambda t: app(name, [t] + pv, 'I')
        r = lambda t: app(rname, [t] + pv, 'I')
        names = {name, rname}
        C.axiom(names, forall(pv + [c], imp(
            and_(le(ZERO, c), lt(c, cnt)),
            and_(le(ZERO, s(c)), lt(s(c), n), subst(m, {e: s(c)}),
                 eq(r(s(c)), c))), (s(c),)))
        C.axiom(names, forall(pv + [c, d], imp(
            and_(le(ZERO, c), lt(c, d), lt(d, cnt)), lt(s(c), s(d))),
            (s(c), s(d))))
        C.axiom(names, forall(pv + [x], imp(
            and_(le(ZERO, x), lt(x, n), subst(m, {e: x})),
            and_(le(ZERO, r(x)), lt(r(x), cnt), eq(s(r(x)), x))),
            (r(x),)))
        C.axiom(names, forall(pv, and_(le(ZERO, cnt), imp(le(ZERO, n),
                                                        le(cnt, n)))))
    # the keyed symbol may have been made for an equal term over other
    # variables: use its own definition
    info = C.sels[name]
    cnt = info.cnt(params)

    def selt(c):
        if c.op == 'app' and c.args[0] == rname and \
                tuple(c.args[2:]) == tuple(pv):
            return c.args[1]
        return app(name, [c] + pv, 'I')

    def rank(x):
        if x.op == 'app' and x.args[0] == name and \
                tuple(x.args[2:]) == tuple(pv):
            return x.args[1]
        return app(rname, [x] + pv, 'I')
    return cnt, selt, rank


def last_writer(n, keyf, ksort):
    """dom(k): some i<n has keyf(i)=k; pos(k): the greatest such i"""
    C = ctx()
    i = fresh('i', 'I')
    k = keyf(i)
    if k is i:
        return (lambda x: and_(le(ZERO, x), lt(x, n))), (lambda x: x)
    if k.op == 'app' and k.args[0] in C.sels and k.args[1] is i and \
            i.args[0] not in frozenset().union(
                frozenset(), *[fv(p) for p in k.args[2:]]):
        info = C.sels[k.args[0]]
        par = list(k.args[2:])
        if info.cnt(par) is n:
            return (lambda x: and_(le(ZERO, x), lt(x, info.n(par)),
                                   info.mask(x, par))), \
                (lambda x: app(info.rank, [x] + par, 'I'))
    name, params, new = C.symbol('dom', [([i], k), ([], n)], 'B')
    pname = 'pos' + name[3:]
    pv = list(params)
    D = lambda x: app(name, [x] + pv, 'B')
    P = lambda x: app(pname, [x] + pv, 'I')
    if new:
        x = fresh('k', ksort)
        names = {name, pname}
        C.axiom(names, forall(pv + [x], imp(D(x), and_(
            le(ZERO, P(x)), lt(P(x), n), eq(subst(k, {i: P(x)}), x))),
            (D(x),)))
        C.axiom(names, forall(pv + [x], imp(D(x), and_(
            le(ZERO, P(x)), lt(P(x), n), eq(subst(k, {i: P(x)}), x))),
            (P(x),)))
        g = and_(D(k), le(i, P(k)))
        tr = [t for t in apps_in(k) if i.args[0] in fv(t)]
        body = imp(and_(le(ZERO, i), lt(i, n)), g)
        trg = (k,) if k.op == 'app' else tuple(
            sorted(tr, key=lambda t: t.id)[:1])
        C.axiom(names, forall(pv + [i], body, trg))
    return D, P


# --------------------------------------------------------------------------
# truth, comparison, arithmetic
# --------------------------------------------------------------------------

def truth(v):
    if v is None:
        return False
    if isinstance(v, T):
        if v.sort == 'B':
            if v is TRUE:
                return True
            if v is FALSE:
                return False
            return v
        if v.sort in 'IR':
            r = not_(eq(v, ZERO))
            return True if r is TRUE else False if r is FALSE else r
        raise Unsupported('truth of an id')
    if isinstance(v, (bool, int, float, str, np.generic)):
        return bool(v)
    if isinstance(v, PList):
        return bool(v.items)
    if isinstance(v, PDict):
        return bool(v.items)
    if isinstance(v, tuple):
        return bool(v)
    if isinstance(v, SList):
        return truth(lt(ZERO, v.n))
    if isinstance(v, Arr):
        if not v.shape:
            return truth(v.read([]))
        if all(isnum(s, 1) for s in v.shape):
            return truth(v.read([ZERO] * v.ndim))
        raise PyExc(ValueError, 'truth value of an array')
    if isinstance(v, VIte):
        a, b = truth(v.a), truth(v.b)
        return truth(ite(v.c, to_term(a), to_term(b)))
    if isinstance(v, (Havoc, Undef)):
        raise Unsupported('truth of an unknown value')
    return True


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = None
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if isnum(d, 1):
                if cur is None:
                    cur = d
                continue
            if cur is None or isnum(cur, 1):
                cur = d
            elif cur is not d:
                if ctx().valid(eq(cur, d)):
                    continue
                if isnum(cur) and isnum(d):
                    raise PyExc(ValueError, 'operands could not be broadcast')
                if ctx().valid(not_(eq(cur, d))) and ctx().valid(and_(
                        not_(eq(cur, ONE)), not_(eq(d, ONE)))):
                    raise PyExc(ValueError, 'operands could not be broadcast')
                C = ctx()
                if C.in_loop:
                    raise Unsupported('broadcast of %s and %s' % (
                        show(cur), show(d)))
                if C.branch(eq(cur, d)):
                    continue
                if C.branch(eq(d, ONE)):
                    continue
                if C.branch(eq(cur, ONE)):
                    cur = d
                    continue
                raise PyExc(ValueError, 'operands could not be broadcast')
        out.append(cur)
    return out


def breader(a, shape):
    """reader of a broadcast to shape"""
    f = a.fn()
    nd = len(shape)
    off = nd - a.ndim
    ones = [(isnum(d, 1) and not isnum(shape[off + k], 1)) or
            (d is not shape[off + k] and not isnum(d) and
             ctx().valid(eq(d, ONE)))
            for k, d in enumerate(a.shape)]
    if not any(ones) and not off:
        return f

    def g(idx):
        return f([ZERO if ones[k] else idx[off + k]
                  for k in range(a.ndim)])
    return g


def elementwise(f, kind, *vs):
    """f on terms; kind: result kind or function of the kinds"""
    if all(is_scalar(v) for v in vs):
        return f(*[to_term(v) for v in vs])
    As = [arr(v) for v in vs]
    for a in As:
        nofin(a)
        if a.kind in 'OU' and kind != 'b':
            raise Unsupported('arithmetic on objects')
    shape = bshape([a.shape for a in As])
    rs = [breader(a, shape) for a in As]
    ks = [a.kind for a in As]
    k = kind(*ks) if callable(kind) else kind
    if not shape:
        return f(*[r([]) for r in rs])
    return Arr.make(shape, memo1(lambda idx: f(*[r(idx) for r in rs])), k)


def numkind(*ks):
    k = 'i'
    for x in ks:
        if x not in 'bif':
            raise Unsupported('arithmetic on ids')
        k = join_kind(k, x)
    return k


def is_float(v):
    return isinstance(v, (float, np.floating)) or (
        isinstance(v, T) and v.sort == 'R')


def t_div(a, b):
    a, b = tonum(a), tonum(b)
    if isnum(b, 0):
        raise Unsupported('division by zero')
    return div(a, b)


def t_pow(a, b):
    a = tonum(a)
    k = cint(b) if isinstance(b, T) else b
    if k is None:
        if isnum(b) and numval(b) * 2 == 1:
            return app('sqrt', (a,), 'R')
        raise Unsupported('symbolic power')
    if k >= 0:
        return powi(a, k)
    return powi(inv(a), -k)


def t_floordiv(a, b):
    a, b = tonum(a), tonum(b)
    if a.sort == 'I' and b.sort == 'I':
        return idiv(a, b)
    return floor(div(a, b))


def t_mod(a, b):
    a, b = tonum(a), tonum(b)
    if a.sort == 'I' and b.sort == 'I':
        if not ctx().valid(lt(ZERO, b)):
            raise Unsupported('modulus of unknown sign')
        return mod(a, b)
    return sub(a, mul(b, floor(div(a, b))))


def t_and(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return and_(a, b)
    raise Unsupported('bit operation')


def t_or(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return or_(a, b)
    raise Unsupported('bit operation')


def t_xor(a, b):
    if a.sort == 'B' and b.sort == 'B':
        return not_(eq(a, b))
    raise Unsupported('bit operation')


BIN = {
    ast.Add: (lambda a, b: add(tonum(a), tonum(b)), numkind),
    ast.Sub: (lambda a, b: sub(tonum(a), tonum(b)), numkind),
    ast.Mult: (lambda a, b: mul(tonum(a), tonum(b)), numkind),
    ast.Div: (t_div, 'f'),
    ast.Pow: (t_pow, numkind),
    ast.FloorDiv: (t_floordiv, numkind),
    ast.Mod: (t_mod, numkind),
    ast.BitAnd: (t_and, 'b'),
    ast.BitOr: (t_or, 'b'),
    ast.BitXor: (t_xor, 'b'),
}


def concrete(v):
    return isinstance(v, (bool, int, float)) and not isinstance(v, T)


PYBIN = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
         ast.Mult: lambda a, b: a * b, ast.FloorDiv: lambda a, b: a // b,
         ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b,
         ast.Div: lambda a, b: a / b}


def binop(op, a, b):
    t = type(op)
    a, b = scal(a), scal(b)
    if isinstance(a, VIte):
        return vite(a.c, binop(op, a.a, b), binop(op, a.b, b))
    if isinstance(b, VIte):
        return vite(b.c, binop(op, a, b.a), binop(op, a, b.b))
    if isinstance(a, str) or isinstance(b, str) or isinstance(
            a, T) and a.sort == 'U':
        if t is ast.Add and isinstance(a, str) and isinstance(b, str):
            return a + b
        if t is ast.Mod and isinstance(a, str):
            return Opaque('formatted string')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('string')
        if t is ast.Add and isinstance(a, (T, str)) and isinstance(
                b, (T, str)) and to_term(a).sort == to_term(b).sort == 'U':
            return app('concat', (to_term(a), to_term(b)), 'U')
        raise Unsupported('string operation')
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        o = a if isinstance(a, Opaque) else b
        if '__binop__' in o.attrs:
            return o.attrs['__binop__'](op, a, b)
        return Opaque('result')
    if t is ast.Add and isinstance(a, PList) and isinstance(b, PList):
        return PList(a.items + b.items)
    if t is ast.Add and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if t is ast.Mult and isinstance(a, PList) and cint(b) is not None:
        return PList(a.items * cint(b))
    if t is ast.Mult and isinstance(b, PList) and cint(a) is not None:
        return PList(b.items * cint(a))
    if t is ast.Mult and isinstance(a, PList) and len(a.items) == 1 and \
            isinstance(b, T) and b.sort == 'I':
        v = a.items[0]
        return SList(b, lambda i: v)
    if t is ast.MatMult:
        from .nplib import dot
        return dot(a, b)
    if concrete(a) and concrete(b) and isinstance(a, int) and isinstance(
            b, int):
        if t in (ast.Div, ast.FloorDiv, ast.Mod) and b == 0:
            raise PyExc(ZeroDivisionError, 'division')
        if t is ast.Div:
            return unterm(div(num(a), num(b)))
        if t in PYBIN and not (t is ast.Pow and b < 0):
            return PYBIN[t](a, b)
        if t is ast.BitAnd:
            return a & b
        if t is ast.BitOr:
            return a | b
    if t not in BIN:
        raise Unsupported('operator ' + t.__name__)
    f, kind = BIN[t]
    if t is ast.Div:
        isfinite_div(b)
    if (isinstance(a, PList) or isinstance(b, PList)) and not (
            isinstance(a, Arr) or isinstance(b, Arr)):
        raise Unsupported('list arithmetic')
    r = elementwise(f, kind, a, b)
    return r


def isfinite_div(b):
    """the denominator is not zero (recorded as an obligation)"""
    C = ctx()
    if not C.check_div:
        return
    if is_scalar(b):
        c = not_(eq(tonum(to_term(b)), ZERO))
    else:
        b = arr(b)
        c = mforall(b.shape, lambda vs: not_(eq(tonum(b.read(vs)), ZERO)))
    if c is TRUE:
        return
    C.oblige('denominator is not zero', c)


def domain(what, v, cond):
    """obligation: every element of v satisfies cond"""
    C = ctx()
    if not C.check_div:
        return
    v = scal(v)
    if is_scalar(v):
        c = cond(tonum(to_term(v)))
    else:
        v = arr(v)
        c = mforall(v.shape, lambda vs: cond(tonum(v.read(vs))))
    if c is not TRUE:
        C.oblige(what, c)


def inplace(op, a, b):
    if isinstance(a, Arr) and a.ndim:
        r = binop(op, a, b)
        if a.struct is not None:
            raise Unsupported('in-place operation on a structured vector')
        r = arr(r)
        if a.kind == 'i' and r.kind == 'f' or a.kind == 'b' and \
                r.kind != 'b':
            raise PyExc(TypeError, 'cannot cast ufunc output')
        f = breader(r, a.shape)
        if r.ndim > a.ndim:
            raise PyExc(ValueError, 'non-broadcastable output')
        a.assign(f)
        return a
    if isinstance(a, PList) and isinstance(op, ast.Add):
        n, item = iter_of(b)
        if isinstance(n, T):
            raise Unsupported('list extension of symbolic length')
        a.items = a.items + [item(k) for k in range(n)]
        return a
    return binop(op, a, b)


def unop(op, a):
    a = scal(a)
    if isinstance(op, ast.Not):
        t = truth(a)
        return not_(t) if isinstance(t, T) else not t
    if isinstance(op, ast.USub):
        if concrete(a):
            return -a
        return elementwise(lambda x: neg(tonum(x)), numkind, a)
    if isinstance(op, ast.UAdd):
        return a
    if isinstance(op, ast.Invert):
        def f(x):
            if x.sort != 'B':
                raise Unsupported('bit operation')
            return not_(x)
        return elementwise(f, 'b', a)
    raise Unsupported('operator')


def t_lt(a, b):
    if a.sort == 'E' and b.sort == 'E':
        return ltE(a, b)
    if a.sort in 'EU' or b.sort in 'EU':
        raise Unsupported('order on mixed values')
    return lt(tonum(a), tonum(b))


def t_eq(a, b):
    if a.sort != b.sort and (a.sort in 'EU' or b.sort in 'EU'):
        raise Unsupported('comparison of mixed values')
    return eq(a, b)


CMP = {
    ast.Lt: t_lt, ast.Gt: lambda a, b: t_lt(b, a),
    ast.LtE: lambda a, b: not_(t_lt(b, a)),
    ast.GtE: lambda a, b: not_(t_lt(a, b)),
    ast.Eq: t_eq, ast.NotEq: lambda a, b: not_(t_eq(a, b)),
}

PYCMP = {ast.Lt: lambda a, b: a < b, ast.Gt: lambda a, b: a > b,
         ast.LtE: lambda a, b: a <= b, ast.GtE: lambda a, b: a >= b,
         ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}


def same(a, b):
    """identity; a term when conditional"""
    if isinstance(a, VIte):
        return ite(a.c, to_term(same(a.a, b)), to_term(same(a.b, b)))
    if isinstance(b, VIte):
        return same(b, a)
    if isinstance(a, (Havoc, Undef)) or isinstance(b, (Havoc, Undef)):
        raise Unsupported('identity of an unknown value')
    if a is None or b is None:
        if isinstance(a, Opaque) and '__maybe_none__' in a.attrs:
            return a.attrs['__maybe_none__']
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a is b
    if isinstance(a, T) or isinstance(b, T):
        raise Unsupported('identity of numbers')
    return a is b


def contains(c, x):
    if isinstance(c, (PList, tuple)):
        items = c.items if isinstance(c, PList) else c
        r = False
        for y in items:
            e = compare(ast.Eq(), y, x)
            e = truth(e)
            if e is True:
                return True
            if e is not False:
                r = e if r is False else or_(r, e)
        return r
    if isinstance(c, PDict):
        if isinstance(x, T):
            r = FALSE
            for k in c.items:
                r = or_(r, to_term(compare(ast.Eq(), k, x)))
            return r
        return x in c.items
    if isinstance(c, SDict):
        return c.dom(to_term(x))
    if isinstance(c, Arr):
        t = to_term(x)
        return mexists(c.shape, lambda vs: t_eq(c.read(vs), t))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, SList):
        return mexists([c.n], lambda vs: to_term(compare(
            ast.Eq(), c.fn(vs[0]), x)))
    if isinstance(c, VIte):
        return ite(c.c, to_term(contains(c.a, x)),
                   to_term(contains(c.b, x)))
    raise Unsupported('membership in %s' % type(c).__name__)


def compare(op, a, b):
    t = type(op)
    if t is ast.Is:
        return same(a, b)
    if t is ast.IsNot:
        r = same(a, b)
        return not_(r) if isinstance(r, T) else not r
    if t is ast.In:
        return contains(b, a)
    if t is ast.NotIn:
        r = contains(b, a)
        return not_(r) if isinstance(r, T) else not r
    a, b = scal(a), scal(b)
    if isinstance(a, VIte):
        return ite(a.c, to_term(compare(op, a.a, b)),
                   to_term(compare(op, a.b, b)))
    if isinstance(b, VIte):
        return ite(b.c, to_term(compare(op, a, b.a)),
                   to_term(compare(op, a, b.b)))
    eqop = t in (ast.Eq, ast.NotEq)
    if eqop:
        r = None
        if a is None or b is None:
            if not (isinstance(a, Arr) or isinstance(b, Arr)):
                r = a is b
        elif isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                r = a == b
            elif is_scalar(a) and not (isinstance(a, T) and a.sort == 'U') \
                    or is_scalar(b) and not (isinstance(b, T) and
                                             b.sort == 'U'):
                r = False
        elif isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                r = False
            else:
                ia = a.items if isinstance(a, PList) else a
                ib = b.items if isinstance(b, PList) else b
                if len(ia) != len(ib):
                    r = False
                else:
                    acc = TRUE
                    for x, y in zip(ia, ib):
                        acc = and_(acc, to_term(truth(compare(
                            ast.Eq(), x, y))))
                    r = unterm(acc)
        elif isinstance(a, (type, Obj, SymDtype)) or isinstance(
                b, (type, Obj)):
            r = a is b
        if r is not None:
            if t is ast.NotEq:
                return not_(r) if isinstance(r, T) else not r
            return r
    if concrete(a) and concrete(b):
        return PYCMP[t](a, b)
    if is_scalar(a) and is_scalar(b) or isinstance(a, (Arr, PList)) or \
            isinstance(b, (Arr, PList)) or isinstance(a, str) or isinstance(
                b, str):
        return elementwise(CMP[t], 'b', a, b)
    raise Unsupported('comparison of %s and %s' % (type(a).__name__,
                                                   type(b).__name__))


# --------------------------------------------------------------------------
# iteration
# --------------------------------------------------------------------------

def iter_of(v):
    if isinstance(v, Iter):
        r = v.items()
        v.attrs['pos'] = to_term(iter_of(v.attrs['src'])[0])
        return r
    if hasattr(v, 'vkey'):
        return v.items()
    if isinstance(v, PList):
        return len(v.items), lambda k: v.items[k]
    if isinstance(v, (tuple, list)):
        return len(v), lambda k: v[k]
    if isinstance(v, (SList, It)):
        n = v.n
        if isinstance(n, T):
            k = cint(n)
            if k is not None:
                return k, lambda i: v.fn(num(i))
        return n, v.fn
    if isinstance(v, SRange):
        n = sub(v.hi, v.lo)
        k = cint(n)
        lo = v.lo
        if k is not None:
            return max(k, 0), lambda i: unterm(add(lo, num(i)))
        return n, lambda i: add(lo, i)
    if isinstance(v, range):
        return len(v), lambda k: v[k]
    if isinstance(v, Arr):
        if v.struct is not None:
            raise Unsupported('iteration over a structured vector')
        if not v.shape:
            raise PyExc(TypeError, 'iteration over a 0-d array')
        n = cint(v.shape[0])

        def item(i):
            return index_view(v, [to_term(i)])
        return (n if n is not None else v.shape[0]), item
    if isinstance(v, PDict):
        ks = list(v.items)
        return len(ks), lambda k: ks[k]
    if isinstance(v, SDict):
        if v.order is None:
            raise Unsupported('iteration over a dictionary')
        n, f = v.order
        return n, f
    if isinstance(v, Opaque) and '__iter__' in v.attrs:
        return v.attrs['__iter__']
    if isinstance(v, str):
        return len(v), lambda k: v[k]
    if isinstance(v, dict):
        ks = list(v)
        return len(ks), lambda k: ks[k]
    raise Unsupported('iteration over %s' % type(v).__name__)


def unpack(v, n):
    if isinstance(v, VIte):
        return [vite(v.c, x, y) for x, y in zip(unpack(v.a, n),
                                                unpack(v.b, n))]
    k, item = iter_of(v)
    if isinstance(k, T):
        if not ctx().valid(eq(k, num(n))):
            raise Unsupported('unpacking of symbolic length')
        return [item(num(i)) for i in range(n)]
    if k != n:
        raise PyExc(ValueError, 'unpacking')
    return [item(i) for i in range(n)]


# --------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------

def norm_index(i, n, what='index'):
    """index term within 0..n-1 (negative values count from the end)"""
    C = ctx()
    i = to_term(i)
    if i.sort != 'I':
        if i.sort == 'R':
            raise PyExc(IndexError, 'float index')
        raise Unsupported('index of sort ' + i.sort)
    k = cint(i)
    if k is not None:
        if k < 0:
            C.require(le(neg(i), n), IndexError, what + ' out of range')
            return add(n, i)
        C.require(lt(i, n), IndexError, what + ' out of range')
        return i
    C.require(and_(le(neg(n), i), lt(i, n)), IndexError,
              what + ' out of range')
    if C.valid(le(ZERO, i)):
        return i
    if C.valid(lt(i, ZERO)):
        return add(i, n)
    return ite(lt(i, ZERO), add(i, n), i)


def slice_bounds(s, n):
    """(lo, length) of a slice with step 1"""
    C = ctx()
    if s.step is not None and cint(s.step) != 1:
        return None

    def fix(x, default):
        if x is None:
            return default
        x = to_term(x)
        k = cint(x)
        if k is not None:
            if k < 0:
                r = add(n, x)
                return r if C.valid(le(ZERO, r)) else ite(le(ZERO, r), r,
                                                          ZERO)
            if k == 0:
                return ZERO
            return x if C.valid(le(x, n)) else ite(le(x, n), x, n)
        if C.valid(and_(le(ZERO, x), le(x, n))):
            return x
        y = ite(lt(x, ZERO), add(x, n), x)
        y = ite(lt(y, ZERO), ZERO, y)
        return ite(lt(n, y), n, y)
    lo = fix(s.lo, ZERO)
    hi = fix(s.hi, n)
    ln = sub(hi, lo)
    if not C.valid(le(ZERO, ln)):
        ln = ite(le(ZERO, ln), ln, ZERO)
    return lo, ln


def key_list(key):
    if isinstance(key, tuple):
        return list(key)
    return [key]


def is_adv(k):
    return isinstance(k, Arr) and k.ndim > 0 or isinstance(
        k, (PList, SList, np.ndarray)) or isinstance(k, It)


def index_view(a, keys):
    """basic indexing: ints, slices, None"""
    ellipsis = [x for x in keys if x is Ellipsis]
    if ellipsis:
        k = [x is Ellipsis for x in keys].index(True)
        fill = a.ndim - sum(1 for x in keys if x is not None) + 1
        keys = keys[:k] + [SL()] * fill + keys[k + 1:]
    nreal = sum(1 for x in keys if x is not None)
    if nreal > a.ndim:
        raise PyExc(IndexError, 'too many indices')
    keys = keys + [SL()] * (a.ndim - nreal)
    # per old dimension: ('f', term) or ('d', new dim, offset)
    mp = []
    shape = []
    d = 0
    for k in keys:
        if k is None:
            shape.append(ONE)
            continue
        n = a.shape[d]
        if type(k).__name__ == 'Slice':
            lo, ln = ZERO, n
            if not (k.lo is None and k.hi is None and k.step is None):
                sb = slice_bounds(k, n)
                if sb is None:
                    if cint(k.step) == -1 and k.lo is None and k.hi is None:
                        raise Unsupported('reversed view')
                    raise Unsupported('slice with a step')
                lo, ln = sb
            mp.append(('d', len(shape), lo))
            shape.append(ln)
        else:
            mp.append(('f', norm_index(k, n)))
        d += 1
    fin = None
    if a.fin is not None:
        f0 = a.fin

        def fin(idx):
            return f0([m[1] if m[0] == 'f' else add(idx[m[1]], m[2])
                       for m in mp])
    vmap = []
    for m in a.vmap:
        if m[0] == 'f':
            vmap.append(m)
            continue
        q = mp[m[1]]
        if q[0] == 'f':
            vmap.append(('f', add(m[2], q[1]) if m[2] is not ZERO else q[1]))
        else:
            vmap.append(('d', q[1], add(m[2], q[2])))
    r = Arr(a.buf, vmap, shape, a.kind, fin)
    if not shape:
        if fin is not None:
            c = fin([])
            if not ctx().valid(c):
                raise Unsupported('possibly non-finite element')
        v = r.read([])
        if isinstance(v, (Havoc, Undef)):
            raise Unsupported('unknown content')
        return v
    return r


def SL():
    from .interp import Slice
    return Slice(None, None, None)


def adv_plan(a, keys):
    """analysis of an index with arrays: list per old dimension"""
    keys = [arr(k) if is_adv(k) else k for k in keys]
    if any(k is Ellipsis for k in keys):
        k = [x is Ellipsis for x in keys].index(True)
        used = sum(0 if x is None or x is Ellipsis else
                   x.ndim if isinstance(x, Arr) and x.kind == 'b' else 1
                   for x in keys)
        keys = keys[:k] + [SL()] * (a.ndim - used) + keys[k + 1:]
    nreal = sum(0 if k is None else (k.ndim if isinstance(k, Arr) and
                                     k.kind == 'b' else 1) for k in keys)
    if nreal > a.ndim:
        raise PyExc(IndexError, 'too many indices')
    return keys + [SL()] * (a.ndim - nreal)


def check_index_array(ia, n):
    """all elements in -n..n-1; returns function making them non-negative"""
    C = ctx()
    C.require(mforall(ia.shape, lambda vs: and_(
        le(neg(n), ia.read(vs)), lt(ia.read(vs), n))), IndexError,
        'index out of range')
    nonneg = mforall(ia.shape, lambda vs: le(ZERO, ia.read(vs)))
    if C.valid(nonneg):
        return lambda t: t
    return lambda t: ite(lt(t, ZERO), add(t, n), t)


def getitem_adv(a, keys):
    C = ctx()
    if a.struct is not None:
        raise Unsupported('index into a structured vector')
    keys = adv_plan(a, keys)
    # boolean mask of several dimensions
    bools = [k for k in keys if isinstance(k, Arr) and k.kind == 'b']
    if bools and bools[0].ndim > 1:
        raise Unsupported('boolean index of several dimensions')
    base = a.fn()
    fin0 = a.fin
    # broadcast shape of the advanced part
    advs = []
    d = 0
    plan = []
    pos = []
    for j, k in enumerate(keys):
        if k is None:
            plan.append(('new',))
            continue
        n = a.shape[d]
        d += 1
        if isinstance(k, Arr):
            if k.kind == 'b':
                if k.shape[0] is not n and not C.valid(eq(k.shape[0], n)):
                    C.require(eq(k.shape[0], n), IndexError,
                              'boolean index of another length')
                kf = k.fn()
                cnt, sel, rank = selection(n, lambda e: kf([e]))
                plan.append(('adv', len(advs)))
                advs.append(([cnt], lambda idx, sel=sel: sel(idx[0])))
            elif k.kind == 'i':
                if not k.ndim:
                    t = norm_index(k.read([]), n)
                    plan.append(('adv', len(advs)))
                    advs.append(([], lambda idx, t=t: t))
                else:
                    fix = check_index_array(k, n)
                    kf = k.fn()
                    plan.append(('adv', len(advs)))
                    advs.append((list(k.shape),
                                 lambda idx, kf=kf, fix=fix: fix(kf(idx))))
            elif isnum(k.shape[0], 0):
                plan.append(('adv', len(advs)))
                advs.append(([ZERO], lambda idx: ZERO))
            else:
                raise PyExc(IndexError, 'arrays used as indices must be of '
                            'integer (or boolean) type')
            pos.append(j)
        elif type(k).__name__ == 'Slice':
            lo, ln = ZERO, n
            if not (k.lo is None and k.hi is None and k.step is None):
                sb = slice_bounds(k, n)
                if sb is None:
                    raise Unsupported('slice with a step')
                lo, ln = sb
            plan.append(('slice', lo, ln))
        else:
            t = norm_index(k, n)
            plan.append(('adv', len(advs)))
            advs.append(([], lambda idx, t=t: t))
            pos.append(j)
    bsh = bshape([s for s, f in advs])
    nb = len(bsh)

    def advreader(k):
        s, f = advs[k]
        off = nb - len(s)
        ones = [isnum(x, 1) and not isnum(bsh[off + q], 1)
                for q, x in enumerate(s)]
        return lambda bi: f([ZERO if ones[q] else bi[off + q]
                             for q in range(len(s))])
    ar = [advreader(k) for k in range(len(advs))]
    adjacent = pos == list(range(pos[0], pos[-1] + 1))
    shape = []
    where = []          # per plan entry: (kind, start)
    if not adjacent:
        shape += bsh
        bstart = 0
    else:
        bstart = None
    for j, p in enumerate(plan):
        if p[0] == 'new':
            where.append(None)
            shape.append(ONE)
        elif p[0] == 'slice':
            where.append(len(shape))
            shape.append(p[2])
        else:
            if bstart is None:
                bstart = len(shape)
                shape += bsh
            where.append(None)

    def old_index(idx):
        bi = list(idx[bstart:bstart + nb])
        out = []
        for j, p in enumerate(plan):
            if p[0] == 'new':
                continue
            if p[0] == 'slice':
                out.append(add(p[1], idx[where[j]]))
            else:
                out.append(ar[p[1]](bi))
        return out
    fin = None
    if fin0 is not None:
        fin = lambda idx: fin0(old_index(idx))
    r = Arr.make(shape, memo1(lambda idx: base(old_index(idx))), a.kind, fin)
    if not shape:
        return r.read([])
    return r


def getitem(o, key):
    C = ctx()
    if isinstance(o, VIte):
        # resolve when the condition is known; otherwise both
        d = C.decide(o.c)
        if d is not None:
            return getitem(o.a if d else o.b, key)
        if C.in_loop:
            return vite(o.c, getitem(o.a, key), getitem(o.b, key))
        return getitem(o.a if C.choose(o.c) else o.b, key)
    if isinstance(key, VIte):
        d = C.branch(key.c)
        return getitem(o, key.a if d else key.b)
    if isinstance(key, Arr) and not key.shape:
        key = key.read([])
    if isinstance(key, tuple):
        key = tuple(scal(k) for k in key)
    if isinstance(o, Arr):
        if isinstance(key, str):
            return field(o, key)
        keys = key_list(key)
        if any(isinstance(k, VIte) for k in keys):
            raise Unsupported('conditional index')
        if any(is_adv(k) for k in keys):
            return getitem_adv(o, keys)
        if any(isinstance(k, bool) or isinstance(k, T) and k.sort == 'B'
               for k in keys):
            raise Unsupported('boolean scalar index')
        if o.struct is not None:
            if len(keys) == 1 and type(keys[0]).__name__ == 'Slice' and \
                    keys[0].lo is None and keys[0].hi is None:
                return o
            raise Unsupported('flat access to a structured vector')
        return index_view(o, keys)
    if isinstance(o, StructView):
        return o.get(key)
    if isinstance(o, PList) or isinstance(o, tuple):
        items = o.items if isinstance(o, PList) else o
        if type(key).__name__ == 'Slice':
            f = lambda x: None if x is None else cint(x)
            if any(x is not None and cint(x) is None
                   for x in (key.lo, key.hi, key.step)):
                raise Unsupported('symbolic slice of a list')
            r = items[f(key.lo):f(key.hi):f(key.step)]
            return PList(r) if isinstance(o, PList) else tuple(r)
        k = cint(key)
        if k is not None:
            if not -len(items) <= k < len(items):
                raise PyExc(IndexError, 'list index')
            return items[k]
        if isinstance(key, T) and key.sort == 'I':
            i = norm_index(key, num(len(items)))
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = vite(eq(i, num(k)), items[k], r)
            return r
        raise PyExc(TypeError, 'list indices must be integers')
    if isinstance(o, SList):
        if type(key).__name__ == 'Slice':
            lo, ln = slice_bounds(key, o.n)
            f = o.fn
            return SList(ln, lambda i: f(add(lo, to_term(i))))
        return o.fn(norm_index(key, o.n))
    if isinstance(o, PDict):
        if isinstance(key, T):
            if key.op == 'const':
                return getitem(o, key.args[0])
            if isinstance(unterm(key), T):
                s = SDict(None, None)
                s.load(DState.of(o.items, key.sort))
                return getitem(s, key)
            key = unterm(key)
        if isinstance(key, Opaque):
            raise Unsupported('symbolic key')
        if key not in o.items:
            raise PyExc(KeyError, str(key))
        return o.items[key]
    if isinstance(o, SDict):
        k = to_term(key)
        C.require(o.dom(k), KeyError, 'key')
        return o.val(k)
    if isinstance(o, SRange):
        n = sub(o.hi, o.lo)
        return add(o.lo, norm_index(key, n))
    if isinstance(o, Opaque) and '__getitem__' in o.attrs:
        return o.attrs['__getitem__'](key)
    if isinstance(o, Opaque):
        raise Unsupported('item of ' + o.name)
    if isinstance(o, (Havoc, Undef)):
        raise Unsupported('item of an unknown value')
    if o is None:
        raise PyExc(TypeError, 'None is not subscriptable')
    if isinstance(o, str):
        k = cint(key)
        if k is None:
            raise Unsupported('string index')
        return o[k]
    from .nplib import special_getitem
    r = special_getitem(o, key)
    if r is not NotImplemented:
        return r
    raise Unsupported('item of %s' % type(o).__name__)


def field(o, name):
    """field of a record array: o.tag = {'fields': {name: Arr}}"""
    if o.tag and 'fields' in o.tag:
        if name not in o.tag['fields']:
            raise PyExc(ValueError, 'no field of name ' + name)
        return o.tag['fields'][name]
    raise Unsupported('field of an array')


class StructView(Value):
    """coef.view(dtype)"""

    def __init__(self, base):
        self.base = base

    def get(self, key):
        s = self.base.struct
        if isinstance(key, str):
            if key not in s.fields:
                raise PyExc(ValueError, 'no field of name ' + key)
            b = s.fields[key]
            # leading dimension of length one
            return Arr(b, [('d', k + 1, ZERO) for k in range(b.ndim)],
                       [ONE] + list(b.shape), b.kind)
        if cint(key) == 0:
            return StructRow(self.base)
        raise Unsupported('index of a structured view')


class StructRow(Value):
    def __init__(self, base):
        self.base = base


def setitem(o, key, v):
    C = ctx()
    if isinstance(o, VIte):
        d = C.branch(o.c)
        return setitem(o.a if d else o.b, key, v)
    if isinstance(o, Opaque) and '__setitem__' in o.attrs:
        o.attrs['__setitem__'](key, v)
        return
    if isinstance(o, PDict):
        if isinstance(key, Arr):
            key = to_term(key)
        if isinstance(key, T) and isinstance(unterm(key), T) and \
                not (key.op == 'const' and key.sort == 'U'):
            o.symbolic(key.sort)
            setitem(o, key, v)
            return
        if isinstance(key, T):
            key = key.args[0] if key.op == 'const' else unterm(key)
        if isinstance(key, Opaque):
            raise Unsupported('symbolic key')
        o.items[key] = v
        return
    if isinstance(o, SDict):
        if o.frozen:
            raise Unsupported('write to a dictionary in a container')
        k0 = to_term(key)
        dom, val, n, order = o.state
        d2 = lambda k: or_(eq(k, k0), dom(k))

        def v2(k):
            c = eq(k, k0)
            if c is TRUE or dom(k) is FALSE:
                return v
            w = val(k)
            return v if w is UNDEF else vite(c, v, w)
        o.state = (d2, v2, None, None)
        o.log = o.log + ((TRUE, k0, v),)
        return
    if isinstance(o, PList):
        k = cint(key)
        if k is None:
            i = norm_index(key, num(len(o.items)))
            o.items = [vite(eq(i, num(j)), v, x)
                       for j, x in enumerate(o.items)]
            return
        if not -len(o.items) <= k < len(o.items):
            raise PyExc(IndexError, 'list index')
        o.items[k] = v
        return
    if isinstance(o, Arr):
        return setitem_arr(o, key, v)
    if isinstance(o, Opaque) and '__setitem__' in o.attrs:
        return o.attrs['__setitem__'](key, v)
    raise Unsupported('item assignment to %s' % type(o).__name__)


def value_for(a_kind, shape, v):
    """reader of v broadcast to shape"""
    if a_kind == 'O' and not isinstance(v, Arr):
        if isinstance(v, (PList, SList)):
            raise Unsupported('list assigned to an object array')
        return lambda idx: v
    va = arr(v)
    nofin(va)
    # numpy drops leading dimensions of length one
    while va.ndim > len(shape) and isnum(va.shape[0], 1):
        va = index_view(va, [ZERO])
        va = arr(va)
    if va.ndim > len(shape):
        raise PyExc(ValueError, 'could not broadcast')
    off = len(shape) - va.ndim
    for k in range(va.ndim):
        d, s = va.shape[k], shape[off + k]
        if d is s or isnum(d, 1):
            continue
        ctx().require(eq(d, s), ValueError, 'could not broadcast')
    return breader(va, shape)


def setitem_arr(o, key, v):
    C = ctx()
    if isinstance(key, Arr) and not key.shape:
        key = key.read([])
    keys = key_list(key)
    keys = [scal(k) if isinstance(k, Arr) else k for k in keys]
    if o.struct is not None:
        k = keys[0]
        if len(keys) == 1 and type(k).__name__ == 'Slice' and k.lo is None \
                and k.hi is None and k.step is None:
            if isinstance(v, Arr) and v.struct is not None and \
                    o.struct.dt.same(v.struct.dt):
                for n, b in o.struct.fields.items():
                    src = v.struct.fields[n]
                    w = Arr(src, [('d', q, ZERO) for q in range(src.ndim)],
                            list(src.shape), src.kind)
                    d = Arr(b, [('d', q, ZERO) for q in range(b.ndim)],
                            list(b.shape), b.kind)
                    d.assign(w.fn())
                return
            if is_scalar(v):
                t = to_term(v)
                for n, b in o.struct.fields.items():
                    d = Arr(b, [('d', q, ZERO) for q in range(b.ndim)],
                            list(b.shape), b.kind)
                    d.assign(lambda idx: t)
                return
        raise Unsupported('write to a structured vector')
    if not any(is_adv(k) for k in keys):
        if any(isinstance(k, bool) or isinstance(k, T) and k.sort == 'B'
               for k in keys):
            raise Unsupported('boolean scalar index')
        if o.kind == 'O':
            if len(keys) == 1 and o.ndim == 1 and type(
                    keys[0]).__name__ != 'Slice' and keys[0] is not None:
                i = norm_index(keys[0], o.shape[0])
                sub_ = Arr(o.buf, [m if m[0] == 'f' else
                                   ('f', add(m[2], i)) for m in o.vmap], [],
                           'O')
                if isinstance(v, Arr):
                    v = snap(v)
                sub_.assign(lambda idx: v)
                return
            raise Unsupported('write to an object array')
        nint = [k for k in keys if not (type(k).__name__ == 'Slice' or
                                        k is None or k is Ellipsis)]
        if len(nint) == o.ndim:
            idx = [norm_index(k, n) for k, n in zip(nint, o.shape)]
            vm = []
            for m in o.vmap:
                vm.append(m if m[0] == 'f' else ('f', add(m[2], idx[m[1]])))
            view = Arr(o.buf, vm, [], o.kind, o.fin)
            f = value_for(o.kind, [], v)
            view.assign(f)
            return
        view = index_view(o, keys)
        f = value_for(view.kind, view.shape, v)
        view.assign(f)
        return
    # advanced assignment: one array on one axis, slices elsewhere
    keys = adv_plan(o, keys)
    if any(k is None for k in keys):
        raise Unsupported('newaxis in an assignment')
    adv = [j for j, k in enumerate(keys) if isinstance(k, Arr)]
    if len(adv) == 1 and all(type(k).__name__ == 'Slice'
                             for j, k in enumerate(keys) if j != adv[0]) \
            and keys[adv[0]].ndim == 1:
        ax = adv[0]
        k = keys[ax]
        n = o.shape[ax]
        rest = [SL() if j == ax else x for j, x in enumerate(keys)]
        view = index_view(o, rest)
        kf = k.fn()
        if k.kind == 'b':
            C.require(eq(k.shape[0], n), IndexError,
                      'boolean index of another length')
            if is_scalar(v):
                t = to_term(v)
                view.assign(lambda idx: t, lambda idx: kf([idx[ax]]))
                return
            cnt, sel, rank = selection(n, lambda e: kf([e]))
            shape = list(view.shape)
            shape[ax] = cnt
            f = value_for(view.kind, shape, v)
            view.assign(lambda idx: f(list(idx[:ax]) + [rank(idx[ax])] +
                                      list(idx[ax + 1:])),
                        lambda idx: kf([idx[ax]]))
            return
        if k.kind == 'i':
            fix = check_index_array(k, n)
            D, P = last_writer(k.shape[0], lambda c: fix(kf([c])), 'I')
            if is_scalar(v):
                t = to_term(v)
                view.assign(lambda idx: t, lambda idx: D(idx[ax]))
                return
            shape = list(view.shape)
            shape[ax] = k.shape[0]
            f = value_for(view.kind, shape, v)
            view.assign(lambda idx: f(list(idx[:ax]) + [P(idx[ax])] +
                                      list(idx[ax + 1:])),
                        lambda idx: D(idx[ax]))
            return
    if len(keys) == 1 and isinstance(keys[0], Arr) and keys[0].kind == 'b' \
            and keys[0].ndim == o.ndim and is_scalar(v):
        kf = keys[0].fn()
        t = to_term(v)
        o.assign(lambda idx: t, lambda idx: kf(list(idx)))
        return
    if len(adv) == len(keys) and all(keys[j].kind == 'i' for j in adv) and \
            False:
        pass
    raise Unsupported('assignment with this index')


def snap(v):
    """array held by a container: kept by reference when it is a whole
    buffer, as containers of arrays are never written through"""
    return v


def delitem(o, key):
    if isinstance(o, PDict):
        if isinstance(key, T):
            raise Unsupported('symbolic key')
        if key not in o.items:
            raise PyExc(KeyError, str(key))
        del o.items[key]
        return
    if isinstance(o, PList):
        k = cint(key)
        if k is None:
            raise Unsupported('symbolic deletion')
        del o.items[k]
        return
    raise Unsupported('del item')


def sym_dict(n, i, key, val):
    """{key(i): val(i) for i < n}"""
    key = to_term(key)
    ks = key.sort
    D, P = last_writer(n, lambda t: subst(key, {i: t}), ks)

    def v(k):
        return vsubst(val, {i: P(k)})
    a, b = fresh('a', 'I'), fresh('b', 'I')
    distinct = forall([a, b], imp(
        and_(le(ZERO, a), lt(a, b), lt(b, n)),
        not_(eq(subst(key, {i: a}), subst(key, {i: b})))))
    C = ctx()
    order = None
    cnt = None
    if C.valid(distinct):
        cnt = n
        order = (n, lambda t: subst(key, {i: to_term(t)}))
    return SDict(D, v, cnt, ks, order)
