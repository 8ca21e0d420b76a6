"""Symbolic values and the verification context.

Scalars are terms (term.T) or concrete Python numbers / booleans / strings /
None.  Everything mutable lives in registered heap cells so that loop bodies
and branches can be explored, rolled back and merged.
"""
from fractions import Fraction
import itertools
import math
import numbers
import numpy as np
from . import term as tm
from .term import *
from .norm import Normalizer, TooBig
from .smt import Quick


class Unsupported(Exception):
    """construct outside the verified subset"""


class PyExc(Exception):
    """a Python exception of the program under verification"""

    def __init__(self, cls, msg='', value=None):
        Exception.__init__(self, cls.__name__, msg)
        self.cls = cls
        self.msg = msg
        self.value = value


class Infeasible(Exception):
    """the current path cannot happen"""


class Abort(Exception):
    """the current path ended (obligation failed / merged elsewhere)"""


SORT = {'i': 'I', 'f': 'R', 'b': 'B', 'E': 'E', 'U': 'U'}


class Value(object):
    def subst(self, m):
        return self


class Undef(Value):
    pass


UNDEF = Undef()


class Havoc(Value):
    """unknown content of a loop-carried location; may not be inspected"""

    def __init__(self, cell, idx=()):
        self.cell, self.idx = cell, tuple(idx)

    def subst(self, m):
        return Havoc(self.cell, tuple(subst(x, m) for x in self.idx))


class Opaque(Value):
    """an uninspected object, equal only to itself"""
    _n = itertools.count()

    def __init__(self, name, attrs=None, params=()):
        self.name = name
        self.attrs = attrs or {}
        self.params = tuple(params)
        self.id = next(Opaque._n)

    def __repr__(self):
        return '<%s>' % self.name


class VIte(Value):
    """value-level conditional"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def subst(self, m):
        return vite(subst(self.c, m), vsubst(self.a, m), vsubst(self.b, m))


def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, Value):
        return v.subst(m)
    return v


def is_scalar(v):
    return isinstance(v, (T, bool, int, float, np.number, np.bool_))


def to_term(v):
    if isinstance(v, T):
        return v
    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, (int, np.integer)):
        return num(int(v))
    if isinstance(v, (float, np.floating)):
        if math.isinf(v):
            return INF if v > 0 else NINF
        if math.isnan(v):
            raise Unsupported('nan')
        return num(Fraction(float(v)))
    if isinstance(v, Fraction):
        return num(v)
    if isinstance(v, str):
        return const(v, 'U')
    if isinstance(v, Arr) and not v.shape:
        return v.read([])
    raise Unsupported('scalar expected, got %s' % type(v).__name__)


def nterm(v):
    return tonum(to_term(v))


def unterm(t):
    """concrete Python value of a constant term"""
    if isinstance(t, T):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == 'poly' and is_num(t):
            f = numval(t)
            return int(f) if f.denominator == 1 else t
    return t


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        return ite(c, to_term(a), to_term(b))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and \
            a.kind == b.kind and a.kind != 'O' and a.struct is None and \
            b.struct is None:
        fa, fb = a.fn(), b.fn()
        return Arr.make([ite(c, x, y) for x, y in zip(a.shape, b.shape)],
                        lambda idx: ite(c, fa(idx), fb(idx)), a.kind)
    return VIte(c, a, b)


# --------------------------------------------------------------------------
# context
# --------------------------------------------------------------------------

class Obligation(object):
    def __init__(self, name, hyps, goal, where=''):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where


class Sel(object):
    """increasing enumeration of the indices e < n with mask(e)"""

    def __init__(self, ctx, sid, n, mask, params):
        self.sid, self.n0, self.mask0, self.params0 = sid, n, mask, params


class Ctx(object):
    cur = None

    def __init__(self):
        self.quick = Quick()
        self.reset()

    def reset(self):
        self.ghost = {}
        self.facts = []
        self.path = []
        self.scope = []
        self.axioms = []        # (symbols introduced, formula)
        self.keyed = {}         # canonical key -> (name, nparams)
        self.sels = {}          # selection name -> info
        self.generic = {}       # number of entries -> the described one
        self.enums = {}         # size -> [(enumeration, other one)]
        self.obligations = []
        self.heap = []
        self.decisions = []
        self.pos = 0
        self.check_div = True
        self.uniques = {}
        self.urows = {}
        self.functions_inlined = set()
        self.in_loop = 0        # inside a symbolic loop body / comprehension
        self.record = True      # record obligations
        self.functions = {}     # functions interpreted
        self.modules = set()
        self.trusted = set()    # library contracts used
        self.assumed = set()
        self.where = ''
        self.depth = 0
        self.branch_open = []

    # ---- logic
    def hyps(self):
        return self.facts + self.path + self.scope

    def assume(self, t):
        if t is TRUE:
            return
        (self.scope if self.in_loop else self.path).append(t)

    def relevant(self, terms):
        """axioms about the symbols reachable from the terms"""
        syms = set()
        for t in terms:
            for a in apps_in(t):
                syms.add(a.args[0])
        out = []
        done = False
        used = [False] * len(self.axioms)
        while not done:
            done = True
            for k, (names, f, fs) in enumerate(self.axioms):
                if not used[k] and (names & syms):
                    used[k] = True
                    done = False
                    out.append(f)
                    syms |= fs
        return out

    def axiom(self, names, f):
        if f is TRUE:
            return
        fs = set(a.args[0] for a in apps_in(f))
        self.axioms.append((frozenset(names), f, fs))

    def valid(self, goal):
        if goal is TRUE:
            return True
        if goal is FALSE and not self.scope and not self.path:
            return False
        h = self.hyps()
        if goal in h:
            return True
        if goal.op == 'and':
            return all(self.valid(g) for g in goal.args)
        ax = self.relevant(h + [goal])
        return self.quick.valid(ax + h, goal)

    def decide(self, c):
        """True / False when the condition follows from what is known"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.valid(c):
            return True
        if self.valid(not_(c)):
            return False
        return None

    def branch(self, c, what=''):
        """truth of a condition; forks when it is not determined"""
        d = self.decide(c)
        if d is not None:
            return d
        if self.in_loop:
            raise Unsupported('branch on an undetermined condition inside a '
                              'symbolic loop: ' + what + ' ' + show(c)[:200])
        return self.choose(c)

    def choose(self, c):
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = True
            self.decisions.append(True)
            self.branch_open.append(len(self.decisions) - 1)
        self.pos += 1
        self.path.append(c if v else not_(c))
        return v

    def require(self, cond, exc, msg=''):
        """the operation raises exc unless cond"""
        if cond is TRUE:
            return
        if self.valid(cond):
            return
        if self.in_loop:
            self.oblige('no %s: %s' % (exc.__name__, msg), cond)
            self.scope.append(cond)
            return
        if self.decide(not_(cond)) is True or not self.choose(cond):
            raise PyExc(exc, msg)

    def oblige(self, name, goal):
        if not self.record:
            return
        self.obligations.append(Obligation(
            name, list(self.hyps()), goal, self.where))

    # ---- keyed symbols
    def symbol(self, kind, bodies, sort, base=None):
        """name and parameters of the function symbol determined by the given
        terms.  Bodies may contain generic variables (named with '!'); these
        become parameters.  bodies: list of (bound idx vars, term)"""
        base = base or kind
        free = set()
        canon = []
        srt = {}
        for vs, t in bodies:
            m = {v: var('$%d' % k, v.sort) for k, v in enumerate(vs)}
            t = subst(t, m) if isinstance(t, T) else t
            canon.append(t)
            for x in subterms(t):
                if x.op == 'var':
                    srt[x.args[0]] = x
            free |= set(n for n in fv(t) if '!' in n)
        free = sorted(free)
        if len(free) > 4:
            raise Unsupported('too many parameters of a symbol')
        for perm in itertools.permutations(free):
            m = {srt[n]: var('@%d' % k, srt[n].sort)
                 for k, n in enumerate(perm)}
            key = (kind, tuple(subst(t, m) for t in canon))
            if key in self.keyed:
                return self.keyed[key], [srt[n] for n in perm], False
        perm = free
        m = {srt[n]: var('@%d' % k, srt[n].sort) for k, n in enumerate(perm)}
        key = (kind, tuple(subst(t, m) for t in canon))
        name = '%s#%d' % (base, len(self.keyed))
        self.keyed[key] = name
        return name, [srt[n] for n in perm], True

    def resolve(self, t, conds):
        """t with the case distinctions that are decided under the conditions
        (outside binders) removed"""
        n = len(self.scope)
        self.scope += conds

        def go(x):
            if x.op == 'ite':
                d = self.decide(x.args[0])
                if d is not None:
                    return go(x.args[1] if d else x.args[2])
                return x
            if x.op in ('poly', 'app'):
                if not any(y.op == 'ite' for y in subterms(x)):
                    return x
                return tm.rebuild(x, go)
            return x
        try:
            return go(t)
        finally:
            del self.scope[n:]

    # ---- heap
    def register(self, cell):
        self.heap.append(cell)
        return cell

    def snapshot(self):
        return [(c, c.save()) for c in self.heap]

    def restore(self, snap):
        for c, s in snap:
            c.load(s)


def ctx():
    return Ctx.cur


# --------------------------------------------------------------------------
# heap cells
# --------------------------------------------------------------------------

class Buffer(object):
    """storage of an array; content: index tuple -> term / Value"""

    def __init__(self, content, shape, kind, frozen=False):
        self.content, self.shape, self.kind = content, list(shape), kind
        self.ndim = len(self.shape)
        self.frozen = frozen
        self.log = ()       # writes since the last mark: (index -> (c, v))
        if not frozen:
            ctx().register(self)

    def save(self):
        return (self.content, self.log)

    def load(self, s):
        self.content, self.log = s


class Obj(Value):
    """instance of a class of the program"""

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        ctx().register(self)

    def save(self):
        return dict(self.attrs)

    def load(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return '<obj %s>' % self.cls.__name__


class PList(Value):
    """list with concrete length"""

    def __init__(self, items):
        self.items = list(items)
        ctx().register(self)

    def save(self):
        return self.items if isinstance(self.items, Tail) else \
            list(self.items)

    def load(self, s):
        if isinstance(s, SymItems):
            self.__class__ = SList
            self.n, self.fn = s.n, s.fn
        else:
            self.items = s if isinstance(s, Tail) else list(s)

    def subst(self, m):
        if isinstance(self.items, Tail):
            raise Unsupported('value of a growing list')
        new = [vsubst(x, m) for x in self.items]
        if all(a is b for a, b in zip(new, self.items)):
            return self
        return PList(new)


class Tail(object):
    """the elements appended by one iteration to a list that grows in a
    symbolic loop; nothing else of the list can be used in the loop"""

    def __init__(self, new=()):
        self.new = list(new)

    def __add__(self, o):
        return Tail(self.new + list(o))

    def no(self, *a):
        raise Unsupported('use of a list that grows in a symbolic loop')
    __len__ = __iter__ = __getitem__ = __setitem__ = __delitem__ = no
    __contains__ = __radd__ = __bool__ = no


class SymItems(object):
    """saved contents of a list of symbolic length"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __eq__(self, o):
        return isinstance(o, SymItems) and self.n is o.n and self.fn is o.fn

    def __ne__(self, o):
        return not self == o
    __hash__ = None


class PDict(Value):
    """dictionary with concrete keys"""

    def __init__(self, items=None, cls=dict):
        self.items = dict(items or {})
        self.cls = cls
        ctx().register(self)

    def save(self):
        return dict(self.items)

    def load(self, s):
        if isinstance(s, DState):
            self.__class__ = SDict
            self.frozen = False
            SDict.load(self, s)
        else:
            self.items = dict(s)

    def symbolic(self, ksort):
        """turns into a dictionary with symbolic keys, in place"""
        self.load(DState.of(self.items, ksort))

    def subst(self, m):
        new = {k: vsubst(x, m) for k, x in self.items.items()}
        if all(new[k] is self.items[k] for k in new):
            return self
        return PDict(new)


class DState(object):
    """saved contents of a dictionary with symbolic keys; log: its writes
    (condition, key, value) in the current iteration of a loop"""

    def __init__(self, state, ksort, log=()):
        self.state, self.ksort, self.log = state, ksort, tuple(log)

    def __eq__(self, o):
        return isinstance(o, DState) and self.state is o.state

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    @staticmethod
    def of(items, ksort):
        if isinstance(items, DState):
            return items
        ks = [(to_term(k), v) for k, v in items.items()]
        if any(k.sort != ksort for k, v in ks):
            raise Unsupported('keys of different types')

        def dom(k):
            return or_(*[eq(k, x) for x, v in ks])

        def val(k):
            r = UNDEF
            for x, v in ks:
                r = v if r is UNDEF else vite(eq(k, x), v, r)
            return r
        n = num(len(ks))
        return DState((dom, val, n, (n, lambda t: pick(ks, t))), ksort)


def pick(ks, t):
    r = None
    for j, (x, v) in enumerate(ks):
        r = x if r is None else ite(eq(to_term(t), num(j)), x, r)
    return r


class SList(Value):
    """sequence of symbolic length (immutable)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    # only for lists that became symbolic in a loop (see PList)
    def save(self):
        return SymItems(self.n, self.fn)

    def load(self, s):
        if isinstance(s, SymItems):
            self.n, self.fn = s.n, s.fn
        else:
            self.__class__ = PList
            self.items = s if isinstance(s, Tail) else list(s)

    def subst(self, m):
        f = self.fn

        def g(i):
            w = fresh('i', 'I')
            mm = dict(m)
            mm[w] = i
            return vsubst(f(w), mm)
        return SList(subst(self.n, m), g)


class SRange(Value):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def subst(self, m):
        return SRange(subst(self.lo, m), subst(self.hi, m))


class SListCell(Value):
    """growing list in symbolic loops"""


class SDict(Value):
    """dictionary with symbolic keys: dom(k) -> bool term, val(k) -> value.
    state = (dom, val, n) ; n: number of entries or None"""

    def __init__(self, dom, val, n=None, ksort='E', order=None):
        self.state = (dom, val, n, order)
        self.ksort = ksort
        self.log = ()
        self.frozen = False
        ctx().register(self)

    def save(self):
        return DState(self.state, self.ksort, self.log)

    def load(self, s):
        if isinstance(s, DState):
            self.state, self.ksort, self.log = s.state, s.ksort, s.log
        else:
            self.__class__ = PDict
            self.cls = dict
            self.items = dict(s)

    @property
    def dom(self):
        return self.state[0]

    @property
    def val(self):
        return self.state[1]

    @property
    def n(self):
        return self.state[2]

    @property
    def order(self):
        """keys in insertion order: (n, fn)"""
        return self.state[3]

    def subst(self, m):
        dom, val, n, order = self.state
        ks = self.ksort

        def d2(k):
            w = fresh('k', ks)
            return subst(dom(w), dict(m, **{}) | {w: k})

        def v2(k):
            w = fresh('k', ks)
            return vsubst(val(w), dict(m) | {w: k})
        o2 = None
        if order is not None:
            o2 = SList(order[0], order[1]).subst(m)
            o2 = (o2.n, o2.fn)
        r = SDict(d2, v2, subst(n, m) if n is not None else None, ks, o2)
        r.frozen = True
        return r


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------

class Struct(object):
    """flat parameter vector seen through a structured dtype"""

    def __init__(self, n, dt, fields):
        self.n, self.dt, self.fields = n, dt, fields    # name -> Buffer


class SymDtype(Value):
    def __init__(self, fields):
        self.fields = fields        # [(name, kind, [shape terms])]

    def total(self):
        t = ZERO
        for n, k, sh in self.fields:
            t = add(t, mul(ONE, *sh))
        return t

    def same(self, o):
        return isinstance(o, SymDtype) and len(self.fields) == len(
            o.fields) and all(a[0] == b[0] and len(a[2]) == len(b[2]) and
                              all(x is y for x, y in zip(a[2], b[2]))
                              for a, b in zip(self.fields, o.fields))


class Arr(Value):
    """view of a buffer.  vmap: per buffer dimension ('f', term) or
    ('d', view dim, offset term); fin: None or predicate of finite elements"""

    def __init__(self, buf, vmap, shape, kind, fin=None, struct=None,
                 tag=None):
        self.buf, self.vmap, self.shape, self.kind = buf, vmap, shape, kind
        self.fin = fin
        self.struct = struct
        self.tag = tag

    @property
    def ndim(self):
        return len(self.shape)

    @staticmethod
    def make(shape, content, kind, fin=None, frozen=False):
        shape = [to_term(s) for s in shape]
        b = Buffer(content, shape, kind, frozen)
        return Arr(b, [('d', k, ZERO) for k in range(len(shape))], shape,
                   kind, fin)

    def bidx(self, idx):
        out = []
        for m in self.vmap:
            if m[0] == 'f':
                out.append(m[1])
            else:
                out.append(add(m[2], idx[m[1]]) if m[2] is not ZERO
                           else idx[m[1]])
        return tuple(out)

    def read(self, idx):
        if self.struct is not None:
            raise Unsupported('flat access to a structured vector')
        return self.buf.content(self.bidx(list(idx)))

    def fn(self):
        """reader of the present content"""
        if self.struct is not None:
            raise Unsupported('flat access to a structured vector')
        c = self.buf.content
        vm = list(self.vmap)

        def f(idx):
            out = []
            for m in vm:
                if m[0] == 'f':
                    out.append(m[1])
                else:
                    out.append(add(m[2], idx[m[1]]) if m[2] is not ZERO
                               else idx[m[1]])
            return c(tuple(out))
        return f

    def copy(self):
        if self.struct is not None:
            s = self.struct
            fl = {n: Buffer(b.content, b.shape, b.kind)
                  for n, b in s.fields.items()}
            return Arr(None, [], list(self.shape), self.kind, None,
                       Struct(s.n, s.dt, fl))
        f = self.fn()
        return Arr.make(list(self.shape), f, self.kind, self.fin)

    def subst(self, m):
        if self.struct is not None:
            raise Unsupported('structured vector depends on a loop')
        f = self.fn()
        kind = self.kind
        nd = self.ndim

        def g(idx):
            ws = [fresh('x', 'I') for _ in range(nd)]
            mm = dict(m)
            for w, x in zip(ws, idx):
                mm[w] = x
            return vsubst(f(ws), mm)
        fin = self.fin
        if fin is not None:
            f0 = fin

            def fin(idx):
                ws = [fresh('x', 'I') for _ in range(nd)]
                mm = dict(m)
                for w, x in zip(ws, idx):
                    mm[w] = x
                return subst(f0(ws), mm)
        return Arr.make([subst(s, m) for s in self.shape], memo1(g), kind,
                        fin, frozen=True)

    def vars(self):
        return [fresh('x', 'I') for _ in self.shape]

    def size(self):
        return mul(ONE, *self.shape) if self.shape else ONE

    # ---- writing
    def assign(self, valfn, cond=None):
        """element idx of this view := valfn(idx) (where cond(idx))"""
        b = self.buf
        if b is None:
            raise Unsupported('write to a structured vector')
        if b.frozen:
            raise Unsupported('write to an array held by a container of '
                              'arrays')
        if self.fin is not None:
            raise Unsupported('write to an array with non-finite elements')
        old = b.content
        vm, shape, kind = list(self.vmap), list(self.shape), self.kind
        used = [m[1] for m in vm if m[0] == 'd']
        if len(set(used)) != len(used):
            raise Unsupported('diagonal view')
        bshape = b.shape

        def wr(bi):
            idx = [ZERO] * len(shape)
            cs = []
            for k, (m, x) in enumerate(zip(vm, bi)):
                if m[0] == 'f':
                    cs.append(eq(x, m[1]))
                else:
                    v = sub(x, m[2])
                    idx[m[1]] = v
                    if m[2] is not ZERO or bshape[k] is not shape[m[1]]:
                        cs.append(le(ZERO, v))
                        cs.append(lt(v, shape[m[1]]))
            c = and_(*cs)
            if c is FALSE:
                return FALSE, None
            if cond is not None:
                c = and_(c, cond(idx))
            if c is FALSE:
                return FALSE, None
            v = valfn(idx)
            if kind in 'ifb':
                v = to_term(v)
                if kind == 'i':
                    v = trunc(tonum(v)) if v.sort != 'I' else v
                elif kind == 'f':
                    v = tonum(v)
                elif v.sort != 'B':
                    v = not_(eq(v, ZERO))
            elif kind in 'EU':
                v = to_term(v)
            return c, v
        wr = memo1(wr)

        def new(bi):
            c, v = wr(bi)
            if c is FALSE:
                return old(bi)
            if c is TRUE:
                return v
            o = old(bi)
            if kind == 'O':
                return vite(c, v, o)
            return ite(c, v, o)
        b.content = memo1(new)
        b.log = b.log + (wr,)


def memo1(f):
    memo = {}
    C = Ctx.cur

    def g(idx):
        # the reader may have simplified by what is known in this scope
        k = (tuple(idx), tuple([x.id for x in C.scope]))
        r = memo.get(k)
        if r is None:
            r = f(idx)
            memo[k] = r
        return r
    return g


def kind_of(t):
    """array kind of scalar term values"""
    return {'I': 'i', 'R': 'f', 'B': 'b', 'E': 'E', 'U': 'U'}[t.sort]


def join_kind(a, b):
    if a == b:
        return a
    o = 'bif'
    if a in o and b in o:
        return o[max(o.index(a), o.index(b))]
    return 'O'


def from_numpy(a):
    """lift a concrete array"""
    a = np.asarray(a)
    if a.dtype.kind in 'iub':
        kind = 'b' if a.dtype.kind == 'b' else 'i'
    elif a.dtype.kind == 'f':
        kind = 'f'
    elif a.dtype.kind == 'O':
        kind = 'O'
    elif a.dtype.kind == 'U':
        kind = 'U'
    else:
        raise Unsupported('array of dtype %s' % a.dtype)
    if a.size > 64:
        raise Unsupported('large concrete array')
    items = list(np.ndenumerate(a)) if a.shape else [((), a[()])]
    if kind == 'O':
        if any(x is not None for _, x in items):
            raise Unsupported('object array')
        return Arr.make(a.shape, lambda idx: None, 'O')
    vals = [(k, to_term(v)) for k, v in items]

    def content(idx):
        r = None
        for k, v in reversed(vals):
            if r is None:
                r = v
            else:
                r = ite(and_(*[eq(x, num(j)) for x, j in zip(idx, k)]), v, r)
        return r if r is not None else ZERO
    return Arr.make(a.shape, memo1(content), kind)
