"""Hash-consed first-order terms with a ring normal form for arithmetic.

Sorts: 'I' mathematical integer, 'R' mathematical real, 'B' boolean,
'E' external object id (a totally ordered set), 'U' opaque value.

Numeric terms are polynomials over atoms.  An atom is any non-polynomial
numeric term (application, ite, sum, floor, ...).  Exponents may be negative:
x**-1 is the reciprocal of x (its definedness is a separate obligation).
"""
from fractions import Fraction
import itertools
import re

_table = {}
_ids = itertools.count()


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_h', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __bool__(self):
        raise TypeError('a term used as a Python bool: %s' % show(self))


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = next(_ids)
        t._fv = None
        t._h = None
        _table[key] = t
    return t


_fresh = itertools.count()


def reset_fresh():
    global _fresh
    _fresh = itertools.count()


def fresh_name(base):
    return '%s!%d' % (base.split('!')[0], next(_fresh))


def var(name, sort):
    return mk('var', (name,), sort)


def fresh(base, sort):
    return var(fresh_name(base), sort)


def app(f, args, sort):
    if f == 'unstr':
        # inverse of the decimal representation of integers
        k = args[0]
        if k.op == 'app' and k.args[0] == 'str':
            return k.args[1]
        if k.op == 'const' and DECIMAL.match(k.args[0]):
            return num(int(k.args[0]))
    if f == 'str' and args[0].op == 'poly' and is_num(args[0]):
        return const(str(int(numval(args[0]))), 'U')
    return mk('app', (f,) + tuple(args), sort)


DECIMAL = re.compile(r'(0|-?[1-9][0-9]*)\Z')


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


# --------------------------------------------------------------------------
# numbers and polynomials: op 'poly', args = ((mono, coef), ...) where mono is
# a tuple of (atom, exponent) sorted by atom id
# --------------------------------------------------------------------------

def num(c, sort=None):
    c = Fraction(c)
    if sort is None:
        sort = 'I' if c.denominator == 1 else 'R'
    return mk('poly', ((((), c),) if c != 0 else ()),
              'I' if c.denominator == 1 else 'R')


ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.op == 'poly' and (len(t.args) == 0 or
                               (len(t.args) == 1 and t.args[0][0] == ()))


def numval(t):
    return t.args[0][1] if t.args else Fraction(0)


def _pd(t):
    """dictionary mono -> coef of a numeric term"""
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _mk_poly(d, sort):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: (tuple((a.id, e) for a, e in mc[0]))))
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
        if len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    # the sort is a function of the contents
    sort = 'I'
    for m, c in items:
        if c.denominator != 1 or any(a.sort != 'I' or e < 0 for a, e in m):
            sort = 'R'
            break
    return mk('poly', items, sort)


def _jsort(*ts):
    return 'R' if any(t.sort == 'R' for t in ts) else 'I'


def num_ok(t):
    if t.sort not in ('I', 'R'):
        raise TypeError('numeric term expected: %s : %s' % (show(t), t.sort))
    return t


def tonum(t):
    """booleans count as 0/1"""
    if t.sort == 'B':
        return ite(t, ONE, ZERO)
    return num_ok(t)


INF = mk('inf', (1,), 'R')
NINF = mk('inf', (-1,), 'R')


def add(*ts):
    ts = [num_ok(t) for t in ts]
    for t in ts:
        if t.op == 'inf':
            return t
    d = {}
    for t in ts:
        for m, c in _pd(t).items():
            d[m] = d.get(m, 0) + c
    return _mk_poly(d, _jsort(*ts))


def scale(c, t):
    if t.op == 'inf':
        if c == 1:
            return t
        if c == -1:
            return NINF if t is INF else INF
        raise TypeError('inf arithmetic')
    c = Fraction(c)
    s = t.sort if c.denominator == 1 else 'R'
    return _mk_poly({m: c * k for m, k in _pd(t).items()}, s)


def neg(t):
    return scale(-1, num_ok(t))


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if e > 1 and is_ind(a):
            e = 1
        out.append((a, e))
    return tuple(sorted(out, key=lambda ae: ae[0].id))


def mul(*ts):
    ts = [num_ok(t) for t in ts]
    sort = _jsort(*ts)
    d = {(): Fraction(1)}
    for t in ts:
        if t.op == 'inf':
            raise TypeError('inf arithmetic')
        td = _pd(t)
        nd = {}
        for m1, c1 in d.items():
            for m2, c2 in td.items():
                m = _mono_mul(m1, m2)
                nd[m] = nd.get(m, 0) + c1 * c2
        d = nd
    return _mk_poly(d, sort)


def is_ind(a):
    return a.op == 'ite' and a.args[1] is ONE and a.args[2] is ZERO


def inv(t):
    """reciprocal"""
    t = num_ok(t)
    if is_num(t):
        v = numval(t)
        if v == 0:
            return app('recip', (t,), 'R')
        return num(1 / v, 'R')
    d = _pd(t)
    if len(d) == 1:
        (m, c), = d.items()
        return _mk_poly({tuple((a, -e) for a, e in m): 1 / c}, 'R')
    # make the argument of the wrapper monic for a canonical form
    lead = t.args[0][1]
    p = mk('par', (scale(1 / lead, t),), 'R')
    return _mk_poly({((p, -1),): 1 / lead}, 'R')


def div(a, b):
    return mul(a, inv(b)) if not is_num(b) or numval(b) == 0 else \
        toreal(scale(1 / numval(b), a))


def toreal(t):
    return t


def powi(a, n):
    assert n >= 0
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    if n == 0 and a.sort == 'R':
        r = toreal(r)
    return r


def floor(t):
    t = num_ok(t)
    if t.sort == 'I':
        return t
    if is_num(t):
        return num(numval(t).__floor__(), 'I')
    # pull integer-valued parts out
    ip, rp = {}, {}
    for m, c in _pd(t).items():
        if c.denominator == 1 and all(a.sort == 'I' and e > 0 for a, e in m):
            ip[m] = c
        else:
            rp[m] = c
    if not rp:
        return _mk_poly(ip, 'I')
    f = Fraction(0)
    if () in rp:
        f = Fraction(rp[()].__floor__())
        rp[()] = rp[()] - f
    r = _mk_poly(rp, 'R')
    if is_num(r):
        r2 = num(numval(r).__floor__(), 'I')
    else:
        r2 = mk('floor', (r,), 'I')
    return add(_mk_poly(ip, 'I'), num(f, 'I'), r2)


def ceil(t):
    return neg(floor(neg(t)))


def trunc(t):
    if t.sort == 'I':
        return t
    if is_num(t):
        return num(int(numval(t)), 'I')
    fl = floor(t)
    return ite(le(ZERO, t), fl, neg(floor(neg(t))))


def mod(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) % numval(b))
    return mk('mod', (a, b), 'I')


def idiv(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        return num(numval(a) // numval(b))
    return mk('idiv', (a, b), 'I')


# --------------------------------------------------------------------------
# atoms of logic
# --------------------------------------------------------------------------

def _canon_sign(d):
    """scale a polynomial positively so that the first coefficient is +-1"""
    lead = abs(d.args[0][1]) if d.op == 'poly' else Fraction(1)
    if d.op == 'poly' and lead != 1:
        c = scale(1 / lead, d)
        return c
    return d


def _isint(d):
    return d.sort == 'I' or (d.op == 'poly' and all(
        all(a.sort == 'I' and e > 0 for a, e in m) for m, c in d.args))


def _int_norm(d):
    """for integer polynomials: clear denominators and divide by the gcd of the
    non-constant coefficients; returns (poly over Z, ok)"""
    from math import gcd
    l = 1
    for m, c in d.args:
        l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    k = Fraction(0)
    for m, c in d.args:
        if m == ():
            k = c * l
        else:
            g = gcd(g, int(c * l))
    return l, g, k


def lt(a, b):
    a, b = num_ok(a), num_ok(b)
    if a.op == 'inf' or b.op == 'inf':
        if a is b:
            return FALSE
        if a is NINF or b is INF:
            return TRUE
        return FALSE
    d = sub(a, b)
    if is_num(d):
        return TRUE if numval(d) < 0 else FALSE
    if _isint(d):
        # d < 0  <=>  d + 1 <= 0 over the integers (scaled)
        if d.op != 'poly':
            d = mk('poly', ((((d, 1),), Fraction(1)),), 'I')
        l, g, k = _int_norm(d)
        p = scale(Fraction(l, g), d)
        # p = q + k/g with q integral; p < 0 <=> q <= ceil(-k/g) - 1
        kk = Fraction(k, g)
        q = sub(p, num(kk))
        bound = (-kk).__ceil__() - 1
        q = _mk_poly({m: c for m, c in _pd(q).items()}, 'I')
        return mk('le0', (sub(q, num(bound)),), 'B')
    return mk('lt0', (_canon_sign(d),), 'B')


def le(a, b):
    a, b = num_ok(a), num_ok(b)
    if a.op == 'inf' or b.op == 'inf':
        if a is b:
            return TRUE
        if a is NINF or b is INF:
            return TRUE
        return FALSE
    d = sub(a, b)
    if is_num(d):
        return TRUE if numval(d) <= 0 else FALSE
    if _isint(d):
        if d.op != 'poly':
            d = mk('poly', ((((d, 1),), Fraction(1)),), 'I')
        l, g, k = _int_norm(d)
        p = scale(Fraction(l, g), d)
        kk = Fraction(k, g)
        q = sub(p, num(kk))
        bound = (-kk).__floor__()
        q = _mk_poly({m: c for m, c in _pd(q).items()}, 'I')
        return mk('le0', (sub(q, num(bound)),), 'B')
    return mk('le0', (_canon_sign(d),), 'B')


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort in ('I', 'R') and b.sort in ('I', 'R'):
        if a.op == 'inf' or b.op == 'inf':
            return FALSE
        d = sub(a, b)
        if is_num(d):
            return TRUE if numval(d) == 0 else FALSE
        if d.op == 'poly':
            lead = d.args[0][1]
            if _isint(d):
                l, g, k = _int_norm(d)
                if (Fraction(k) / g).denominator != 1:
                    return FALSE
                d = scale(Fraction(l, g) * (1 if lead > 0 else -1), d)
                d = _mk_poly(_pd(d), 'I')
            else:
                d = scale(1 / lead, d)
        return mk('eq0', (d,), 'B')
    if a.sort != b.sort:
        if {a.sort, b.sort} <= {'I', 'R', 'B'}:
            return eq(tonum(a), tonum(b))
        raise TypeError('eq of sorts %s %s' % (a.sort, b.sort))
    if a.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
    if a.op == 'const' and b.op == 'const':
        return FALSE
    if a.op == 'const' and b.op == 'app':
        a, b = b, a
    if a.op == 'app' and a.args[0] == 'str':
        if b.op == 'app' and b.args[0] == 'str':
            return eq(a.args[1], b.args[1])
        if b.op == 'const':
            if DECIMAL.match(b.args[0]):
                return eq(a.args[1], num(int(b.args[0])))
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def ltE(a, b):
    """strict order on external ids"""
    if a is b:
        return FALSE
    return mk('ltE', (a, b), 'B')


def leE(a, b):
    return not_(ltE(b, a))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt0':
        return mk('le0', (neg(a.args[0]),), 'B')
    if a.op == 'le0':
        d = a.args[0]
        if _isint(d):
            return lt(ZERO, d)
        return mk('lt0', (neg(d),), 'B')
    return mk('not', (a,), 'B')


def and_(*ts):
    out = []
    seen = set()
    for t in ts:
        for u in (t.args if t.op == 'and' else (t,)):
            if u is TRUE or u in seen:
                continue
            if u is FALSE:
                return FALSE
            seen.add(u)
            out.append(u)
    for u in out:
        if not_(u) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out, key=lambda x: x.id)), 'B')


def or_(*ts):
    out = []
    seen = set()
    for t in ts:
        for u in (t.args if t.op == 'or' else (t,)):
            if u is FALSE or u in seen:
                continue
            if u is TRUE:
                return TRUE
            seen.add(u)
            out.append(u)
    for u in out:
        if not_(u) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(sorted(out, key=lambda x: x.id)), 'B')


def imp(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        return and_(imp(c, a), or_(c, b))
    if a.sort != b.sort:
        if {a.sort, b.sort} <= {'I', 'R', 'B'}:
            a, b = tonum(a), tonum(b)
        else:
            raise TypeError('ite of sorts %s %s' % (a.sort, b.sort))
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if is_num(a) and is_num(b):
        # canonical 0/1 indicator form
        va, vb = numval(a), numval(b)
        r = add(scale(va - vb, _ind(c)), num(vb))
        if a.sort == 'R':
            r = toreal(r)
        return r
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if a is b:
        return a
    return mk('ite', (c, a, b),
              a.sort if a.sort not in ('I', 'R') else _jsort(a, b))


def _ind(c):
    """indicator of c as 0/1 term, with a canonical polarity"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    n = not_(c)
    if (c.op == 'not') or (c.op == 'le0' and n.op == 'lt0') or \
            (c.op == 'le0' and n.op == 'le0' and n.id < c.id):
        return sub(ONE, mk('ite', (n, ONE, ZERO), 'I'))
    return mk('ite', (c, ONE, ZERO), 'I')


def ind(c):
    return _ind(c)


# --------------------------------------------------------------------------
# binders
# --------------------------------------------------------------------------

def fv(t):
    """free variables (names) of a term"""
    if t._fv is None:
        if t.op == 'var':
            r = frozenset(t.args)
        elif t.op == 'poly':
            r = frozenset().union(*[fv(a) for m, c in t.args for a, e in m])
        elif t.op in ('forall', 'exists'):
            vs, body, trig = t.args
            r = fv(body) - frozenset(v.args[0] for v in vs)
        elif t.op == 'sum':
            v, n, body = t.args
            r = fv(n) | (fv(body) - frozenset(v.args))
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    r = r | fv(a)
        t._fv = r
    return t._fv


def height(t):
    """nesting depth of sums and quantifiers"""
    if t._h is None:
        if t.op == 'poly':
            h = max([height(a) for m, c in t.args for a, e in m] or [0])
        elif t.op == 'sum':
            h = max(height(t.args[1]), 1 + height(t.args[2]))
        elif t.op in ('forall', 'exists'):
            h = 1 + max([height(t.args[1])] + [height(x) for x in t.args[2]])
        else:
            h = 0
            for a in t.args:
                if isinstance(a, T):
                    h = max(h, height(a))
        t._h = h
    return t._h


def forall(vs, body, trig=()):
    """vs: variables; one-point simplification on guards of implications"""
    vs = list(vs)
    if isinstance(body, T) and body.op == 'forall':
        vs2, b2, tr2 = body.args
        ren = {v: fresh(v.args[0], v.sort) for v in vs2}
        return forall(vs + [ren[v] for v in vs2], subst(b2, ren),
                      tuple(trig) + tuple(subst(x, ren) for x in tr2))
    # distribute over conjunction when no triggers are given
    if body.op == 'and' and not trig:
        return and_(*[forall(vs, b, ()) for b in body.args])
    changed = True
    while changed:
        changed = False
        if body.op == 'or':
            for lit in body.args:
                if lit.op == 'not' and lit.args[0].op in ('eq', 'eq0'):
                    for v in vs:
                        s = solve_eq(lit.args[0], v)
                        if s is not None:
                            body = subst(body, {v: s})
                            trig = tuple(subst(x, {v: s}) for x in trig)
                            vs = [w for w in vs if w is not v]
                            changed = True
                            break
                if changed:
                    break
    vs = [v for v in vs if v.args[0] in fv(body)]
    if not vs:
        return body
    if body is TRUE:
        return TRUE
    if body is FALSE:
        return FALSE
    trig = tuple(x for x in trig if fv(x))
    # canonical names of the bound variables: equal up to renaming is equal
    h = 1 + max([height(body)] + [height(x) for x in trig])
    names = fv(body).union(*[fv(x) for x in trig]) - \
        frozenset(v.args[0] for v in vs)
    while True:
        cs = [var('q!%d_%d%s' % (h, k, v.sort), v.sort)
              for k, v in enumerate(vs)]
        if not any(c.args[0] in names for c in cs):
            break
        h += 1
    if any(c is not v for c, v in zip(cs, vs)):
        ren = {v: fresh(v.args[0], v.sort) for v in vs}
        ren2 = {ren[v]: c for v, c in zip(vs, cs)}
        body = subst(subst(body, ren), ren2)
        trig = tuple(subst(subst(x, ren), ren2) for x in trig)
    return mk('forall', (tuple(cs), body, trig), 'B')


def exists(vs, body):
    return not_(forall(vs, not_(body)))


def solve_eq(e, v):
    """e: an equation atom; a term s without v such that e <=> v = s"""
    name = v.args[0]
    if name not in fv(e):
        return None
    if e.op == 'eq':
        a, b = e.args
        if a is v and name not in fv(b):
            return b
        if b is v and name not in fv(a):
            return a
        return None
    if e.op == 'eq0':
        d = _pd(e.args[0])
        m = ((v, 1),)
        c = d.get(m)
        if c is None:
            return None
        rest = {k: x for k, x in d.items() if k != m}
        for k in rest:
            for a, ex in k:
                if name in fv(a):
                    return None
        if v.sort == 'I' and abs(c) != 1:
            return None
        r = _mk_poly({k: -x / c for k, x in rest.items()},
                     'R' if any(a.sort == 'R' for k in rest for a, _ in k)
                     else 'I')
        if v.sort == 'I' and not _isint(r):
            return None
        return r
    return None


def sum_(v, n, body):
    """sum of body for v = 0 .. n-1 (zero when n <= 0); v is a variable"""
    body = tonum(body)
    if is_num(n):
        k = int(numval(n))
        if k <= 0:
            return toreal(ZERO) if body.sort == 'R' else ZERO
        if k <= 4:
            return add(*[subst(body, {v: num(i)}) for i in range(k)])
    if body.op == 'poly' and not body.args:
        return body
    h = height(body) + 1
    names = fv(body) - frozenset(v.args)
    while '#%d' % h in names:
        h += 1
    cv = var('#%d' % h, 'I')
    body = subst(body, {v: cv})
    return mk('sum', (cv, n, body), body.sort)


def open_sum(t):
    v, n, body = t.args
    w = fresh('i', 'I')
    return w, n, subst(body, {v: w})


# --------------------------------------------------------------------------
# rebuilding
# --------------------------------------------------------------------------

def rebuild(t, f):
    """apply f to the immediate sub-terms and rebuild through the smart
    constructors"""
    op = t.op
    if op == 'var' or not t.args:
        return t
    if op == 'poly':
        same = True
        out = []
        for m, c in t.args:
            fm = []
            for a, e in m:
                fa = f(a)
                if fa is not a:
                    same = False
                fm.append((fa, e))
            out.append((c, fm))
        if same:
            return t
        tot = []
        for c, fm in out:
            fs = [num(c, t.sort if Fraction(c).denominator == 1 else 'R')]
            for fa, e in fm:
                fs.append(powi(fa, e) if e >= 0 else powi(inv(fa), -e))
            tot.append(mul(*fs))
        r = add(*tot) if tot else t
        if t.sort == 'R':
            r = toreal(r) if r.sort == 'I' else r
        return r
    if op == 'app':
        a = tuple(f(x) for x in t.args[1:])
        return app(t.args[0], a, t.sort)
    if op == 'const' or op == 'inf':
        return t
    if op in ('forall', 'exists'):
        vs, body, trig = t.args
        b = f(body)
        if b is body:
            return t
        return forall(vs, b, tuple(f(x) for x in trig))
    if op == 'sum':
        v, n, body = t.args
        n2, b2 = f(n), f(body)
        if n2 is n and b2 is body:
            return t
        w = fresh('i', 'I')
        return sum_(w, n2, subst(b2, {v: w}))
    a = tuple(f(x) for x in t.args)
    if all(x is y for x, y in zip(a, t.args)):
        return t
    if op == 'lt0':
        return lt(a[0], ZERO)
    if op == 'le0':
        return le(a[0], ZERO)
    if op == 'eq0':
        return eq(a[0], ZERO)
    return {'eq': eq, 'not': not_, 'and': and_, 'or': or_, 'ite': ite,
            'ltE': ltE, 'floor': floor, 'mod': mod, 'idiv': idiv,
            'par': lambda x: x if is_num(x) or x.op != 'poly'
            else mk('par', (x,), 'R')}[op](*a)


def subst(t, m):
    """simultaneous substitution of variables (keys: var terms)"""
    if not m:
        return t
    names = frozenset(v.args[0] for v in m)
    memo = {}

    def go(x):
        if not (fv(x) & names):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'var':
            r = m.get(x, x)
        elif x.op in ('forall', 'exists'):
            vs, body, trig = x.args
            bn = frozenset(v.args[0] for v in vs)
            mm = {k: v for k, v in m.items() if k.args[0] not in bn}
            rng = frozenset().union(*[fv(v) for v in mm.values()]) \
                if mm else frozenset()
            if bn & rng:
                ren = {v: fresh(v.args[0], v.sort) for v in vs}
                body = subst(body, ren)
                trig = tuple(subst(y, ren) for y in trig)
                vs = tuple(ren[v] for v in vs)
            r = forall(vs, subst(body, mm), tuple(subst(y, mm) for y in trig))
        elif x.op == 'sum':
            v, n, body = x.args
            n2 = go(n)
            mm = {k: u for k, u in m.items() if k is not v}
            if fv(body) & frozenset(k.args[0] for k in mm):
                w = fresh('i', 'I')
                body2 = subst(subst(body, {v: w}), mm)
                r = sum_(w, n2, body2)
            else:
                w = fresh('i', 'I')
                r = sum_(w, n2, subst(body, {v: w}))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def map_apps(t, f, memo=None):
    """rebuild t, mapping each application bottom-up by f(app) (f returns a
    term or None for no change); binders are entered"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            if r.op == 'app':
                y = f(r)
                if y is not None:
                    r = y
            memo[x] = r
        return r
    return go(t)


def apps_in(t, acc=None, seen=None):
    """all applications (terms) occurring in t, also below binders"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'app':
            acc.add(x)
        stack.extend(children(x))
    return acc


def children(x):
    if x.op == 'poly':
        return [a for m, c in x.args for a, e in m]
    if x.op in ('forall', 'exists'):
        return [x.args[1]]
    if x.op == 'sum':
        return [x.args[1], x.args[2]]
    return [a for a in x.args if isinstance(a, T)]


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


# --------------------------------------------------------------------------

def show(t, depth=0):
    op = t.op
    if depth > 60:
        return '...'
    s = lambda x: show(x, depth + 1)
    if op == 'var':
        return t.args[0]
    if op == 'poly':
        if not t.args:
            return '0'
        parts = []
        for m, c in t.args:
            fs = [('%s' % s(a)) if e == 1 else '%s^%d' % (s(a), e)
                  for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')' if len(parts) > 1 else parts[0]
    if op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:])) \
            if len(t.args) > 1 else t.args[0]
    if op == 'const':
        return '`%s`' % (t.args[0],)
    if op == 'inf':
        return 'inf' if t.args[0] > 0 else '-inf'
    if op in ('true', 'false'):
        return op
    if op == 'lt0':
        return '%s < 0' % s(t.args[0])
    if op == 'le0':
        return '%s <= 0' % s(t.args[0])
    if op == 'eq0':
        return '%s = 0' % s(t.args[0])
    if op == 'eq':
        return '%s = %s' % (s(t.args[0]), s(t.args[1]))
    if op == 'ltE':
        return '%s << %s' % (s(t.args[0]), s(t.args[1]))
    if op == 'not':
        return 'not(%s)' % s(t.args[0])
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(a) for a in t.args) + ')'
    if op == 'ite':
        if is_ind(t):
            return '[%s]' % s(t.args[0])
        return '(if %s then %s else %s)' % tuple(s(a) for a in t.args)
    if op == 'sum':
        return 'Sum{%s<%s}(%s)' % (t.args[0].args[0], s(t.args[1]),
                                   s(t.args[2]))
    if op in ('forall', 'exists'):
        return '%s %s. %s' % (op, ' '.join(v.args[0] for v in t.args[0]),
                              s(t.args[1]))
    return '%s(%s)' % (op, ', '.join(s(a) for a in t.args
                                     if isinstance(a, T)))


def const(value, sort):
    """a distinct named constant of an uninterpreted sort"""
    return mk('const', (value,), sort)
