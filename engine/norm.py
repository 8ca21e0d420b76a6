"""Normal form for polynomials with indexed sums, and symbolic derivatives.

norm(t) is equal to t in every model (given the facts the oracle `valid` was
asked about); equal terms of the class handled here get identical normal
forms: sums are distributed over monomials, independent factors are pulled
out, products of sums are kept as products, nested sums are ordered
canonically, and indicators that fix a summation index remove it.
"""
from fractions import Fraction
import itertools
from .term import *
from . import term as tm


class TooBig(Exception):
    pass


def leading(d, order=None):
    return max(d, key=_mono_key)


def _mono_key(m):
    return (sum(e for a, e in m), tuple(sorted(((a.id, e) for a, e in m),
                                               reverse=True)))


def _lexkey(vars_):
    def k(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vars_)
    return k


def poly_divide(c, p):
    """exact quotient of polynomial dictionaries c / p, or None"""
    atoms = sorted({a for m in list(c) + list(p) for a, e in m},
                   key=lambda a: a.id)
    if any(e < 0 for m in p for a, e in m):
        return None
    key = _lexkey(atoms)
    lp = max(p, key=key)
    cp = p[lp]
    rem = dict(c)
    q = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        lm = max(rem, key=key)
        d = dict(lm)
        ok = True
        for a, e in lp:
            x = d.get(a, 0) - e
            if x < 0:
                ok = False
                break
            d[a] = x
        if not ok:
            return None
        m = tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                         key=lambda ae: ae[0].id))
        k = rem[lm] / cp
        q[m] = q.get(m, 0) + k
        for mp, c2 in p.items():
            mm = tm._mono_mul(m, mp)
            v = rem.get(mm, 0) - k * c2
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
    return q


def poly_sqrt(d):
    """(c, q): d = c * q^2 with a number c > 0, or None"""
    if not d:
        return None
    atoms = sorted({a for m in d for a, e in m}, key=lambda a: a.id)
    key = _lexkey(atoms)

    def mono(m):
        return tuple(sorted(((a, e) for a, e in m.items() if e),
                            key=lambda ae: ae[0].id))
    lead = max(d, key=key)
    if any(e % 2 for a, e in lead) or d[lead] <= 0:
        return None
    c = d[lead]
    rem = {m: v / c for m, v in d.items()}
    h = {a: e // 2 for a, e in lead}
    hm = mono(h)
    q = {hm: Fraction(1)}

    def sub_(m, v):
        x = rem.get(m, 0) - v
        if x == 0:
            rem.pop(m, None)
        else:
            rem[m] = x
    sub_(lead, 1)
    steps = 0
    while rem:
        steps += 1
        if steps > 60:
            return None
        lm = max(rem, key=key)
        dm = dict(lm)
        for a, e in h.items():
            dm[a] = dm.get(a, 0) - e
        m = mono(dm)
        if m in q:
            return None
        v = rem[lm] / 2
        if key(m) >= key(hm):
            return None
        for m2, v2 in q.items():
            sub_(tm._mono_mul(m, m2), 2 * v * v2)
        sub_(tm._mono_mul(m, m), v * v)
        q[m] = v
    return c, q


def abs_of(c, a, b):
    """ite(c, a, b) when it is |a| or -|a|, in one form for a and -a"""
    if add(a, b) is not ZERO or a is ZERO:
        return None
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if c.op not in ('le0', 'lt0'):
        return None
    da, dc = tm._pd(a), tm._pd(c.args[0])
    if set(da) != set(dc):
        return None
    m0 = next(iter(da))
    k = dc[m0] / da[m0]
    if any(dc[m] != k * da[m] for m in da):
        return None
    # c says that k * a <= 0 (or < 0, which is the same for an absolute value)
    sign = ONE if k < 0 else num(-1)
    p = a
    first = min(da, key=lambda m: sorted((show(x), e) for x, e in m))
    if da[first] < 0:
        p = neg(a)
    return mul(sign, sub(mul(num(2), ind(le(ZERO, p)), p), p))


def cancel(t):
    """cancel par(p)**-1 factors against coefficients divisible by p"""
    for _ in range(8):
        d = tm._pd(t)
        pars = sorted({a for m in d for a, e in m
                       if a.op == 'par' and e < 0}, key=lambda a: a.id)
        done = True
        for P in pars:
            lvl = min(dict(m).get(P, 0) for m in d)
            co, rest = {}, {}
            for m, c in d.items():
                dm = dict(m)
                if dm.get(P, 0) == lvl:
                    dm.pop(P)
                    mm = tuple(sorted(dm.items(), key=lambda ae: ae[0].id))
                    co[mm] = c
                else:
                    rest[m] = c
            p = tm._pd(P.args[0])
            q = poly_divide(co, p)
            if q is None:
                continue
            tot = [tm._mk_poly(rest, None)]
            new = {}
            for m, c in q.items():
                mm = tm._mono_mul(m, ((P, lvl + 1),) if lvl + 1 else ())
                new[mm] = new.get(mm, 0) + c
            tot.append(tm._mk_poly(new, None))
            t = add(*tot)
            done = False
            break
        if done:
            return t
    return t


class Normalizer(object):
    def __init__(self, valid=None, limit=20000):
        # valid(cond, hyps) -> True when cond follows from the hypotheses
        self.valid = valid or (lambda c, hyps: c is TRUE)
        self.memo = {}
        self.limit = limit
        self.work = 0

    # hyps: tuple of conditions known in the current scope (binder ranges)
    def norm(self, t, hyps=()):
        key = (t, hyps)
        r = self.memo.get(key)
        if r is None:
            self.work += 1
            if self.work > self.limit:
                raise TooBig()
            r = self._norm(t, hyps)
            self.memo[key] = r
        return r

    def _norm(self, t, hyps):
        op = t.op
        if op == 'sum':
            w, n, body = open_sum(t)
            n = self.norm(n, hyps)
            h2 = hyps + (le(ZERO, w), lt(w, n))
            b = self.norm(body, h2)
            return self.sum_poly(w, n, b, hyps)
        if op == 'ite' and t.sort in ('I', 'R'):
            c = self.cond(t.args[0], hyps)
            if c is TRUE:
                return self.norm(t.args[1], hyps)
            if c is FALSE:
                return self.norm(t.args[2], hyps)
            a = self.norm(t.args[1], hyps + (c,))
            b = self.norm(t.args[2], hyps + (not_(c),))
            r = abs_of(c, a, b)
            if r is not None:
                return r
            i = self.indc(c)
            return cancel(add(mul(i, a), mul(sub(ONE, i), b)))
        if op == 'poly':
            parts = []
            for m, c in t.args:
                fs = [num(c)]
                for a, e in m:
                    if a.op == 'par':
                        na = inv(self.norm(a.args[0], hyps))
                        na = cancel(na)
                        e = -e
                    else:
                        na = self.norm(a, hyps)
                    if e < 0:
                        na = inv(na)
                        e = -e
                    fs.append(powi(na, e))
                parts.append(mul(*fs))
                self.work += 1
            r = add(*parts) if parts else t
            if r.op == 'poly' and len(r.args) > 3000:
                raise TooBig()
            return cancel(r)
        if op in ('forall', 'exists'):
            return t
        if op in ('lt0', 'le0', 'eq0'):
            return rebuild(t, lambda x: self.norm(x, hyps))
        return rebuild(t, lambda x: self.norm(x, hyps))

    def cond(self, c, hyps):
        c = self.norm(c, hyps)
        if c is TRUE or c is FALSE:
            return c
        if self.valid(c, hyps):
            return TRUE
        if self.valid(not_(c), hyps):
            return FALSE
        return c

    def indc(self, c):
        """indicator of a condition as polynomial over atomic indicators"""
        if c.op == 'and':
            return mul(*[self.indc(x) for x in c.args])
        if c.op == 'or':
            return sub(ONE, mul(*[sub(ONE, self.indc(x)) for x in c.args]))
        if c.op == 'not':
            return sub(ONE, self.indc(c.args[0]))
        return ind(c)

    def sum_poly(self, v, n, body, hyps):
        """sum over v < n of a normalized polynomial body"""
        out = []
        for m, c in tm._pd(body).items():
            out.append(mul(num(c), self.sum_mono([(v, n)], m, hyps)))
        r = add(*out) if out else ZERO
        return cancel(r)

    def sum_mono(self, binders, mono, hyps):
        """sum over the binders of a monomial of normalized atoms"""
        self.work += 1
        if self.work > self.limit:
            raise TooBig()
        binders = list(binders)
        names = {v.args[0] for v, n in binders}
        # flatten inner sums that depend on a binder
        fac = []
        for a, e in mono:
            if a.op == 'sum' and e > 0 and (fv(a) & names):
                for _ in range(e):
                    w, n2, b2 = open_sum(a)
                    # the body of a normalized sum is a monomial
                    binders.append((w, n2))
                    names.add(w.args[0])
                    d2 = tm._pd(b2)
                    assert len(d2) == 1, 'sum body not a monomial'
                    (m2, c2), = d2.items()
                    assert c2 == 1
                    for a3, e3 in m2:
                        fac.append((a3, e3))
            else:
                fac.append((a, e))
        d = {}
        for a, e in fac:
            d[a] = d.get(a, 0) + e
        fac = [(a, 1 if (is_ind(a) and e > 1) else e)
               for a, e in d.items() if e != 0]
        if any(a.op == 'sum' and e > 0 and (fv(a) & names)
               for a, e in fac):
            return self.sum_mono(binders, tuple(fac), hyps)
        # contradictory / redundant indicators
        rng = hyps
        for v, n in binders:
            rng = rng + (le(ZERO, v), lt(v, n))
        # eliminate a binder fixed by an indicator
        for a, e in fac:
            if not is_ind(a):
                continue
            c = a.args[0]
            if c.op not in ('eq0', 'eq'):
                continue
            for bi, (v, n) in enumerate(binders):
                s = solve_eq(c, v)
                if s is None:
                    continue
                rest = [(x, k) for x, k in fac if x is not a]
                nb = [b for j, b in enumerate(binders) if j != bi]
                # binder bounds may not depend on v
                t = ONE
                for x, k in rest:
                    y = subst(x, {v: s})
                    t = mul(t, powi(y, k) if k > 0 else powi(inv(y), -k))
                h3 = hyps
                for v2, n2 in nb:
                    h3 = h3 + (le(ZERO, v2), lt(v2, n2))
                for cnd in (le(ZERO, s), lt(s, n)):
                    cc = self.cond(cnd, h3)
                    t = mul(t, self.indc(cc))
                t = self.norm(t, h3)
                return self.sum_many(nb, t, hyps)
        # connected components
        used = [fv(a) & names for a, e in fac]
        free = [(a, e) for (a, e), u in zip(fac, used) if not u]
        comps = []
        for v, n in binders:
            comps.append({v.args[0]})
        for u in used:
            if not u:
                continue
            hit = [c for c in comps if c & u]
            new = set().union(*hit)
            comps = [c for c in comps if not (c & u)] + [new]
        parts = [tm._mk_poly({tuple(sorted(free, key=lambda ae: ae[0].id)):
                              Fraction(1)}, None)]
        for comp in comps:
            bs = [(v, n) for v, n in binders if v.args[0] in comp]
            fs = [(a, e) for (a, e), u in zip(fac, used) if u & comp]
            parts.append(self.build(bs, fs))
        return mul(*parts)

    def sum_many(self, binders, t, hyps):
        if not binders:
            return t
        out = []
        for m, c in tm._pd(t).items():
            out.append(mul(num(c), self.sum_mono(binders, m, hyps)))
        return add(*out) if out else ZERO

    def build(self, bs, fs):
        """canonical nested sum of one connected monomial"""
        if not fs:
            assert len(bs) == 1
            n = bs[0][1]
            # sum of ones: the (non-negative) length
            if self.valid(le(ZERO, n), ()):
                return n
            return ite(le(ZERO, n), n, ZERO)
        best = None
        body0 = tm._mk_poly({tuple(sorted(fs, key=lambda ae: ae[0].id)):
                             Fraction(1)}, None)
        perms = itertools.permutations(bs) if len(bs) <= 4 else [bs]
        for perm in perms:
            t = body0
            for v, n in reversed(perm):
                h = height(t) + 1
                while '#%d' % h in fv(t):
                    h += 1
                cv = var('#%d' % h, 'I')
                t = mk('sum', (cv, n, subst(t, {v: cv})),
                       t.sort)
            key = show(t)
            if best is None or key < best[0]:
                best = (key, t)
        return best[1]


# --------------------------------------------------------------------------
# derivatives
# --------------------------------------------------------------------------

class NotDifferentiable(Exception):
    pass


def diff(t, f, idx, rules):
    """derivative of t with respect to the application f(idx).
    rules: name -> function of the argument giving d name(x)/dx"""
    memo = {}
    dep = {}

    def depends(x):
        r = dep.get(x)
        if r is None:
            r = x.op == 'app' and x.args[0] == f
            if not r:
                r = any(depends(y) for y in children(x))
            dep[x] = r
        return r

    def go(x):
        r = memo.get(x)
        if r is None:
            r = d1(x)
            memo[x] = r
        return r

    def d1(x):
        if not depends(x):
            return ZERO
        if x.op == 'poly':
            tot = []
            for m, c in x.args:
                for i, (a, e) in enumerate(m):
                    if not depends(a):
                        continue
                    inner, e2 = a, e
                    da = go(a.args[0]) if a.op == 'par' else go(a)
                    fs = [num(c * e2), da]
                    for j, (b, k) in enumerate(m):
                        kk = k - 1 if j == i else k
                        fs.append(powi(b, kk) if kk >= 0 else
                                  tm._mk_poly({((b, kk),): Fraction(1)}, 'R'))
                    tot.append(mul(*fs))
            return add(*tot) if tot else ZERO
        if x.op == 'app':
            if x.args[0] == f:
                if any(depends(a) for a in x.args[1:]):
                    raise NotDifferentiable(show(x))
                return ind(and_(*[eq(a, b)
                                  for a, b in zip(x.args[1:], idx)]))
            rule = rules.get(x.args[0])
            if rule is None or len(x.args) != 2:
                raise NotDifferentiable(show(x))
            return mul(rule(x.args[1]), go(x.args[1]))
        if x.op == 'sum':
            w, n, body = open_sum(x)
            if depends(n):
                raise NotDifferentiable(show(x))
            return sum_(w, n, diff(body, f, idx, rules))
        if x.op == 'ite':
            if depends(x.args[0]):
                raise NotDifferentiable(show(x))
            return ite(x.args[0], go(x.args[1]), go(x.args[2]))
        raise NotDifferentiable(show(x))
    return go(t)
