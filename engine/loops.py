"""Loops over a symbolic number of iterations.

The state at the start of iteration m is described by a closed form guessed
from one symbolic execution of the body (accumulated sum, store at an
iteration dependent place, last value); the body is executed again from the
guessed state until the description reproduces itself, which is the induction
step of the loop invariant.  The recorded obligations state it again for the
solver wherever the location holds first-order terms."""
from .values import *
from . import term as tm
from .ops import is_scalar, in_range, mexists

MAXROUNDS = 5


def vkey(v):
    """comparable description of a value"""
    if isinstance(v, T):
        return v
    if hasattr(v, 'vkey'):
        return v.vkey()
    if isinstance(v, Arr):
        if v.struct is not None:
            return ('struct', id(v))
        vs = [var('?x%d' % k, 'I') for k in range(v.ndim)]
        return ('arr', tuple(v.shape), v.kind, vkey(v.read(vs)))
    if isinstance(v, VIte):
        return ('ite', v.c, vkey(v.a), vkey(v.b))
    if isinstance(v, SDict):
        k = var('?k', v.ksort)
        return ('dict', v.dom(k), vkey(v.val(k)))
    if isinstance(v, SList):
        i = var('?i', 'I')
        return ('slist', v.n, vkey(v.fn(i)))
    if isinstance(v, tuple):
        return tuple(vkey(x) for x in v)
    if isinstance(v, PList):
        return ('list',) + tuple(vkey(x) for x in v.items)
    if isinstance(v, PDict):
        return ('pdict',) + tuple((k, vkey(x)) for k, x in v.items.items())
    if isinstance(v, (bool, int, float, str)) or v is None:
        return (type(v).__name__, v)
    if isinstance(v, Havoc):
        return ('havoc', id(v.cell)) + tuple(v.idx)
    if isinstance(v, Opaque) and not v.attrs:
        return ('opaque', v.name) + tuple(v.params)
    return ('obj', id(v))


def local_object(v):
    """is the value, or a part of it, an object with behaviour"""
    if isinstance(v, (tuple, PList)):
        return any(local_object(x) for x in (
            v if isinstance(v, tuple) else v.items))
    if isinstance(v, PDict):
        return any(local_object(x) for x in v.items.values())
    if isinstance(v, VIte):
        return local_object(v.a) or local_object(v.b)
    return isinstance(v, Opaque) and bool(v.attrs)


def split_and(c):
    return list(c.args) if c.op == 'and' else [c]


def has_var(t, i):
    return i.args[0] in fv(t)


def vhas(v, i):
    """does the value mention the variable"""
    if isinstance(v, T):
        return has_var(v, i)
    k = vkey(v)

    def go(x):
        if isinstance(x, T):
            return has_var(x, i)
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        return False
    return go(k)


class Loc(object):
    """one modified location"""

    def __init__(self, cell, slot, init, name):
        self.cell, self.slot, self.init, self.name = cell, slot, init, name
        self.mode = None
        self.sig = None


def cell_slots(cell, s0, s1):
    """slots that differ between two saved states of a cell"""
    if isinstance(cell, Buffer):
        return [None] if s0[0] is not s1[0] else []
    if isinstance(s0, DState) or isinstance(s1, DState):
        return [] if s0 == s1 else ['entries']
    if isinstance(s0, dict):
        return [k for k in list(s0) + [k for k in s1 if k not in s0]
                if not (k in s0 and k in s1 and eqv(s0[k], s1[k]))]
    if isinstance(s0, Tail) or isinstance(s1, Tail):
        return ['grow'] if not (isinstance(s0, Tail) and not s0.new and
                                not s1.new) else []
    if isinstance(s0, SymItems):
        if s0.n is s1.n and s0.fn is s1.fn:
            return []
        raise Unsupported('list of symbolic length changes')
    if isinstance(s0, list):
        if len(s0) < len(s1):
            return ['grow']
        if len(s0) != len(s1):
            raise Unsupported('list changes its length in a symbolic loop')
        return [k for k in range(len(s0)) if not eqv(s0[k], s1[k])]
    if s0 is s1:
        return []
    return [None]


def eqv(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T) or isinstance(a, Value) or \
            isinstance(b, Value):
        return False
    return type(a) is type(b) and isinstance(
        a, (int, float, str, bool)) and a == b


def get_slot(cell, slot):
    if slot == 'grow':
        return cell.items
    if slot == 'entries':
        return cell.save()
    if isinstance(cell, Buffer):
        return cell.content
    d = cell.vars if hasattr(cell, 'vars') and isinstance(
        getattr(cell, 'vars'), dict) else \
        cell.attrs if isinstance(cell, Obj) else cell.items
    if isinstance(d, list):
        return d[slot]
    return d.get(slot, UNDEF)


def set_slot(cell, slot, v):
    if slot == 'grow':
        if isinstance(v, SymItems):
            cell.load(v)
        else:
            cell.items = v
        return
    if slot == 'entries':
        cell.load(v)
        return
    if isinstance(cell, Buffer):
        cell.content = v
        return
    d = cell.vars if hasattr(cell, 'vars') and isinstance(
        getattr(cell, 'vars'), dict) else \
        cell.attrs if isinstance(cell, Obj) else cell.items
    d[slot] = v


def delta(t, hv, f):
    """t - hv where conditionals are entered; None when hv remains"""
    if t.op == 'ite':
        c = t.args[0]
        if any(a.args[0] == f for a in apps_in(c)):
            return None
        a, b = delta(t.args[1], hv, f), delta(t.args[2], hv, f)
        if a is None or b is None:
            return None
        return ite(c, a, b)
    d = sub(t, hv)
    if any(a.args[0] == f for a in apps_in(d)):
        return None
    return d


def sym_for(n, body, where, interp):
    C = ctx()
    i = fresh('it', 'I')
    snap0 = C.snapshot()
    nheap = len(C.heap)
    C.in_loop += 1
    rec0 = C.record
    nscope = len(C.scope)
    nobl = len(C.obligations)
    fr = interp.f
    fr.loop_depth = getattr(fr, 'loop_depth', 0) + 1
    locs = {}
    order = []
    uid = [0]

    def run(setup, record):
        C.restore(snap0)
        del C.heap[nheap:]
        C.record = rec0 and record
        del C.scope[nscope:]
        C.scope += [le(ZERO, i), lt(i, n)]
        for c in C.heap:
            if isinstance(c, (Buffer, SDict)):
                c.log = ()
        setup()
        pre = C.snapshot()
        body(i)
        post = C.snapshot()
        scope_extra = list(C.scope[nscope + 2:])
        return pre, post, scope_extra

    def discover(pre, post):
        new = False
        known = set(id(c) for c, _ in snap0)
        d0 = {id(c): s for c, s in snap0}
        dpre = {id(c): s for c, s in pre}
        for c, s in post:
            if id(c) not in known:
                continue
            for slot in cell_slots(c, dpre[id(c)], s):
                key = (id(c), slot)
                if key not in locs:
                    if isinstance(c, Buffer) and c.frozen:
                        raise Unsupported('write to a frozen array')
                    s0 = d0[id(c)]
                    if slot == 'grow':
                        init = list(s0)
                    elif slot == 'entries':
                        if isinstance(c, SDict) and c.frozen:
                            raise Unsupported('write to a frozen dictionary')
                        s1 = dict((id(x), y) for x, y in post)[id(c)]
                        ks = s1.ksort if isinstance(s1, DState) else \
                            s0.ksort
                        init = DState.of(s0, ks)
                    elif isinstance(c, Buffer):
                        init = s0[0]
                    elif isinstance(s0, dict):
                        init = s0.get(slot, UNDEF)
                    elif isinstance(s0, list):
                        init = s0[slot]
                    else:
                        init = s0
                    uid[0] += 1
                    nm = '%s' % (slot if slot is not None else 'array')
                    L = Loc(c, slot, init, nm)
                    L.f = fresh_name('hv')
                    locs[key] = L
                    order.append(L)
                    new = True
                    if slot == 'entries':
                        # constant keys seen with a constant counter
                        for q in [q for q in locs if q[0] == id(c) and
                                  q[1] != 'entries']:
                            order.remove(locs.pop(q))
        return new

    def havoc():
        for L in order:
            if L.slot == 'grow':
                set_slot(L.cell, L.slot, Tail())
            elif isinstance(L.cell, Buffer):
                b = L.cell
                f = L.f
                if b.kind == 'O':
                    b.content = (lambda idx, b=b: Havoc(b, idx))
                else:
                    srt = SORT[b.kind]
                    b.content = (lambda idx, f=f, srt=srt: app(
                        f, tuple(idx) + (i,), srt))
            elif L.slot == 'entries':
                L.cell.load(DState((no_read, no_read, None, None),
                                   L.init.ksort))
            else:
                if is_scalar(L.init) and not isinstance(
                        L.init, Arr) and to_term(L.init).sort in 'IR':
                    # integers may become reals in the body
                    set_slot(L.cell, L.slot, app(
                        L.f, (i,), getattr(L, 'sort', to_term(L.init).sort)))
                else:
                    set_slot(L.cell, L.slot, UNDEF)

    def no_read(k):
        raise Unsupported('use of a dictionary that changes in a symbolic '
                          'loop')

    def classify_dict(L, post):
        if not isinstance(post, DState) or not post.log:
            raise Unsupported('dictionary changed in a symbolic loop')
        ws = post.log
        if any(w is None or w[1] is not ws[0][1] for w in ws):
            raise Unsupported('several keys written in one iteration')
        key, cond, v = ws[0][1], FALSE, UNDEF
        for c, k, x in ws:
            v = x if v is UNDEF else vite(c, x, v)
            cond = or_(cond, c)
        L.mode, L.val = 'entries', (key, cond, v)
        return ('entries', key, cond, vkey(v))

    def classify(L, firstrun):
        """find the closed form from the post state of the last run"""
        cell = L.cell
        post = get_slot(cell, L.slot)
        if L.slot == 'entries':
            return classify_dict(L, post)
        if isinstance(cell, Buffer):
            return classify_buffer(L, firstrun)
        if L.slot == 'grow':
            if len(post.new) == 0:
                return 'grow nothing'
            L.mode, L.val = 'grow', post.new
            return ('grow',) + tuple(vkey(x) for x in post.new)
        init = L.init
        if is_scalar(post) and not isinstance(post, Arr):
            p = to_term(post)
            if p.sort in 'IR' and is_scalar(init) and not isinstance(
                    init, Arr):
                cur = L.at(i) if not firstrun else app(
                    L.f, (i,), getattr(L, 'sort', to_term(init).sort))
                if p.sort == 'R' and cur.sort == 'I' and firstrun:
                    L.sort = 'R'
                    return 'again'
                if firstrun:
                    used = any(a.args[0] == L.f for a in apps_in(p))
                    if used:
                        d = delta(p, cur, L.f)
                        if d is None:
                            raise Unsupported('loop-carried variable ' +
                                              L.name)
                        L.mode, L.val = 'acc', d
                    else:
                        L.mode, L.val = 'last', p
                elif L.mode == 'acc':
                    # p - guess(i)
                    d = delta_known(p, cur)
                    L.val = d
                else:
                    L.val = p
                return vkey(L.val)
        L.mode, L.val = 'last', post
        if post is not init and local_object(post):
            L.val = UNDEF
            return 'undef'
        if isinstance(post, (Obj, Opaque)) or callable(post) and not \
                isinstance(post, Value):
            return ('obj', id(post))
        try:
            return vkey(post)
        except Unsupported:
            L.val = UNDEF
            return 'undef'

    def delta_known(p, cur):
        """p - cur, entering conditionals"""
        if p.op == 'ite' and p is not cur:
            c = p.args[0]
            if any(x.op == 'ite' for x in subterms(cur)):
                r = [delta_known(C.resolve(x, [k]), C.resolve(cur, [k]))
                     for x, k in ((p.args[1], c), (p.args[2], not_(c)))]
                return ite(c, *r)
            return ite(c, delta_known(p.args[1], cur),
                       delta_known(p.args[2], cur))
        return sub(p, cur)

    def classify_buffer(L, firstrun):
        b = L.cell
        vs = [var('?%s_%d' % (L.f, k), 'I') for k in range(b.ndim)]
        # an index of an axis of length one is zero
        es = tuple(ZERO if s is ONE else v for v, s in zip(vs, b.shape))
        C.scope += [in_range(vs, b.shape)]
        try:
            if not b.log:
                raise Unsupported('changed array without writes')
            post = b.content(es)
            writes = [w(es) for w in b.log]
            writes = [(c, v) for c, v in writes if c is not FALSE]
            if not writes:
                L.mode, L.val = 'none', None
                return 'none'
            cany = or_(*[c for c, v in writes])
            # store: every write determines the iteration
            ws = set()
            ok = True
            for c, v in writes:
                w = None
                for a in split_and(c):
                    w = solve_eq(a, i) if a.op in ('eq', 'eq0') else None
                    if w is not None:
                        break
                if w is None:
                    ok = False
                    break
                ws.add(w)
            if ok and len(ws) == 1:
                w = ws.pop()
                L.mode = 'store'
                # value at the written places
                v = None
                for c, x in writes:
                    v = x if v is None else vite(c, x, v)
                L.val = (w, subst(cany, {i: w}), vsubst(v, {i: w}), vs)
                return ('store', w, L.val[1], vkey(L.val[2]))
            if b.kind == 'O':
                if cany is TRUE and len(writes) == 1:
                    L.mode, L.val = 'lastbuf', (post, vs)
                    return ('lastbuf', vkey(post))
                raise Unsupported('object array changed in a loop')
            if firstrun:
                hv = app(L.f, es + (i,), SORT[b.kind])
                used = any(a.args[0] == L.f for a in apps_in(post))
                if not used:
                    L.mode, L.val = 'lastbuf', (post, vs)
                    return ('lastbuf', post)
                d = delta(post, hv, L.f) if b.kind in 'if' else None
                if d is not None:
                    L.mode, L.val = 'accbuf', (d, vs)
                    return ('accbuf', d)
                # writes of iteration independent values
                if all(isinstance(v, T) and not has_var(v, i) and
                       v is writes[0][1] for c, v in writes):
                    L.mode, L.val = 'mark', (cany, writes[0][1], vs)
                    return ('mark', cany, writes[0][1])
                # general: the last writing iteration
                if any(a.args[0] == L.f for c, v in writes
                       for t in (c, v) if isinstance(t, T)
                       for a in apps_in(t)) or not all(
                           isinstance(v, T) for c, v in writes):
                    raise Unsupported('array update in a loop')
                L.mode = 'lastw'
                return lastw(L, writes, cany, vs)
            if L.mode == 'lastbuf':
                L.val = (post, vs)
                return ('lastbuf', post)
            if L.mode == 'accbuf':
                cur = L.at(i)(es)
                d = delta_known(post, cur)
                L.val = (d, vs)
                return ('accbuf', d)
            if L.mode == 'mark':
                L.val = (cany, writes[0][1], vs)
                return ('mark', cany, writes[0][1])
            if L.mode == 'lastw':
                return lastw(L, writes, cany, vs)
            raise Unsupported('array update in a loop')
        finally:
            C.scope.pop()

    def lastw(L, writes, cany, vs):
        v = None
        for c, x in writes:
            v = x if v is None else ite(c, x, v)
        L.val = (cany, v, vs)
        return ('lastw', cany, v)

    def last_iteration(cany, vs, m, idx):
        """the last iteration before m that writes element idx, or -1"""
        name, params, new = C.symbol('lastw', [([i] + list(vs), cany)], 'I')
        pv = tuple(params)
        W = lambda xs, m: app(name, tuple(xs) + (m,) + pv, 'I')
        if new:
            xs = [fresh('x', v.sort) for v in vs]
            mv, t = fresh('m', 'I'), fresh('t', 'I')
            c = lambda t: subst(cany, dict(list(zip(vs, xs)) + [(i, t)]))
            w = W(xs, mv)
            C.axiom({name}, forall(list(params) + xs + [mv], or_(
                eq(w, num(-1)), and_(le(ZERO, w), lt(w, mv), c(w))), (w,)))
            ct = c(t)
            trg = [a for a in apps_in(ct) if t.args[0] in fv(a)]
            body = imp(and_(le(ZERO, t), lt(t, mv), ct), le(t, w))
            if trg:
                C.axiom({name}, forall(list(params) + xs + [mv, t], body,
                                       (w, trg[0])))
            else:
                C.axiom({name}, forall(list(params) + xs + [mv, t], body))
        return W(idx, m)

    def entries_at(L, m):
        """entries after m iterations of which each writes at most one"""
        key, cond, v = L.val
        dom0, val0, n0, o0 = L.init.state
        ks = L.init.ksort
        kv = var('?key', ks)
        inj = None
        if key.op == 'app' and key.args[0] == 'str':
            g = eq(key.args[1], app('unstr', (kv,), 'I'))
            inj = solve_eq(g, i) if g.op in ('eq', 'eq0') else None

        def writer(k):
            if inj is not None:
                w = subst(inj, {kv: k})
                return w, and_(le(ZERO, w), lt(w, m), eq(k, subst(
                    key, {i: w})), subst(cond, {i: w}))
            w = last_iteration(and_(cond, eq(key, kv)), [kv], m, (k,))
            return w, le(ZERO, w)

        def dom(k):
            return or_(writer(k)[1], dom0(k))

        def val(k):
            w, c = writer(k)
            x = vsubst(v, {i: w})
            if c is TRUE or dom0(k) is FALSE:
                return x
            y = val0(k)
            return x if y is UNDEF else vite(c, x, y)
        return DState((dom, val, None, None), ks)

    def make_at(L):
        """closed form at the start of iteration m (a content function for
        arrays, a value for variables)"""
        mode, val, init = L.mode, L.val, L.init
        if mode == 'acc':
            def acc(m):
                if is_num(val) and C.valid(le(ZERO, m)):
                    return add(tonum(to_term(init)), mul(val, m))
                return add(tonum(to_term(init)),
                           sum_to(m, lambda t: subst(val, {i: t})))
            return acc
        if mode == 'last':
            def last(m):
                if val is UNDEF:
                    return UNDEF
                d = C.decide(lt(ZERO, m))
                if d is False:
                    return init
                try:
                    v = vsubst(val, {i: sub(m, ONE)})
                except Unsupported:
                    return UNDEF
                if d is True:
                    return v
                if init is UNDEF or isinstance(init, Undef):
                    return UNDEF
                try:
                    return vite(lt(ZERO, m), v, init)
                except Unsupported:
                    return UNDEF
            return last
        if mode == 'none':
            return lambda m: init
        if mode == 'grow':
            if len(val) != 1 or init:
                raise Unsupported('list grows by other than one element')

            def grow(m):
                if m is i:
                    return Tail()
                return SymItems(m, lambda t: vsubst(val[0], {
                    i: to_term(t)}))
            return grow
        if mode == 'entries':
            return lambda m: entries_at(L, m)
        b = L.cell
        if mode == 'store':
            w, c, v, vs = val

            def store(m):
                def content(idx):
                    mm = dict(zip(vs, idx))
                    wt = subst(w, mm)
                    ct = and_(le(ZERO, wt), lt(wt, m), subst(c, mm))
                    if ct is not FALSE and ct is not TRUE and (
                            C.scope or C.path):
                        d = C.decide(ct)
                        if d is True:
                            ct = TRUE
                        elif d is False:
                            ct = FALSE
                    if ct is FALSE:
                        return init(idx)
                    x = vsubst(v, mm)
                    if ct is TRUE:
                        return x
                    if b.kind == 'O':
                        return vite(ct, x, init(idx))
                    return ite(ct, x, init(idx))
                return memo1(content)
            return store
        if mode == 'accbuf':
            d, vs = val
            return lambda m: memo1(lambda idx: add(
                tonum(init(idx)), sum_to(m, lambda t: subst(
                    d, dict(list(zip(vs, idx)) + [(i, t)])))))
        if mode == 'mark':
            c, v, vs = val

            def mark(m):
                def content(idx):
                    mm = dict(zip(vs, idx))
                    e = mexists([m], lambda ts: subst(
                        c, dict(list(mm.items()) + [(i, ts[0])])))
                    return ite(e, subst(v, mm), init(idx))
                return memo1(content)
            return mark
        if mode == 'lastw':
            c, v, vs = val

            def lastw_(m):
                def content(idx):
                    w = last_iteration(c, vs, m, idx)
                    return ite(le(ZERO, w), subst(v, dict(
                        list(zip(vs, idx)) + [(i, w)])), init(idx))
                return memo1(content)
            return lastw_
        if mode == 'lastbuf':
            p, vs = val

            def lastb(m):
                def content(idx):
                    d = C.decide(lt(ZERO, m))
                    if d is False:
                        return init(idx)
                    x = vsubst(p, dict(list(zip(vs, idx)) +
                                       [(i, sub(m, ONE))]))
                    if d is True:
                        return x
                    if b.kind == 'O':
                        return vite(lt(ZERO, m), x, init(idx))
                    return ite(lt(ZERO, m), x, init(idx))
                return memo1(content)
            return lastb
        raise Unsupported('loop')

    def sum_to(m, f):
        t = fresh('t', 'I')
        C.scope += [le(ZERO, t), lt(t, m)]
        try:
            bd = f(t)
        finally:
            C.scope.pop()
            C.scope.pop()
        if not has_var(bd, t) and (is_num(bd) or is_ind(bd)) and \
                C.valid(le(ZERO, m)):
            return mul(bd, m) if is_num(bd) else ite(bd.args[0], m, ZERO)
        return sum_(t, m, bd)

    def load(m):
        for L in order:
            v = L.at(m)
            set_slot(L.cell, L.slot, v)

    try:
        # discovery
        pre, post, _ = run(lambda: None, False)
        if discover(pre, post):
            for _ in range(MAXROUNDS):
                pre, post, _ = run(havoc, False)
                more = discover(pre, post)
                again = False
                if not more:
                    for L in order:
                        r = classify(L, True)
                        if r == 'again':
                            again = True
                        L.sig = r
                if not more and not again:
                    break
            else:
                raise Unsupported('loop does not settle')
            for L in order:
                L.at = make_at(L)
            # fixpoint
            for rnd in range(MAXROUNDS):
                pre, post, _ = run(lambda: load(i), False)
                if discover(pre, post):
                    raise Unsupported('loop does not settle')
                stable = True
                sigs = []
                for L in order:
                    sig = classify(L, False)
                    if sig != L.sig:
                        stable = False
                    sigs.append(sig)
                for L, sig in zip(order, sigs):
                    L.sig = sig
                    L.at = make_at(L)
                if stable:
                    break
            else:
                raise Unsupported('loop invariant does not settle')
            # final pass: obligations of the body and the induction step
            pre, post, extra = run(lambda: load(i), True)
            for L in order:
                classify(L, False)
                b = L.cell
                if isinstance(b, Buffer) and b.kind != 'O' and \
                        L.mode in ('store', 'accbuf', 'mark', 'lastw'):
                    vs = [ZERO if s is ONE else fresh('x', 'I')
                          for s in b.shape]
                    C.scope.append(in_range(vs, b.shape))
                    if L.mode == 'accbuf':
                        # a sum of i+1 terms is the sum of i terms + the last
                        d, dv = L.val
                        g = eq(b.content(tuple(vs)), add(
                            tonum(L.at(i)(tuple(vs))),
                            subst(d, dict(zip(dv, vs)))))
                    else:
                        g = eq(b.content(tuple(vs)),
                               L.at(add(i, ONE))(tuple(vs)))
                    C.oblige('loop invariant of an array is preserved', g)
                    C.scope.pop()
                elif L.mode == 'acc':
                    g = eq(to_term(get_slot(b, L.slot)),
                           add(L.at(i), L.val))
                    C.oblige('loop invariant of %s is preserved' % L.name, g)
        else:
            run(lambda: None, True)
            extra = list(C.scope[nscope + 2:])
    finally:
        C.in_loop -= 1
        C.record = rec0
        del C.scope[nscope:]
        del C.heap[nheap:]
        fr.loop_depth -= 1
    # facts established for every iteration
    for f in extra:
        g = forall([i], imp(and_(le(ZERO, i), lt(i, n)), f))
        (C.scope if C.in_loop else C.path).append(g)
    C.restore(snap0)
    nn = n
    if not C.valid(le(ZERO, n)):
        nn = ite(le(ZERO, n), n, ZERO)
    for L in order:
        set_slot(L.cell, L.slot, L.at(nn))
        if L.slot == 'entries' and C.in_loop:
            L.cell.log = L.cell.log + (None,)
        if isinstance(L.cell, Buffer):
            b = L.cell
            # the whole loop is one write for an enclosing loop
            b.log = b.log + (loop_write(L, nn, i),)


def loop_write(L, n, i):
    at = L.at(n)
    C = ctx()
    if L.mode == 'store':
        w, c, v, vs = L.val

        def wr(bi):
            mm = dict(zip(vs, bi))
            wt = subst(w, mm)
            return and_(le(ZERO, wt), lt(wt, n), subst(c, mm)), \
                vsubst(v, mm)
        return wr
    if L.mode == 'mark':
        c, v, vs = L.val

        def wr(bi):
            mm = dict(zip(vs, bi))
            e = mexists([n], lambda ts: subst(
                c, dict(list(mm.items()) + [(i, ts[0])])))
            return e, subst(v, mm)
        return wr
    return lambda bi: (TRUE, at(bi))


# --------------------------------------------------------------------------
# loops that may be left early: an invariant of the state before iteration
# i >= 1, found among candidates and extended by what the contract states
# --------------------------------------------------------------------------

class LoopSpec(object):
    """what a contract states about the main loop of a function"""

    def enter(self):
        """before the loop"""

    def refs(self):
        """terms of the current state that variables may be equal to"""
        return []

    def inv(self):
        """[(name, formula)] about the state between two iterations"""
        return []

    def head(self, i):
        """before iteration i"""

    def step(self, i, left):
        """obligations at the end of iteration i; left: by break"""


def search_loop(it, s, n, item):
    from .interp import BreakEx, ContinueEx
    C = ctx()
    spec = C.ghost.get('loop spec')
    if spec is None or C.in_loop:
        raise Unsupported('break or return in a symbolic loop')
    if C.ghost.setdefault('search loop', s) is not s:
        raise Unsupported('second loop with break or return')
    fr = it.f
    spec.enter()
    i = fresh('it', 'I')
    snap0 = C.snapshot()
    known = {id(c) for c, _ in snap0}
    nheap = len(C.heap)
    npath = len(C.path)

    def body(k):
        it.assign(s.target, item(k))
        try:
            it.block(s.body, True)
        except ContinueEx:
            pass

    def explore(setup, conds):
        """a run of the body for an iteration that does not leave the loop"""
        rec, ns = C.record, len(C.scope)
        C.restore(snap0)
        del C.heap[nheap:]
        C.record = False
        C.in_loop += 1
        fr.staying = True
        try:
            C.scope += conds
            setup()
            pre = C.snapshot()
            body(i)
            return pre, C.snapshot(), list(C.scope)
        finally:
            C.record = rec
            C.in_loop -= 1
            fr.staying = False
            del C.scope[ns:]

    locs = {}

    def differences(pre, post):
        new = False
        dpre = {id(c): x for c, x in pre}
        for c, x in post:
            if id(c) not in known:
                continue
            for slot in cell_slots(c, dpre[id(c)], x):
                if slot in ('grow', 'entries'):
                    raise Unsupported('container changed in a loop with '
                                      'break')
                if (id(c), slot) not in locs:
                    if isinstance(c, Buffer) and (c.frozen or c.kind == 'O'):
                        raise Unsupported('array changed in a loop with '
                                          'break')
                    locs[id(c), slot] = L = Loc(c, slot, None, str(
                        slot if slot is not None else 'array'))
                    new = True
        return new

    def describe(first):
        """what is known of the values after an iteration"""
        for L in locs.values():
            if isinstance(L.cell, Buffer):
                L.kind = 'buffer'
                continue
            v = get_slot(L.cell, L.slot)
            if is_scalar(v) and not isinstance(v, Arr) and to_term(
                    v).sort in 'IRB':
                t = to_term(v)
                L.sort = t.sort if getattr(L, 'sort', t.sort) in (
                    'I', t.sort) else L.sort
                kind = 'number'
            elif isinstance(v, Arr) and v.struct is None and \
                    v.kind in 'ifb' and id(v.buf) not in known:
                L.shape, L.akind, L.buf = list(v.shape), v.kind, v.buf
                kind = 'array'
                if any(i.args[0] in fv(x) for x in L.shape):
                    kind = 'unknown'
            else:
                kind = 'unknown'
            if getattr(L, 'kind', kind) != kind:
                kind = 'unknown'
            L.kind = kind
        arrs = [(L, get_slot(L.cell, L.slot)) for L in locs.values()
                if L.kind == 'array']
        for L, v in arrs:
            if any(w is not v and w.buf is v.buf for _, w in arrs):
                L.kind = 'unknown'

    def havoc():
        alias = {}
        for L in locs.values():
            nm = fresh('h.' + L.name, 'I').args[0]
            if L.kind == 'buffer':
                b = L.cell
                b.content = lambda x, b=b, nm=nm: app(nm, tuple(x), SORT[
                    b.kind])
            elif L.kind == 'number':
                set_slot(L.cell, L.slot, var(nm, L.sort))
            elif L.kind == 'array':
                if id(L.buf) not in alias:
                    alias[id(L.buf)] = Arr.make(
                        L.shape, lambda x, nm=nm, k=L.akind: app(
                            nm, tuple(x), SORT[k]), L.akind)
                set_slot(L.cell, L.slot, alias[id(L.buf)])
            else:
                set_slot(L.cell, L.slot, UNDEF)

    def numbers():
        return [L for L in locs.values() if L.kind == 'number' and
                L.sort in 'IR']

    def candidates(L, k):
        """formulas for the value after k iterations"""
        v = to_term(get_slot(L.cell, L.slot))
        out = [('the iteration', eq(v, sub(k, ONE))),
               ('the number of iterations', eq(v, k))]
        for j, r in enumerate(spec.refs()):
            out.append(('reference %d' % j, eq(v, to_term(r))))
        return out

    def invariant(k):
        out = []
        for L in numbers():
            cs = dict(candidates(L, k))
            out += [('%s is %s' % (L.name, c), cs[c]) for c in L.cands
                    if c in cs]
        return out + list(spec.inv())

    def holds(scope, g):
        ns = len(C.scope)
        C.scope[ns:] = scope
        try:
            return C.valid(g)
        finally:
            del C.scope[ns:]

    # which locations change, and their kinds
    first = lambda: None
    pre, post, sc = explore(first, [eq(i, ZERO), lt(ZERO, n)])
    differences(pre, post)
    describe(True)
    for L in numbers():
        L.cands = [c for c, g in candidates(L, ONE) if holds(sc, g)]
    later = [le(ONE, i), lt(i, n)]

    def setup():
        havoc()
        for _, g in invariant(i):
            C.scope.append(g)
    for _ in range(12):
        pre, post, sc = explore(setup, later)
        again = differences(pre, post)
        kinds = [getattr(L, 'kind', None) for L in locs.values()]
        describe(False)
        again = again or kinds != [L.kind for L in locs.values()]
        for L in numbers():
            if not hasattr(L, 'cands'):
                L.cands = []
            keep = [c for c, g in candidates(L, add(i, ONE))
                    if c in L.cands and holds(sc, g)]
            again = again or keep != L.cands
            L.cands = keep
        if not again:
            break
    else:
        raise Unsupported('invariant of a loop with break')
    C.restore(snap0)
    del C.heap[nheap:]
    del C.path[npath:]

    def leave(k):
        """iteration k, and what follows an early exit"""
        spec.head(k)
        try:
            body(k)
        except BreakEx:
            spec.step(k, True)
            return
        spec.step(k, False)
        for L in locs.values():
            if L.kind == 'array':
                v = get_slot(L.cell, L.slot)
                C.oblige('loop: shape of %s is kept' % L.name, and_(*[
                    eq(x, y) for x, y in zip(v.shape, L.shape)])
                    if isinstance(v, Arr) and v.kind == L.akind and
                    v.ndim == len(L.shape) else FALSE)
        for nm, g in invariant(add(k, ONE)):
            C.oblige('loop invariant: ' + nm, g)
        raise Abort()
    if not C.branch(lt(ZERO, n)):
        it.block(s.orelse)
        return
    if C.choose(var('first iteration', 'B')):
        leave(ZERO)
        return
    havoc()
    if C.choose(var('later iteration', 'B')):
        C.path += [le(ONE, i), lt(i, n)]
        for _, g in invariant(i):
            C.assume(g)
        leave(i)
        return
    # all iterations were performed
    for _, g in invariant(n):
        C.assume(g)
    spec.head(n)
    it.block(s.orelse)
