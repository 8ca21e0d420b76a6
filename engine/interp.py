"""Symbolic execution of the real functions: obligations come out of the
abstract syntax trees of the source of the functions in /repo, read again on
every run."""
import ast
import builtins
import collections
import functools
import hashlib
import inspect
import os
import textwrap
import types
import numpy as np
from .values import *
from . import term as tm

REPO = os.environ.get('KAM_REPO', '/repo')


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Frame(object):
    def __init__(self, fn, vars_):
        self.fn = fn
        self.vars = vars_
        self.on_yield = None
        ctx().register(self)

    def save(self):
        return dict(self.vars)

    def load(self, s):
        self.vars = dict(s)


class Bound(Value):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Super(Value):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcVal(Value):
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Closure(Value):
    """lambda / nested function"""

    def __init__(self, node, frame, name):
        self.node, self.frame, self.name = node, frame, name


class Gen(Value):
    """generator that has not been started"""

    def __init__(self, start):
        self.start = start      # start(on_yield)


class Partial(Value):
    def __init__(self, f):
        self.f = f              # python callable (args, kwargs) -> value


class Star(Value):
    """arguments of symbolic number"""
    def __init__(self, v):
        self.v = v


class Slice(Value):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


MODELS = {}         # native callable -> handler(args, kwargs)
CONTRACTS = {}      # function qualname -> handler(args, kwargs) (modular)
INVARIANTS = {}     # (qualname, ordinal) -> loop contract
_src = {}


def model(*fns):
    def deco(h):
        for f in fns:
            MODELS[f] = h
        return h
    return deco


def fn_key(fn):
    return '%s.%s' % (fn.__module__, fn.__qualname__)


def is_repo(fn):
    try:
        f = inspect.getsourcefile(fn)
    except TypeError:
        return False
    return f is not None and os.path.realpath(f).startswith(
        os.path.realpath(REPO) + os.sep)


def source(fn):
    if fn not in _src:
        s = textwrap.dedent(inspect.getsource(fn))
        tree = ast.parse(s)
        node = tree.body[0]
        if not isinstance(node, ast.FunctionDef):
            raise Unsupported('source of ' + fn.__name__)
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                    body[0].value.value, str):
            body = body[1:]
        dump = ast.dump(ast.Module(body, [])) + ast.dump(node.args)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                    for x in walk_fn(node))
        _src[fn] = (node, body, hashlib.sha256(dump.encode()).hexdigest()[
            :12], isgen)
    return _src[fn]


def module_sha(fn):
    """hash of everything in the module outside function bodies"""
    try:
        tree = ast.parse(open(inspect.getsourcefile(fn)).read())
    except (OSError, TypeError):
        return '-'

    def strip(body):
        out = []
        for s in body:
            if isinstance(s, ast.FunctionDef):
                out.append('def ' + ','.join(
                    ast.dump(d) for d in s.decorator_list))
            elif isinstance(s, ast.ClassDef):
                out.append('class %s %s %s' % (s.name, [
                    ast.dump(b) for b in s.bases], strip(s.body)))
            elif isinstance(s, ast.Expr) and isinstance(
                    s.value, ast.Constant):
                pass
            else:
                out.append(ast.dump(s))
        return out
    return hashlib.sha256(repr(strip(tree.body)).encode()).hexdigest()[:12]


def walk_fn(node):
    for ch in ast.iter_child_nodes(node):
        yield ch
        if not isinstance(ch, (ast.FunctionDef, ast.Lambda)):
            for x in walk_fn(ch):
                yield x


# --------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------

def call(f, args, kwargs=None):
    kwargs = kwargs or {}
    if any(isinstance(a, Star) for a in args) and not getattr(
            f, 'star', False) and not isinstance(f, types.FunctionType):
        raise Unsupported('* of symbolic length')
    if isinstance(f, Bound):
        return call_fn(f.fn, [f.self_] + list(args), kwargs)
    if isinstance(f, Partial):
        return f.f(list(args), kwargs)
    if isinstance(f, Closure):
        return call_closure(f, args, kwargs)
    if isinstance(f, Opaque) and '__call__' in f.attrs:
        return f.attrs['__call__'](list(args), kwargs)
    try:
        h = MODELS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(list(args), kwargs)
    if isinstance(f, type):
        return instantiate(f, args, kwargs)
    if isinstance(f, types.FunctionType):
        return call_fn(f, list(args), kwargs)
    if isinstance(f, types.MethodType):
        return call_fn(f.__func__, [f.__self__] + list(args), kwargs)
    if isinstance(f, VIte):
        return call(f.a if ctx().branch(f.c) else f.b, args, kwargs)
    raise Unsupported('call of %r' % (f,))


def instantiate(cls, args, kwargs):
    if issubclass(cls, BaseException):
        return ExcVal(cls, list(args))
    if not is_repo(cls) and '%s.%s' % (
            cls.__module__, cls.__qualname__) not in INTERPRET:
        raise Unsupported('instance of %s' % cls.__name__)
    o = Obj(cls)
    init = find_attr(cls, '__init__')
    if init is not None and isinstance(init, types.FunctionType):
        call_fn(init, [o] + list(args), kwargs)
    return o


def find_attr(cls, name, after=None):
    mro = cls.__mro__
    if after is not None:
        mro = mro[mro.index(after) + 1:]
    for c in mro:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


def call_fn(fn, args, kwargs, on_yield=None):
    C = ctx()
    key = fn_key(fn)
    h = CONTRACTS.get(key)
    if h is not None and C.depth > 0 and key not in C.functions_inlined:
        # a call from the program: its contract, not its body
        return h(args, kwargs)
    if not is_repo(fn) and key not in INTERPRET:
        if fn.__name__ == '__init__' and fn.__qualname__ == 'object.__init__':
            return None
        raise Unsupported('call of %s' % key)
    node, body, sha, isgen = source(fn)
    C.functions[key] = sha
    if fn.__module__ not in C.modules:
        C.modules.add(fn.__module__)
        C.functions['%s (module level)' % fn.__module__] = module_sha(fn)
    C.depth += 1
    if C.depth > 40:
        raise Unsupported('recursion of ' + key)
    try:
        vars_ = bind(fn, node, args, kwargs)
        fr = Frame(fn, vars_)
        if isgen:
            def start(cb):
                fr.on_yield = cb
                it = Interp(fr)
                try:
                    it.block(body)
                except ReturnEx:
                    pass
            return Gen(start)
        try:
            Interp(fr).block(body)
        except ReturnEx as r:
            return r.v
        return None
    finally:
        C.depth -= 1


INTERPRET = set()


def bind(fn, node, args, kwargs):
    a = node.args
    names = [x.arg for x in a.args]
    vars_ = {}
    args = list(args)
    kwargs = dict(kwargs)
    for n, v in zip(names, args):
        vars_[n] = v
    extra = args[len(names):]
    if any(isinstance(x, Star) for x in args):
        if a.vararg is None or len(extra) != 1 or any(
                isinstance(x, Star) for x in args[:len(names)]):
            raise Unsupported('* of symbolic length')
        vars_[a.vararg.arg] = extra[0].v
    elif a.vararg is not None:
        vars_[a.vararg.arg] = tuple(extra)
    elif extra:
        raise PyExc(TypeError, 'too many arguments for %s' % fn.__name__)
    for k in list(kwargs):
        if k in names or k in [x.arg for x in a.kwonlyargs]:
            if k in vars_:
                raise PyExc(TypeError, 'multiple values for ' + k)
            vars_[k] = kwargs.pop(k)
    if a.kwarg is not None:
        vars_[a.kwarg.arg] = PDict(kwargs)
    elif kwargs:
        raise PyExc(TypeError, 'unexpected arguments %s of %s' % (
            sorted(kwargs), fn.__name__))
    defs = fn.__defaults__ or ()
    for n, d in zip(names[len(names) - len(defs):], defs):
        if n not in vars_:
            vars_[n] = lift(d)
    for n, d in (fn.__kwdefaults__ or {}).items():
        if n not in vars_:
            vars_[n] = lift(d)
    for n in names:
        if n not in vars_:
            raise PyExc(TypeError, 'missing argument %s of %s' % (
                n, fn.__name__))
    return vars_


def call_closure(f, args, kwargs):
    node = f.node
    names = [x.arg for x in node.args.args]
    vars_ = dict(f.frame.vars)
    if kwargs or len(args) != len(names) or node.args.vararg:
        if not (len(args) <= len(names) and set(kwargs) <= set(names)):
            raise Unsupported('closure arguments')
    for n, v in zip(names, args):
        vars_[n] = v
    vars_.update(kwargs)
    fr = Frame(f.frame.fn, vars_)
    it = Interp(fr)
    if isinstance(node, ast.Lambda):
        return it.ev(node.body)
    ds = node.args.defaults
    for a, d in zip(names[len(names) - len(ds):], ds):
        if a not in names[:len(args)] and a not in kwargs:
            fr.vars[a] = Interp(f.frame).ev(d)
    if any(isinstance(x, ast.Yield) for x in walk_fn(node)):
        raise Unsupported('nested generator')
    try:
        it.block(node.body)
    except ReturnEx as r:
        return r.v
    return None


def lift(v):
    """value of a native Python object"""
    if isinstance(v, np.ndarray):
        return from_numpy(v)
    if isinstance(v, list):
        return PList([lift(x) for x in v])
    if isinstance(v, dict) and type(v) is dict:
        return PDict({k: lift(x) for k, x in v.items()})
    if isinstance(v, tuple):
        return tuple(lift(x) for x in v)
    return v


# --------------------------------------------------------------------------
# statements
# --------------------------------------------------------------------------

class Interp(object):
    def __init__(self, frame):
        self.f = frame
        self.fn = frame.fn

    # ---- blocks
    def block(self, stmts, top=False):
        stmts = list(stmts)
        for k, s in enumerate(stmts):
            if isinstance(s, ast.If):
                c = self.truth(self.ev(s.test))
                if c is None or isinstance(c, T):
                    C = ctx()
                    d = C.decide(c)
                    if d is None and C.in_loop and getattr(
                            self.f, 'staying', False) and (
                                leaves(s.body) or leaves(s.orelse)):
                        # the iterations that do not leave the loop
                        out = leaves(s.body)
                        C.scope.append(not_(c) if out else c)
                        self.block(s.orelse if out else s.body, top)
                        continue
                    if d is None and C.in_loop:
                        self.merge_if(c, s, stmts[k + 1:], top)
                        return
                    c = d if d is not None else C.choose(c)
                self.block(s.body if c else s.orelse, top)
                continue
            self.stmt(s)

    def merge_if(self, c, s, rest, top):
        """both branches (with the rest of the block) and a merge"""
        C = ctx()
        res = []
        snap = C.snapshot()
        n0 = len(C.scope)
        for cond, body in ((c, s.body), (not_(c), s.orelse)):
            C.restore(snap)
            C.scope.append(cond)
            out = 'end'
            try:
                self.block(list(body) + list(rest), top)
            except ContinueEx:
                out = 'continue'
            except PyExc as e:
                C.oblige('no %s: %s' % (e.cls.__name__, e.msg), FALSE)
                out = 'dead'
            extra = [f for f in C.scope[n0 + 1:]]
            del C.scope[n0:]
            for f in extra:
                C.scope.append(imp(cond, f))
                n0 += 1
            res.append((out, C.snapshot()))
        live = [r for r in res if r[0] != 'dead']
        if not live:
            raise Unsupported('both branches fail')
        if len(live) == 2:
            if live[0][0] != live[1][0] and not top:
                raise Unsupported('continue inside a nested block')
            self.merge(c, snap, live[0][1], live[1][1])
        else:
            C.restore(live[0][1])
        if live[0][0] == 'continue' and live[-1][0] == 'continue':
            raise ContinueEx()

    def merge(self, c, snap, s1, s2):
        d1 = {id(x): (x, s) for x, s in s1}
        d2 = {id(x): (x, s) for x, s in s2}
        for x, s0 in snap:
            a, b = d1[id(x)][1], d2[id(x)][1]
            if isinstance(x, Buffer):
                if a[0] is b[0]:
                    x.load(a)
                    continue
                x.content = merge_content(c, a[0], b[0], x.kind)
                n = len(s0[1])
                x.log = s0[1] + tuple(
                    guard_log(c, w) for w in a[1][n:]) + tuple(
                        guard_log(not_(c), w) for w in b[1][n:])
            elif isinstance(a, DState) or isinstance(b, DState) or \
                    isinstance(x, PDict) and set(a) != set(b) and all(
                        isinstance(k, str) for k in list(a) + list(b)):
                if a == b:
                    x.load(a)
                    continue
                ks = a.ksort if isinstance(a, DState) else \
                    b.ksort if isinstance(b, DState) else 'U'
                n = len(s0.log) if isinstance(s0, DState) else 0
                a, b = DState.of(a, ks), DState.of(b, ks)
                (da, va, na, oa), (db, vb, nb, ob) = a.state, b.state
                x.load(DState((
                    lambda k, da=da, db=db: ite(c, da(k), db(k)),
                    lambda k, va=va, vb=vb: vite_def(c, va(k), vb(k)),
                    None, None), ks, a.log[:n] + tuple(
                        (and_(c, w), k, v) for w, k, v in a.log[n:]) + tuple(
                        (and_(not_(c), w), k, v) for w, k, v in b.log[n:])))
            elif isinstance(x, (Frame, Obj, PDict)):
                out = {}
                for k in list(a) + [k for k in b if k not in a]:
                    va, vb = a.get(k, UNDEF), b.get(k, UNDEF)
                    if va is vb:
                        out[k] = va
                    elif isinstance(x, PDict) and (va is UNDEF or
                                                   vb is UNDEF):
                        raise Unsupported('conditional dictionary key')
                    else:
                        out[k] = vite(c, va, vb)
                x.load(out)
            elif isinstance(x, PList):
                if len(a) != len(b):
                    raise Unsupported('conditional append')
                x.load([vite(c, p, q) for p, q in zip(a, b)])
            elif a is b or a == b:
                x.load(a)
            else:
                raise Unsupported('merge of %s' % type(x).__name__)
        # cells born in the branches keep their own state
        for d in (d1, d2):
            known = set(id(x) for x, _ in snap)
            for k, (x, s) in d.items():
                if k not in known:
                    x.load(s)

    # ---- statements
    def stmt(self, s):
        C = ctx()
        C.where = '%s:%d' % (self.fn.__qualname__, getattr(s, 'lineno', 0))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                import importlib
                mod = importlib.import_module(a.name)
            self.f.vars[a.asname or a.name.split('.')[0]] = mod

    def s_ImportFrom(self, s):
        import importlib
        pk = self.fn.__globals__.get('__package__')
        m = importlib.import_module('.' * s.level + (s.module or ''), pk)
        for a in s.names:
            self.f.vars[a.asname or a.name] = getattr(m, a.name)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Yield):
            v = None if s.value.value is None else self.ev(s.value.value)
            if self.f.on_yield is None:
                raise Unsupported('yield')
            self.f.on_yield(v)
            return
        self.ev(s.value)

    def s_Return(self, s):
        if ctx().in_loop and getattr(self.f, 'loop_depth', 0):
            raise Unsupported('return inside a symbolic loop')
        raise ReturnEx(None if s.value is None else self.ev(s.value))

    def s_Raise(self, s):
        if s.exc is None:
            raise self.f.cur_exc
        v = self.ev(s.exc)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v, [])
        if not isinstance(v, ExcVal):
            raise Unsupported('raise')
        raise PyExc(v.cls, str(v.args[0]) if v.args and isinstance(
            v.args[0], str) else '', v)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        r = self.ev(s.value)
        from .models import binop, inplace
        if isinstance(t, ast.Name):
            cur = self.ev_name(t.id)
            self.f.vars[t.id] = inplace(s.op, cur, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = getattribute(o, t.attr)
            setattribute(o, t.attr, inplace(s.op, cur, r))
        elif isinstance(t, ast.Subscript):
            from .models import getitem, setitem
            o = self.ev(t.value)
            k = self.ev_key(t.slice)
            cur = getitem(o, k)
            setitem(o, k, inplace(s.op, cur, r))
        else:
            raise Unsupported('augmented assignment')

    def s_Delete(self, s):
        from .models import delitem
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.f.vars.pop(t.id)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if not isinstance(o, Obj) or t.attr not in o.attrs:
                    raise Unsupported('del')
                del o.attrs[t.attr]
            else:
                delitem(self.ev(t.value), self.ev_key(t.slice))

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        ctx().require(to_term(c), AssertionError, 'assert')

    def s_If(self, s):
        self.block([s])

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_FunctionDef(self, s):
        self.f.vars[s.name] = Closure(s, self.f, s.name)

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported('try .. finally')
        try:
            self.block(s.body)
        except PyExc as e:
            for h in s.handlers:
                cls = BaseException if h.type is None else self.ev(h.type)
                cl = cls if isinstance(cls, tuple) else (cls,)
                if any(issubclass(e.cls, c) for c in cl):
                    if h.name:
                        self.f.vars[h.name] = e.value or ExcVal(e.cls, [])
                    self.f.cur_exc = e
                    self.block(h.body)
                    return
            raise
        else:
            self.block(s.orelse)

    def s_With(self, s):
        raise Unsupported('with')

    def s_While(self, s):
        C = ctx()
        n = 0
        while True:
            c = self.truth(self.ev(s.test))
            if isinstance(c, T):
                d = C.decide(c)
                if d is None:
                    raise Unsupported('while with a symbolic condition')
                c = d
            if not c:
                self.block(s.orelse)
                return
            n += 1
            if n > 64:
                raise Unsupported('while loop too long')
            try:
                self.block(s.body)
            except BreakEx:
                return
            except ContinueEx:
                pass

    def s_For(self, s):
        from .models import iter_of
        it = self.ev(s.iter)
        if isinstance(it, VIte):
            it = it.a if ctx().branch(it.c) else it.b
        if isinstance(it, Gen):
            if s.orelse:
                raise Unsupported('for .. else over a generator')

            def cb(v):
                self.assign(s.target, v)
                try:
                    self.block(s.body, True)
                except ContinueEx:
                    pass
            try:
                it.start(cb)
            except BreakEx:
                if ctx().in_loop:
                    raise Unsupported('break')
            return
        n, item = iter_of(it)
        inv = self.invariant(s)
        if inv is not None:
            inv(self, s, n, item)
            return
        if not isinstance(n, T):
            for k in range(n):
                self.assign(s.target, item(k))
                try:
                    self.block(s.body, False)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.block(s.orelse)
            return
        if any(isinstance(x, (ast.Break, ast.Return))
               for b in s.body for x in [b] + list(walk_fn(b))):
            from .loops import search_loop
            search_loop(self, s, n, item)
            return

        def body(i):
            self.assign(s.target, item(i))
            try:
                self.block(s.body, True)
            except ContinueEx:
                pass
        if n in ctx().generic:
            self.foreach(s, n, body)
            return
        from .loops import sym_for
        sym_for(n, body, '%s:%d' % (self.fn.__qualname__, s.lineno), self)
        self.block(s.orelse)

    def foreach(self, s, n, body):
        """loop over the entries of a container of which only one arbitrary
        entry is described: the body is executed for that entry; it cannot
        refer to any other entry or to variables of other iterations"""
        C = ctx()
        i = C.generic[n]
        names = set(x.id for b in s.body + [s.target] for x in ast.walk(b)
                    if isinstance(x, ast.Name) and
                    isinstance(x.ctx, ast.Store))
        for k in names:
            self.f.vars[k] = UNDEF
        # conditions on the described entry become path conditions
        C.assume(and_(le(ZERO, i), lt(i, n)))
        body(i)
        for k in names:
            self.f.vars[k] = UNDEF
        self.block(s.orelse)

    def invariant(self, s):
        key = fn_key(self.fn)
        if not any(k[0] == key for k in INVARIANTS):
            return None
        node = source(self.fn)[0]
        fors = [x for x in walk_fn(node) if isinstance(x, (ast.For,
                                                           ast.While))]
        for k, x in enumerate(fors):
            if x is s:
                return INVARIANTS.get((key, k))
        return None

    # ---- targets
    def assign(self, t, v):
        from .models import setitem, unpack
        if isinstance(t, ast.Name):
            self.f.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            setattribute(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            setitem(self.ev(t.value), self.ev_key(t.slice), v)
        else:
            raise Unsupported('assignment target')

    # ---- expressions
    def truth(self, v):
        from .models import truth
        return truth(v)

    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def ev_name(self, n):
        if n in self.f.vars:
            v = self.f.vars[n]
            if v is UNDEF:
                raise Unsupported('variable %s may be undefined' % n)
            return v
        fn = self.fn
        if n in fn.__code__.co_freevars:
            k = fn.__code__.co_freevars.index(n)
            return lift(fn.__closure__[k].cell_contents)
        if n in fn.__globals__:
            return lift(fn.__globals__[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyExc(NameError, n)

    def e_Name(self, e):
        return self.ev_name(e.id)

    def e_Attribute(self, e):
        return getattribute(self.ev(e.value), e.attr)

    def ev_key(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_key(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x)
            return Slice(g(s.lower), g(s.upper), g(s.step))
        return self.ev(s)

    def e_Subscript(self, e):
        from .models import getitem
        return getitem(self.ev(e.value), self.ev_key(e.slice))

    def e_Tuple(self, e):
        return tuple(self.ev(x) for x in e.elts)

    def e_List(self, e):
        return PList([self.ev(x) for x in e.elts])

    def e_Dict(self, e):
        from .models import setitem
        d = PDict({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if not isinstance(o, PDict) or not isinstance(d, PDict):
                    raise Unsupported('** in a dictionary')
                d.items.update(o.items)
                continue
            k = self.ev(k)
            setitem(d, k, self.ev(v))
        return d

    def e_BinOp(self, e):
        from .models import binop
        return binop(e.op, self.ev(e.left), self.ev(e.right))

    def e_UnaryOp(self, e):
        from .models import unop
        return unop(e.op, self.ev(e.operand))

    def e_Lambda(self, e):
        return Closure(e, self.f, 'lambda')

    def e_IfExp(self, e):
        C = ctx()
        c = self.truth(self.ev(e.test))
        if isinstance(c, T):
            d = C.decide(c)
            if d is None:
                if not C.in_loop:
                    c = C.choose(c)
                else:
                    n0 = len(C.scope)
                    C.scope.append(c)
                    a = self.ev(e.body)
                    del C.scope[n0:]
                    C.scope.append(not_(c))
                    b = self.ev(e.orelse)
                    del C.scope[n0:]
                    return vite(c, a, b)
            else:
                c = d
        return self.ev(e.body if c else e.orelse)

    def e_BoolOp(self, e):
        C = ctx()
        isand = isinstance(e.op, ast.And)
        acc = None      # accumulated symbolic condition
        n0 = len(C.scope)
        try:
            last = None
            for k, x in enumerate(e.values):
                v = self.ev(x)
                last = v
                c = self.truth(v)
                if isinstance(c, T):
                    d = C.decide(c)
                    if d is not None:
                        c = d
                if not isinstance(c, T):
                    if isand and not c:
                        return False if acc is not None or isinstance(
                            v, T) else v
                    if not isand and c:
                        if acc is None:
                            return True if isinstance(v, T) else v
                        return True
                    continue
                acc = c if acc is None else (and_(acc, c) if isand else
                                             or_(acc, c))
                C.scope.append(c if isand else not_(c))
            if acc is not None:
                return acc
            return last
        finally:
            del C.scope[n0:]

    def e_Compare(self, e):
        from .models import compare
        left = self.ev(e.left)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            v = compare(op, left, right)
            if acc is None:
                acc = v
            else:
                a, b = self.truth(acc), self.truth(v)
                if isinstance(a, T) or isinstance(b, T):
                    acc = and_(to_term(a), to_term(b))
                else:
                    acc = a and b
            left = right
        return acc

    def e_Call(self, e):
        from . import models
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                'super' not in self.f.vars:
            if e.args:
                return Super(self.ev(e.args[0]), self.ev(e.args[1]))
            node = source(self.fn)[0]
            k = self.fn.__code__.co_freevars.index('__class__')
            return Super(self.fn.__closure__[k].cell_contents,
                         self.f.vars[node.args.args[0].arg])
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                n, item = models.iter_of(v)
                if isinstance(n, T):
                    args.append(Star(SList(n, item)))
                    continue
                args += [item(k) for k in range(n)]
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value)
                if not isinstance(o, PDict):
                    raise Unsupported('** of %s' % type(o).__name__)
                for n, v in o.items.items():
                    if n in kw:
                        raise PyExc(TypeError, 'multiple values for ' +
                                    str(n))
                    kw[n] = v
            else:
                kw[k.arg] = self.ev(k.value)
        return call(f, args, kw)

    def e_JoinedStr(self, e):
        return Opaque('formatted string')

    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'list')

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    def e_SetComp(self, e):
        raise Unsupported('set comprehension')

    def comp(self, e, what):
        from . import models
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        n, item = models.iter_of(self.ev(g.iter))
        names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        save = {k: self.f.vars.get(k) for k in names}
        had = {k for k in names if k in self.f.vars}
        try:
            if not isinstance(n, T):
                out = []
                for k in range(n):
                    self.assign(g.target, item(k))
                    ok = True
                    for c in g.ifs:
                        t = self.truth(self.ev(c))
                        if isinstance(t, T):
                            t = ctx().branch(t)
                        ok = ok and t
                    if not ok:
                        continue
                    if what == 'list':
                        out.append(self.ev(e.elt))
                    else:
                        out.append((self.ev(e.key), self.ev(e.value)))
                if what == 'list':
                    return PList(out)
                d = {}
                for k, v in out:
                    if isinstance(k, T):
                        raise Unsupported('symbolic keys')
                    d[k] = v
                return PDict(d)
            if g.ifs:
                raise Unsupported('filtered comprehension')
            C = ctx()
            i = fresh('c', 'I')
            n0 = len(C.scope)
            C.scope += [le(ZERO, i), lt(i, n)]
            C.in_loop += 1
            try:
                snap = C.snapshot()
                self.assign(g.target, item(i))
                if what == 'list':
                    v = self.ev(e.elt)
                else:
                    v = (self.ev(e.key), self.ev(e.value))
                for c, s in snap:
                    if c is self.f:
                        continue
                    if isinstance(c, Buffer):
                        if c.content is not s[0]:
                            raise Unsupported('side effect')
                    elif c.save() != s:
                        raise Unsupported('side effect in a comprehension')
            finally:
                C.in_loop -= 1
                del C.scope[n0:]
            if what == 'list':
                return SList(n, lambda t: vsubst(v, {i: to_term(t)}))
            return models.sym_dict(n, i, v[0], v[1])
        finally:
            for k in names:
                if k in had:
                    self.f.vars[k] = save[k]
                else:
                    self.f.vars.pop(k, None)


def leaves(stmts):
    """does the block end in break or return"""
    if not stmts:
        return False
    t = stmts[-1]
    if isinstance(t, ast.If):
        return leaves(t.body) and leaves(t.orelse)
    return isinstance(t, (ast.Break, ast.Return))


def vite_def(c, a, b):
    """conditional value; a side that is undefined is never looked at"""
    if a is UNDEF or b is UNDEF:
        return b if a is UNDEF else a
    return vite(c, a, b)


def merge_content(c, a, b, kind):
    if kind == 'O':
        return memo1(lambda idx: vite(c, a(idx), b(idx)))
    return memo1(lambda idx: ite(c, a(idx), b(idx)))


def guard_log(c, w):
    def g(bi):
        k, v = w(bi)
        return and_(c, k), v
    return g


# --------------------------------------------------------------------------
# attributes
# --------------------------------------------------------------------------

def getattribute(o, name):
    from . import models
    if isinstance(o, Obj):
        if name in o.attrs:
            v = o.attrs[name]
            if v is UNDEF or isinstance(v, Havoc):
                raise Unsupported('attribute %s is unknown here' % name)
            return v
        if name == '__class__':
            return o.cls
        a = find_attr(o.cls, name)
        if a is None:
            raise PyExc(AttributeError, name)
        return bind_attr(a, o)
    if isinstance(o, Super):
        cls = o.obj.cls if isinstance(o.obj, Obj) else type(o.obj)
        a = find_attr(cls, name, o.cls)
        if a is None:
            raise PyExc(AttributeError, name)
        if a is object.__init__:
            return Partial(lambda args, kw: None)
        return bind_attr(a, o.obj)
    if isinstance(o, VIte):
        return getattribute(o.a if ctx().branch(o.c) else o.b, name)
    if isinstance(o, (Value, T)) or isinstance(o, (int, float, str, tuple,
                                                  np.number)):
        return models.value_attr(o, name)
    if o is None:
        raise PyExc(AttributeError, name)
    import logging
    if isinstance(o, logging.Logger):
        return Partial(lambda args, kw: None)
    try:
        return lift(getattr(o, name))
    except AttributeError:
        raise PyExc(AttributeError, name)


def bind_attr(a, o):
    if isinstance(a, staticmethod):
        return a.__func__
    if isinstance(a, classmethod):
        raise Unsupported('classmethod')
    if isinstance(a, property):
        return call_fn(a.fget, [o], {})
    if isinstance(a, types.FunctionType):
        return Bound(a, o)
    return lift(a)


def setattribute(o, name, v):
    if isinstance(o, Obj):
        o.attrs[name] = v
        return
    if isinstance(o, VIte):
        return setattribute(o.a if ctx().branch(o.c) else o.b, name, v)
    raise Unsupported('attribute assignment')
