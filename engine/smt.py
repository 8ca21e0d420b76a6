"""SMT-LIB translation and solver drivers."""
import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction
from .term import *
from . import term as tm

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _z3():
    if VT not in sys.path:
        sys.path.append(VT)
    import z3
    return z3


class Xlate(object):
    def __init__(self):
        self.decl = {}          # name -> (argsorts, sort)
        self.order = []
        self.sums = {}          # ground sum term -> smt string
        self.memo = {}
        self.econsts = {}
        self.bound = frozenset()
        self.sumkeys = {}
        self.counts = {}        # sum term -> the same as an application
        self.tied = set()
        self.extra = []
        self.used = set()

    S = {'I': 'Int', 'R': 'Real', 'B': 'Bool', 'E': 'Real', 'U': 'UU'}

    def sym(self, name):
        return '|%s|' % name.replace('|', '_')

    def declare(self, name, args, sort):
        key = self.sym(name)
        if key in self.decl:
            a0, s0 = self.decl[key]
            if a0 != tuple(args) or s0 != sort:
                key = self.sym(name + '/' + ''.join(args) + '>' + sort)
                if key not in self.decl:
                    self.decl[key] = (tuple(args), sort)
                    self.order.append(key)
        else:
            self.decl[key] = (tuple(args), sort)
            self.order.append(key)
        return key

    def frac(self, c):
        c = Fraction(c)
        if c.denominator == 1:
            return str(c.numerator) if c >= 0 else '(- %d)' % -c.numerator
        return None

    def rnum(self, c):
        c = Fraction(c)
        n = '%d.0' % abs(c.numerator)
        s = n if c.denominator == 1 else '(/ %s %d.0)' % (n, c.denominator)
        return s if c >= 0 else '(- %s)' % s

    def t(self, x, want=None):
        """translate; want 'R' coerces an integer term to Real"""
        s = self.raw(x)
        if want == 'R' and x.sort == 'I':
            if x.op == 'poly' and is_num(x):
                return self.rnum(numval(x))
            return '(to_real %s)' % s
        return s

    def raw(self, x):
        key = (x, )
        if not fv(x) & self.bound:
            r = self.memo.get(x)
            if r is not None:
                return r
        r = self._raw(x)
        if not fv(x) & self.bound:
            self.memo[x] = r
        return r

    def _raw(self, x):
        op = x.op
        if op == 'var':
            if x.args[0] in self.bound:
                return self.sym(x.args[0])
            return self.declare(x.args[0], (), x.sort)
        if op == 'true' or op == 'false':
            return op
        if op == 'poly':
            s = x.sort
            parts = []
            for m, c in x.args:
                fs = []
                for a, e in m:
                    if a.op == 'par':
                        base = self.t(a.args[0], 'R')
                    else:
                        base = self.t(a, s)
                    if e < 0:
                        self.used.add('recip')
                        rb = '(recip %s)' % (self.t(a.args[0], 'R') if
                                             a.op == 'par' else
                                             self.t(a, 'R'))
                        fs += [rb] * (-e)
                    else:
                        fs += [base] * e
                if c != 1 or not fs:
                    fs.insert(0, self.frac(c) if s == 'I' else self.rnum(c))
                parts.append(fs[0] if len(fs) == 1 else
                             '(* %s)' % ' '.join(fs))
            if not parts:
                return '0'
            return parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)
        if op == 'par':
            return self.t(x.args[0], 'R')
        if op == 'app':
            name = x.args[0]
            if name in ('expit', 'log', 'exp', 'sqrt', 'recip'):
                self.used.add(name)
                return '(%s %s)' % (name, self.t(x.args[1], 'R'))
            key = self.declare(name, tuple(a.sort for a in x.args[1:]),
                               x.sort)
            if len(x.args) == 1:
                return key
            return '(%s %s)' % (key, ' '.join(self.t(a) for a in x.args[1:]))
        if op == 'const':
            key = self.declare('const:%s:%s' % (x.sort, x.args[0]), (),
                               x.sort)
            self.econsts.setdefault(x.sort, set()).add(key)
            return key
        if op == 'inf':
            raise ValueError('infinite value in a formula')
        if op == 'lt0':
            a = x.args[0]
            return '(< %s %s)' % (self.raw(a), '0' if a.sort == 'I' else '0.0')
        if op == 'le0':
            a = x.args[0]
            return '(<= %s %s)' % (self.raw(a),
                                   '0' if a.sort == 'I' else '0.0')
        if op == 'eq0':
            a = x.args[0]
            return '(= %s %s)' % (self.raw(a), '0' if a.sort == 'I' else '0.0')
        if op == 'eq':
            return '(= %s %s)' % (self.raw(x.args[0]), self.raw(x.args[1]))
        if op == 'ltE':
            return '(< %s %s)' % (self.raw(x.args[0]), self.raw(x.args[1]))
        if op == 'not':
            return '(not %s)' % self.raw(x.args[0])
        if op in ('and', 'or'):
            return '(%s %s)' % (op, ' '.join(self.raw(a) for a in x.args))
        if op == 'ite':
            c, a, b = x.args
            return '(ite %s %s %s)' % (self.raw(c), self.t(a, x.sort),
                                       self.t(b, x.sort))
        if op in ('forall', 'exists'):
            vs, body, trig = x.args
            old = self.bound
            self.bound = old | frozenset(v.args[0] for v in vs)
            try:
                b = self.raw(body)
                cover = set(v.args[0] for v in vs)
                tr = [self.raw(y) for y in trig] if all(
                    cover <= fv(y) for y in trig) else []
            finally:
                self.bound = old
            vl = ' '.join('(%s %s)' % (self.sym(v.args[0]), self.S[v.sort])
                          for v in vs)
            if tr:
                pats = ' '.join(':pattern (%s)' % y for y in tr)
                b = '(! %s %s)' % (b, pats)
            return '(%s (%s) %s)' % (op, vl, b)
        if op == 'sum':
            return self.sum(x)
        if op == 'floor':
            return '(to_int %s)' % self.t(x.args[0], 'R')
        if op == 'mod':
            return '(mod %s %s)' % (self.raw(x.args[0]), self.raw(x.args[1]))
        if op == 'idiv':
            return '(div %s %s)' % (self.raw(x.args[0]), self.raw(x.args[1]))
        raise ValueError('cannot translate ' + op)

    def sum(self, x):
        c = self.counts.get(x)
        if c is None:
            return self.sum0(x)
        # the number of selected elements
        s = self.raw(c)
        if not fv(x) & self.bound and x not in self.tied:
            self.tied.add(x)
            self.extra.append('(= %s %s)' % (s, self.sum0(x)))
        return s

    def sum0(self, x):
        # abstract over the bound variables that occur
        bv = sorted(fv(x) & self.bound)
        ren = {}
        vs = []
        for i, n in enumerate(bv):
            # find the sort by scanning
            v = self._findvar(x, n)
            vs.append(v)
            ren[v] = var('$a%d' % i, v.sort)
        key = subst(x, ren)
        nm = self.sumkeys.get(key)
        if nm is None:
            nm = 'sum#%d' % len(self.sumkeys)
            self.sumkeys[key] = nm
        k = self.declare(nm, tuple(v.sort for v in vs), x.sort)
        if not vs:
            self.sums[x] = k
            return k
        return '(%s %s)' % (k, ' '.join(self.raw(v) for v in vs))

    def _findvar(self, x, n):
        for y in subterms(x):
            if y.op == 'var' and y.args[0] == n:
                return y
        raise KeyError(n)


def skolemize(goal):
    """goal -> list of (hyps, goal) with outer quantifiers removed"""
    out = []

    def go(h, g):
        if g.op == 'and':
            for a in g.args:
                go(h, a)
        elif g.op == 'forall':
            vs, body, _ = g.args
            go(h, subst(body, {v: fresh('sk_' + v.args[0].split('!')[0],
                                        v.sort) for v in vs}))
        elif g.op == 'or':
            fs = [a for a in g.args if a.op in ('forall', 'and')]
            f = fs[0] if fs else max(g.args, key=lambda a: (
                a.op == 'not' and a.args[0].op == 'forall',
                a.op != 'not', len(list(subterms(a)))))
            rest = []
            for a in g.args:
                if a is not f:
                    a = not_(a)
                    rest += list(a.args) if a.op == 'and' else [a]
            if fs:
                go(h + rest, f)
            else:
                out.append((h + rest, f))
        elif g is TRUE:
            pass
        else:
            out.append((h, g))
    go([], goal)
    return out


def sum_lemmas(sums, extra_pairs=True, maxn=14):
    """valid facts about the ground sums of a query"""
    res = []
    sums = list(sums)[:maxn]
    for s in sums:
        v, n, b = s.args
        # a skolem witness of a negative / non-positive summand
        w = fresh('wit', 'I')
        bw = subst(b, {v: w})
        res.append(or_(and_(le(ZERO, w), lt(w, n), lt(bw, ZERO)),
                       le(ZERO, s)))
        w2 = fresh('wit', 'I')
        bw2 = subst(b, {v: w2})
        res.append(or_(and_(le(ZERO, w2), lt(w2, n), le(bw2, ZERO)),
                       le(n, ZERO), lt(ZERO, s)))
        # zero when every summand is zero / when the range is empty
        w4 = fresh('wit', 'I')
        res.append(or_(and_(le(ZERO, w4), lt(w4, n),
                            not_(eq(subst(b, {v: w4}), ZERO))),
                       eq(s, ZERO)))
        res.append(imp(le(n, ZERO), eq(s, ZERO)))
        if b.op == 'ite' and is_ind(b):
            res.append(imp(le(ZERO, n), le(s, n)))
    for i in range(len(sums)):
        for j in range(i + 1, len(sums)):
            a, c = sums[i], sums[j]
            w3 = fresh('wit', 'I')
            ba = subst(a.args[2], {a.args[0]: w3})
            bc = subst(c.args[2], {c.args[0]: w3})
            res.append(or_(not_(eq(a.args[1], c.args[1])),
                           and_(le(ZERO, w3), lt(w3, a.args[1]),
                                not_(eq(ba, bc))),
                           eq(a, c)))
            # pointwise comparison
            w5 = fresh('wit', 'I')
            ba = subst(a.args[2], {a.args[0]: w5})
            bc = subst(c.args[2], {c.args[0]: w5})
            rg = and_(le(ZERO, w5), lt(w5, a.args[1]))
            res.append(or_(not_(eq(a.args[1], c.args[1])),
                           and_(rg, lt(bc, ba)), le(a, c)))
            res.append(or_(not_(eq(a.args[1], c.args[1])),
                           and_(rg, lt(ba, bc)), le(c, a)))
    return res


AX = {
    'recip': ['(declare-fun recip (Real) Real)',
              '(assert (forall ((x Real)) (! (=> (not (= x 0.0)) (= (* x (recip x)) 1.0)) :pattern ((recip x)))))',
              '(assert (forall ((x Real)) (! (=> (> x 0.0) (> (recip x) 0.0)) :pattern ((recip x)))))',
              '(assert (forall ((x Real)) (! (=> (< x 0.0) (< (recip x) 0.0)) :pattern ((recip x)))))'],
    'sqrt': ['(declare-fun sqrt (Real) Real)',
             '(assert (forall ((x Real)) (! (and (>= (sqrt x) 0.0) (=> (>= x 0.0) (= (* (sqrt x) (sqrt x)) x))) :pattern ((sqrt x)))))'],
    'expit': ['(declare-fun expit (Real) Real)',
              '(assert (forall ((x Real)) (! (and (> (expit x) 0.0) (< (expit x) 1.0)) :pattern ((expit x)))))',
              '(assert (forall ((x Real) (y Real)) (! (=> (< x y) (< (expit x) (expit y))) :pattern ((expit x) (expit y)))))'],
    'log': ['(declare-fun log (Real) Real)'],
    'exp': ['(declare-fun exp (Real) Real)',
            '(assert (forall ((x Real)) (! (> (exp x) 0.0) :pattern ((exp x)))))'],
}


counter = None      # formulas -> {sum: application}, set by ops


def script(hyps, goal, lemmas=True):
    """SMT-LIB text whose unsatisfiability proves  hyps |- goal"""
    x = Xlate()
    body = []
    forms = list(hyps) + [not_(goal)]
    if counter is not None:
        x.counts = counter(forms)
    for f in forms:
        try:
            body.append(x.t(f))
        except ValueError:
            if f is forms[-1]:
                raise
    if lemmas and x.sums:
        done = set()
        for rnd in range(2):
            new = [s for s in x.sums if s not in done]
            if not new:
                break
            done.update(new)
            for f in sum_lemmas(list(x.sums)):
                body.append(x.t(f))
            if rnd == 0 and len(x.sums) == len(done):
                break
    pre = ['(set-logic ALL)', '(declare-sort UU 0)']
    for n in ('recip', 'sqrt', 'expit', 'log', 'exp'):
        if n in x.used:
            pre += AX[n]
    for k in x.order:
        a, s = x.decl[k]
        pre.append('(declare-fun %s (%s) %s)' % (
            k, ' '.join(x.S[y] for y in a), x.S[s]))
    if '|str|' in x.decl:
        # different integers have different decimal representations
        if '|unstr|' not in x.decl:
            pre.append('(declare-fun |unstr| (UU) Int)')
        pre.append('(assert (forall ((i Int)) (! (= (|unstr| (|str| i)) i) '
                   ':pattern ((|str| i)))))')
    for s, ks in x.econsts.items():
        if len(ks) > 1:
            pre.append('(assert (distinct %s))' % ' '.join(sorted(ks)))
    return '\n'.join(pre + ['(assert %s)' % b for b in body + x.extra] +
                     ['(check-sat)', ''])


SOLVERS = {
    'z3-5.3': lambda f, t: ['z3-new', '-T:%d' % max(1, int(t)), f],
    'cvc5-1.1': lambda f, t: ['cvc5', '--tlimit=%d' % int(t * 1000), f],
    'z3-5.3(7)': lambda f, t: ['z3-new', 'smt.random_seed=7',
                               '-T:%d' % max(1, int(t)), f],
    'z3-5.3(a)': lambda f, t: ['z3-new', 'smt.arith.solver=2',
                               'smt.random_seed=3',
                               '-T:%d' % max(1, int(t)), f],
    'z3-4.8': lambda f, t: ['z3', '-T:%d' % max(1, int(t)), f],
}


def run_portfolio(text, timeout, which=('z3-5.3', 'cvc5-1.1', 'z3-4.8')):
    """name of the first solver that answers unsat, or None"""
    fd, fn = tempfile.mkstemp(suffix='.smt2', dir=os.environ.get('VERIF_TMP'))
    ps = {}
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        for w in which:
            try:
                ps[w] = subprocess.Popen(
                    SOLVERS[w](fn, timeout), stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT)
            except OSError:
                pass
        end = time.time() + timeout + 3
        res = {}
        while len(res) < len(ps) and time.time() < end:
            for w, p in ps.items():
                if w not in res and p.poll() is not None:
                    out = p.stdout.read().decode('utf-8', 'replace').strip()
                    res[w] = out.split('\n')[0].strip()
                    if res[w] == 'unsat':
                        return w
                    if 'error' in res[w] and os.environ.get('VERIF_DEBUG'):
                        print('   solver error', w, out[:300])
            time.sleep(0.01)
        return None
    finally:
        for p in ps.values():
            if p.poll() is None:
                p.kill()
            p.stdout.close()
            p.wait()
        os.unlink(fn)


class Quick(object):
    """in-process validity checks with a small budget (never trusted to
    refute: only 'valid' answers are used)"""

    def __init__(self, ms=400):
        self.z3 = _z3()
        self.ms = ms
        self.cache = {}
        self.n = 0
        self.time = 0.0

    def valid(self, hyps, goal):
        if goal is TRUE:
            return True
        if any(h is FALSE for h in hyps):
            return True
        key = (goal, tuple(hyps))
        r = self.cache.get(key)
        if r is None:
            r = self._valid(hyps, goal)
            self.cache[key] = r
        return r

    def _valid(self, hyps, goal):
        t0 = time.time()
        try:
            txt = script(hyps, goal)
        except ValueError:
            return False
        try:
            c = self.z3.Context()
            s = self.z3.Solver(ctx=c)
            s.set('timeout', self.ms)
            s.set('rlimit', 4000000)
            s.from_string(txt.replace('(check-sat)\n', ''))
            r = s.check()
            self.n += 1
            return r == self.z3.unsat
        except self.z3.Z3Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                print('quick error', e, txt, file=sys.stderr)
            return False
        finally:
            self.time += time.time() - t0
