"""Obligation generation and discharge for one property.

    python -m engine.prove PROP OUT.json BUDGET TIER

Runs every contract of contracts/<prop>.py: the harness builds symbolic
inputs that satisfy the precondition, the real function is executed
symbolically from its current source, and the postcondition becomes a set of
named obligations, which are discharged one by one.
"""
import importlib
import itertools
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore', SyntaxWarning)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.setdefault('KAM_REPO', '/repo')
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
if HERE not in sys.path:
    sys.path.insert(0, HERE)
if REPO not in sys.path:
    sys.path.insert(1, REPO)
sys.path.insert(2, os.path.join(REPO, 'scripts'))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
sys.setrecursionlimit(20000)

from . import term as tm
from .term import *
from .values import *
from . import values
from . import interp
from . import models
from .norm import Normalizer, TooBig, poly_sqrt
from .smt import script, run_portfolio, skolemize
from .harness import H, CONTRACT_LIST, Contract

MAX_PATHS = 400


# --------------------------------------------------------------------------
# discharge of one obligation
# --------------------------------------------------------------------------

class Prover(object):
    def __init__(self, C, solver_time=20.0):
        self.C = C
        self.solver_time = solver_time
        self.time = 0.0
        self.retries = 2
        self.insts = {}
        self.pats = {}

    def facts(self, hyps, goal):
        """axioms, hypotheses, and instances of the hypotheses without a
        trigger at the index variables of the goal"""
        hyps = list(hyps)
        axioms = list(self.C.relevant(hyps + [goal]))
        more = []
        if goal is FALSE and hyps:
            goal = and_(*hyps[-4:])
        for h in hyps + axioms:
            if h.op == 'forall' and not h.args[2] and len(h.args[0]) <= 2 \
                    and all(v.sort == 'I' for v in h.args[0]):
                k = (h, goal)
                if k not in self.insts:
                    vs = [x for x in subterms(goal) if x.op == 'var' and
                          x.sort == 'I' and x.args[0] in fv(goal)]
                    vs = sorted(set(vs), key=lambda x: x.args[0])[:5]
                    self.insts[k] = [
                        subst(h.args[1], dict(zip(h.args[0], p)))
                        for p in itertools.product(
                            vs, repeat=len(h.args[0]))]
                more += self.insts[k]
        hyps += more
        return axioms + hyps

    def matches(self, hyps, goal, every=False):
        """instances of quantified facts of which an application with all
        variables is found, with any arithmetic arguments, among those of
        the goal; of facts that solvers cannot match or of every fact"""
        heads = lambda t: [(x.args[0] if x.op == 'app' else x.op, x)
                           for x in subterms(t)
                           if x.op in ('app', 'mod', 'idiv')]
        args = lambda x: x.args[1:] if x.op == 'app' else x.args
        ground = {}
        for k, x in heads(goal):
            if fv(x) <= fv(goal):
                ground.setdefault(k, []).append(x)
        out = []
        if not ground:
            return out

        def match(p, t, vs, m):
            if p.op == 'var' and p in vs:
                return m.setdefault(p, t) is t
            if p.op == t.op == 'app' and p.args[0] == t.args[0] or \
                    p.op == t.op and p.op in ('mod', 'idiv'):
                return all(match(a, b, vs, m) for a, b in zip(
                    args(p), args(t)))
            return True
        for h in hyps:
            if h.op != 'forall':
                continue
            vs = h.args[0]
            names = frozenset(v.args[0] for v in vs)
            ps = self.pats.get(h)
            if ps is None:
                ps = [(k, x, x.op != 'app' or any(
                    b.op == 'poly' and not is_num(b) for b in subterms(x)))
                    for k, x in heads(h.args[1]) if names <= fv(x)]
                self.pats[h] = ps
            for k, p, hard in ps:
                if not hard and not every:
                    continue
                for t in ground.get(k, ()):
                    m = {}
                    if match(p, t, vs, m) and len(m) == len(vs) and \
                            all(v.sort == m[v].sort for v in vs):
                        f = subst(h.args[1], m)
                        if f not in out and f is not TRUE:
                            out.append(f)
                            if len(out) > (40 if every else 12):
                                return out
        return out

    def valid(self, hyps, g, seconds=0):
        """in-process, with further instances when needed; then by the
        solvers within the given time"""
        fs = self.facts(hyps, g)
        if self.C.quick.valid(fs, g):
            return True
        ms = self.matches(fs, and_(g, *hyps[-3:]))
        if ms and self.C.quick.valid(fs + ms, g):
            return True
        if not seconds:
            return False
        try:
            return run_portfolio(script(fs + ms, g), seconds) is not None
        except ValueError:
            return False

    def prove(self, ob, deadline):
        """(status, by)"""
        t0 = time.time()
        try:
            return self._prove(ob, deadline)
        finally:
            self.time += time.time() - t0

    def _prove(self, ob, deadline):
        goal = ob.goal
        if goal is TRUE:
            return 'proved', 'normal form'
        if goal is FALSE and not ob.hyps:
            return 'failed', 'false'
        subs = skolemize(goal)
        by = set()
        for h, g in subs:
            r = self.one(list(ob.hyps) + h, g, deadline)
            if r is None:
                return 'failed', 'not discharged: ' + show(g)[:300]
            by |= set(r.split('+'))
        return 'proved', '+'.join(sorted(by)) or 'normal form'

    def nonneg(self, t, hyps, strict=False, depth=0):
        """t >= 0 (t > 0) by the signs of its parts"""
        C = self.C
        if is_num(t):
            return numval(t) > 0 if strict else numval(t) >= 0
        if depth > 9:
            return False
        if t.op == 'sum':
            w, n, body = open_sum(t)
            return (not strict or self.nonneg(n, hyps, True, depth + 1)) \
                and self.nonneg(body, hyps + [le(ZERO, w), lt(w, n)],
                                strict, depth + 1)
        if t.op == 'poly':
            d = tm._pd(t)
            if len(d) > 1:
                if not strict and poly_sqrt(d) is not None:
                    return True
                if all(self.nonneg(tm._mk_poly({m: c}, None), hyps, False,
                                   depth + 1) for m, c in d.items()):
                    return not strict or any(
                        self.nonneg(tm._mk_poly({m: c}, None), hyps, True,
                                    depth + 1) for m, c in d.items())
            else:
                (m, c), = d.items()
                if m and not (len(m) == 1 and m[0][1] == 1 and c == 1):
                    if c < 0:
                        return False
                    for a, e in m:
                        x = a.args[0] if a.op == 'par' else a
                        if e % 2 == 0 and not strict:
                            continue
                        if not self.nonneg(x, hyps, strict, depth + 1):
                            return False
                    return True
        if t.op == 'ite' and t.sort in 'IR':
            c = t.args[0]
            return self.nonneg(t.args[1], hyps + [c], strict, depth + 1) \
                and self.nonneg(t.args[2], hyps + [not_(c)], strict,
                                depth + 1)
        c = lt(ZERO, t) if strict else le(ZERO, t)
        return c is TRUE or c in hyps or C.quick.valid(
            self.facts(hyps, c), c)

    def simp(self, hyps, t):
        """t with the conditions outside binders that the hypotheses decide
        replaced; also returns the undecided equalities"""
        C = self.C
        und = []
        memo = {}

        def known(c, hs):
            k = (c, hs)
            if k not in memo:
                h = hyps + list(hs)
                if c in h or C.quick.valid(self.facts(h, c), c):
                    memo[k] = True
                elif C.quick.valid(self.facts(h, not_(c)), not_(c)):
                    memo[k] = False
                else:
                    memo[k] = None
            return memo[k]

        def go(x, hs, inapp=False):
            if x.op in ('sum', 'forall', 'exists', 'num', 'var'):
                return x
            if x.op == 'app' and not any(
                    y.op == 'ite' for y in subterms(x)):
                return x
            inapp = inapp or x.op == 'app'
            if x.op == 'ite':
                cs = []
                for c in (x.args[0].args if x.args[0].op == 'and'
                          else [x.args[0]]):
                    d = known(c, hs)
                    if d is False:
                        return go(x.args[2], hs, inapp)
                    if d is None:
                        cs.append(go(c, hs, inapp))
                if not cs:
                    return go(x.args[1], hs, inapp)
                for c in cs:
                    if c.op in ('eq0', 'eq'):
                        und.append(c)
                    elif inapp and c.op in ('le0', 'lt0') and \
                            not any(y.op == 'ite' for y in subterms(c)):
                        und2.append(c)
                c = and_(*cs)
                return ite(c, go(x.args[1], hs + (c,), inapp),
                           go(x.args[2], hs + (not_(c),), inapp))
            return rebuild(x, lambda y: go(y, hs, inapp))
        und2 = []
        r = go(t, ())
        return r, und or und2

    def cases(self, hyps, g, deadline, depth):
        """False when there is nothing to distinguish"""
        if depth > 4 or not any(
                x.op == 'ite' for x in subterms(g)):
            return False
        try:
            s, und = self.simp(hyps, g)
        except (RecursionError, AssertionError):
            return False
        if not und:
            if s is g:
                return False
            return self.one(hyps, s, deadline, depth + 1)
        # prefer a condition that fixes a variable
        for c in und:
            for v in sorted(fv(c)):
                w = var(v, 'I')
                e = solve_eq(c, w)
                if e is not None:
                    break
            else:
                continue
            break
        else:
            c, e = und[0], None
        h1 = [c] + hyps
        g1 = s
        if e is not None:
            h1 = [subst(x, {w: e}) for x in hyps] + [c]
            g1 = subst(s, {w: e})
        r1 = self.one(h1, g1, deadline, depth + 1)
        if r1 is None:
            return None
        r2 = self.one(hyps + [not_(c)], s, deadline, depth + 1)
        return None if r2 is None else '+'.join(sorted(
            {'case distinction'} | set(r1.split('+')) | set(r2.split('+'))))

    def one(self, hyps, g, deadline, depth=0):
        C = self.C
        if g is TRUE:
            return 'normal form'
        if g in hyps:
            return 'normal form'
        # light
        if self.valid(hyps, g):
            return 'z3'
        # a witness
        if g.op == 'not' and g.args[0].op == 'forall' and \
                len(g.args[0].args[0]) == 1 and depth < 3 and \
                g.args[0].args[0][0].sort == 'I':
            v, = g.args[0].args[0]
            # names for what exists by the last hypotheses
            more = []
            for x in hyps[-6:]:
                if x.op == 'not' and x.args[0].op == 'forall':
                    vs, body, _ = x.args[0].args
                    x = not_(subst(body, {w: fresh('ex', w.sort)
                                          for w in vs}))
                    more += x.args if x.op == 'and' else [x]
            free = set(fv(and_(g, *more)))
            cand = []
            pool = list(subterms(g)) + list(subterms(and_(*hyps[-12:])))
            hyps = hyps + more
            pool += list(subterms(and_(*more)))
            known = set(pool)
            for x in self.matches(self.facts(hyps, g), and_(g, *more),
                                  True):
                pool += [y for y in subterms(x) if y.op == 'app']
            for t in pool:
                if t.sort == 'I' and t.op in ('app', 'var') and \
                        t not in cand and t is not v and (
                        t.op == 'app' or t.args[0] in free) and \
                        all(x.args[0] in free or not t.args for x in
                            subterms(t) if x.op == 'var'):
                    cand.append(t)
            new = fv(and_(*more)) - fv(g)
            cand.sort(key=lambda t: (t.op != 'app', not fv(t) & new,
                                     t in known))
            for t in cand[:6] + [t for t in cand[6:] if t.op == 'var'][:4]:
                x = not_(subst(g.args[0].args[1], {v: t}))
                likely = t not in known and t in cand[:2]
                for h2, g2 in skolemize(x):
                    if time.time() > deadline:
                        break
                    if not self.valid(hyps + h2, g2, 6 if likely else 0):
                        n = self.normalize(hyps + h2, g2)
                        if n is not TRUE and (n is None or not
                                              C.quick.valid(self.facts(
                                                  hyps + h2, n), n)):
                            break
                else:
                    return 'witness+z3'
        # signs
        if g.op in ('le0', 'lt0') and self.nonneg(
                neg(g.args[0]), hyps, g.op == 'lt0'):
            return 'sign of a polynomial'
        # simplification and case distinction on equalities
        r = self.cases(hyps, g, deadline, depth)
        if r is not False:
            return r
        # algebraic normal form
        n = self.normalize(hyps, g)
        if n is TRUE:
            return 'sum normal form'
        if n is not None and n is not g:
            for h2, g2 in skolemize(n):
                if not C.quick.valid(self.facts(hyps + h2, g2), g2):
                    break
            else:
                return 'sum normal form+z3'
        # several solvers
        if g is FALSE and not hyps:
            return None
        tries = [g] if n is None or n is g else [n, g]
        txt = None
        for goal in tries:
            try:
                txt = script(self.facts(hyps, goal), goal)
            except ValueError:
                continue
            if os.environ.get('VERIF_DUMP'):
                with open(os.environ['VERIF_DUMP'], 'w') as f:
                    f.write(txt)
            left = deadline - time.time()
            if left < 1:
                return None
            r = run_portfolio(txt, min(self.solver_time, left))
            if r is not None:
                return r
        # other random choices, for a few obligations of a contract
        if txt and self.retries > 0 and deadline - time.time() > 60:
            self.retries -= 1
            return run_portfolio(txt, 30, ('z3-5.3(7)', 'z3-5.3(a)'))
        return None

    def normalize(self, hyps, g):
        C = self.C

        memo = {}

        def valid(c, h):
            k = (c, h)
            if k not in memo:
                hs = hyps + list(h)
                memo[k] = c in hs or C.quick.valid(self.facts(hs, c), c)
            return memo[k]
        N = Normalizer(valid)

        def go(t):
            if t.op in ('and', 'or', 'not'):
                return tm.rebuild(t, go)
            if t.op in ('eq0', 'le0', 'lt0'):
                x = N.norm(t.args[0])
                return {'eq0': lambda: eq(x, ZERO),
                        'le0': lambda: le(x, ZERO),
                        'lt0': lambda: lt(x, ZERO)}[t.op]()
            return t
        try:
            return go(g)
        except (TooBig, RecursionError):
            return None
        except AssertionError:
            return None


# --------------------------------------------------------------------------
# contracts
# --------------------------------------------------------------------------

def run_contract(con, deadline, verbose=False):
    """one contract -> dictionary"""
    out = {'name': con.name, 'obligations': [], 'functions': {},
           'unsupported': None, 'trusted': [], 'assumed': [], 'paths': 0,
           'bounded': con.bounded}
    C = Ctx()
    values.Ctx.cur = C
    prover = Prover(C)
    decisions = []
    seen = {}
    t0 = time.time()
    live = 0
    while True:
        C.reset()
        tm.reset_fresh()
        C.decisions = decisions
        h = H(con, C)
        status = None
        try:
            con.fn(h)
        except PyExc as e:
            C.oblige('%s: no %s' % (con.name, e.cls.__name__) +
                     (' (%s)' % e.msg if e.msg else '') + ' at ' + C.where,
                     FALSE)
        except Infeasible:
            status = 'infeasible'
        except Abort:
            pass        # the rest of this path is covered by an invariant
        except Unsupported as e:
            out['unsupported'] = '%s [%s]' % (e, C.where)
            if verbose:
                traceback.print_exc()
        except (interp.BreakEx, interp.ContinueEx):
            out['unsupported'] = 'stray break'
        out['paths'] += 1
        out['functions'].update(C.functions)
        out['trusted'] = sorted(set(out['trusted']) | C.trusted)
        out['assumed'] = sorted(set(out['assumed']) | C.assumed)
        if out['unsupported'] is not None:
            break
        if status is None:
            for ob in C.obligations:
                if time.time() > deadline:
                    r, by = 'unknown', 'time limit'
                else:
                    t1 = time.time()
                    try:
                        r, by = prover.prove(ob, deadline)
                    except Unsupported as e:
                        r, by = 'failed', 'unsupported: %s' % e
                if verbose:
                    print('  %-8s %6.2fs %s  [%s] %s' % (
                        r, time.time() - t1, ob.name, by, ob.where))
                    if r != 'proved' and verbose > 1:
                        print('     GOAL', show(ob.goal))
                        for x in ob.hyps:
                            print('     HYP ', show(x))
                nm = ob.name
                k = seen.get(nm, 0)
                seen[nm] = k + 1
                out['obligations'].append({
                    'name': '%s#%d' % (nm, k) if k else nm,
                    'status': r, 'by': by, 'where': ob.where,
                    'time': round(time.time() - t1, 3)})
            # the precondition must be satisfiable on some path
            if not con.no_vacuity:
                if not C.valid(FALSE):
                    live += 1
        # next path
        decisions = list(C.decisions)
        while decisions and decisions[-1] is False:
            decisions.pop()
        if not decisions:
            break
        decisions[-1] = False
        if out['paths'] >= MAX_PATHS:
            out['unsupported'] = 'too many paths'
            break
    if out['unsupported'] is None:
        if not out['obligations']:
            out['unsupported'] = 'no obligation generated'
        elif not con.no_vacuity and not live:
            out['obligations'].append({
                'name': con.name + ': precondition is satisfiable',
                'status': 'failed', 'by': 'vacuous', 'where': '',
                'time': 0})
    out['time'] = round(time.time() - t0, 3)
    out['quick_queries'] = C.quick.n
    return out


def _job(args):
    prop, k, deadline, verbose = args
    con = load(prop)[k]
    try:
        return run_contract(con, deadline, verbose)
    except RecursionError:
        return no_result(con, 'recursion limit')
    except BaseException:
        return no_result(con, 'engine error: ' +
                         traceback.format_exc()[-1500:])


def no_result(con, why):
    return {'name': con.name, 'obligations': [], 'functions': {},
            'unsupported': why, 'trusted': [], 'assumed': [], 'paths': 0,
            'time': 0, 'bounded': con.bounded}


def load(prop):
    m = 'contracts.' + prop.lower()
    importlib.import_module(m)
    return [c for c in CONTRACT_LIST if c.fn.__module__ == m]


def main():
    prop, outf, budget, tier = (sys.argv + ['C17', '-', '300', 'quick'][
        len(sys.argv) - 1:])[1:5]
    verbose = int(os.environ.get('VERIF_VERBOSE', '0'))
    only = os.environ.get('VERIF_ONLY')
    t0 = time.time()
    deadline = t0 + float(budget)
    cons = load(prop)
    jobs = [(prop, k, deadline, verbose) for k, c in enumerate(cons)
            if (not only or only in c.name) and
            (tier == 'thorough' or not c.thorough)]
    if len(jobs) == 1 or verbose:
        res = [_job(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(min(8, len(jobs)),
                                         maxtasksperchild=1) as pool:
            rs = [(j, pool.apply_async(_job, (j,))) for j in jobs]
            res = []
            for j, r in rs:
                try:
                    res.append(r.get(max(1, deadline + 20 - time.time())))
                except mp.TimeoutError:
                    res.append(no_result(cons[j[1]], 'no result in time'))
            pool.terminate()
    fns = {}
    obs = []
    notcov = []
    trusted, assumed = set(), set()
    for r in res:
        fns.update(r['functions'])
        trusted |= set(r['trusted'])
        assumed |= set(r['assumed'])
        if r['unsupported']:
            notcov.append('%s: %s' % (r['name'], r['unsupported']))
        for o in r['obligations']:
            o['contract'] = r['name']
            o['bounded'] = r['bounded']
            if not r['unsupported']:
                obs.append(o)
    data = {
        'obligations': obs,
        'functions': ['%s (sha %s)' % kv for kv in sorted(fns.items())],
        'not_covered': notcov, 'trusted': sorted(trusted),
        'assumptions': sorted(assumed),
        'contracts': [{'name': r['name'], 'time': r['time'],
                       'paths': r['paths'], 'bounded': r['bounded'],
                       'unsupported': r['unsupported'],
                       'n': len(r['obligations']),
                       'functions': r['functions'],
                       'bad': [o['name'] for o in r['obligations']
                               if o['status'] != 'proved']}
                      for r in res],
        'time': round(time.time() - t0, 2)}
    if outf != '-':
        with open(outf, 'w') as f:
            json.dump(data, f, indent=1)
    else:
        for r in data['contracts']:
            print('%-60s %7.2fs paths=%d obligations=%d bad=%d %s' % (
                r['name'], r['time'], r['paths'], r['n'], len(r['bad']),
                r['unsupported'] or ''))
            for b in r['bad']:
                print('      BAD', b)
        print('trusted:', data['trusted'])
        print('assumed:', data['assumptions'])
        print('functions:', data['functions'])
        print('time', data['time'])


if __name__ == '__main__':
    main()
