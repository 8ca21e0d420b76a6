"""Runtime-contract harness: every property has families of cases.  A case is
identified by (property, family, seed) and is deterministic; it draws inputs,
runs the real code of /repo and checks the property's contract on what came
out.  The same cases are the replay vehicle of reported violations."""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True

import numpy as np

np.seterr(all='ignore')


class Violation(AssertionError):
    pass


class G(object):
    """source of the inputs of one case"""

    def __init__(self, seed, tag=''):
        h = 0
        for ch in tag:
            h = (h * 131 + ord(ch)) % (2 ** 31)
        self.rng = np.random.RandomState([seed % (2 ** 32), h])
        self.log = []
        self.size = 1 if seed % 3 == 0 else (2 if seed % 3 == 1 else 3)
        self.key = None

    def note(self, **kw):
        for k in sorted(kw):
            self.log.append((k, short(kw[k])))
        return self

    def int(self, lo, hi):
        """lo <= n <= hi"""
        return int(self.rng.randint(lo, hi + 1))

    def choice(self, xs):
        return xs[self.int(0, len(xs) - 1)]

    def flip(self, p=0.5):
        return bool(self.rng.rand() < p)

    def chk(self, cond, msg, **kw):
        if not bool(cond):
            self.note(**kw)
            raise Violation(msg)

    def same(self, a, b, msg):
        """exact equality of arrays / scalars, shapes included"""
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape or not bool(np.all(a_ == b_)):
            self.note(got=a, expected=b)
            raise Violation(msg)

    def close(self, a, b, msg, rtol=1e-8, atol=1e-10):
        a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a_.shape != b_.shape or not np.allclose(
                a_, b_, rtol=rtol, atol=atol, equal_nan=True):
            self.note(got=a, expected=b)
            raise Violation(msg)

    def raises(self, exc, f, msg):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Violation('%s (raised %s: %s instead)' % (
                msg, type(e).__name__, e))
        self.note(returned=r)
        raise Violation(msg + ' (nothing was raised)')


def short(x):
    try:
        s = repr(x)
    except Exception as e:
        s = '<%s>' % type(x).__name__
    return s if len(s) < 1500 else s[:1500] + '...'


class Timeout(BaseException):
    pass


CASE_LIMIT = 90


class limit(object):
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def hit(*a):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, hit)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def families(prop):
    mod = importlib.import_module('oracles.' + prop.lower())
    return mod.FAMILIES


def run_case(prop, family, seed):
    """None when the contract held, else a description"""
    fam = dict((f.__name__, f) for f, w in families(prop))[family]
    g = G(seed, prop + family)
    try:
        with limit(CASE_LIMIT):
            fam(g)
    except Timeout:
        return {'property': prop, 'family': family, 'seed': seed,
                'what': 'no result within %d s' % CASE_LIMIT,
                'inputs': g.log}, g
    except Violation as e:
        return {'property': prop, 'family': family, 'seed': seed,
                'what': str(e), 'inputs': g.log}, g
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        repo = os.environ.get('KAM_REPO', '/repo')
        deep = [fr for fr in tb if fr.filename.startswith(repo)]
        if not deep:
            # the harness could not make sense of what the code gave back
            # (never happens on code that keeps its contract)
            if isinstance(e, (MemoryError, OSError, ImportError)):
                raise
            return {'property': prop, 'family': family, 'seed': seed,
                    'what': 'unusable result: %s: %s' % (
                        type(e).__name__, e), 'inputs': g.log,
                    'traceback': traceback.format_exc()[-3000:]}, g
        return {'property': prop, 'family': family, 'seed': seed,
                'what': 'unexpected %s: %s at %s:%d' % (
                    type(e).__name__, e, deep[-1].filename, deep[-1].lineno),
                'inputs': g.log,
                'traceback': traceback.format_exc()[-3000:]}, g
    return None, g


def explore(prop, seed, budget_s, max_cases=None):
    """round-robin over the families until the budget is used"""
    fams = families(prop)
    t0 = time.time()
    n = 0
    distinct = set()
    sample = []
    per = {}
    k = 0
    done = False
    while not done:
        for f, weight in fams:
            for _ in range(weight):
                s = (seed * 1000003 + k) % (2 ** 31)
                k += 1
                r, g = run_case(prop, f.__name__, s)
                n += 1
                per[f.__name__] = per.get(f.__name__, 0) + 1
                distinct.add((f.__name__, tuple(g.log)))
                if len(sample) < 3 and g.log and k % 7 == 1:
                    sample.append('%s: %s' % (f.__name__, '; '.join(
                        '%s=%s' % kv for kv in g.log)[:600]))
                if r is not None:
                    return r, dict(cases=n, distinct=len(distinct), per=per,
                                   samples=sample)
        if time.time() - t0 > budget_s or (max_cases and n >= max_cases):
            done = True
    return None, dict(cases=n, distinct=len(distinct), per=per,
                      samples=sample)
