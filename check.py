#!/opt/venv/bin/python
"""check.py <property> <quick|thorough>

Decides one property on the code currently in /repo:
  1. the deductive verifier (engine/, contracts/) generates the obligations of
     the property from the source of the functions under contract and
     discharges them;
  2. the runtime-contract cases (oracles/) evaluate the same contracts on
     concrete inputs (bounded; the source of concrete counterexamples).
Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line.
"""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore', SyntaxWarning)
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault('KAM_REPO', '/repo')
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['PYTHONHASHSEED'] = '0'
sys.path.insert(0, HERE)
sys.path.insert(1, REPO)

from oracles import core
from tools.levels import LEVEL

QUICK = dict(workers=4, budget=18.0, proof=420.0)
THOROUGH = dict(workers=8, budget=240.0, proof=840.0)


def known_findings(prop):
    """lines 'finding: property=<id> key=<family>:<what> <description>'"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('finding:') and ('property=%s ' % prop) in line:
            key = line.split('key=', 1)[1].split(' :: ')[0]
            out.append((key, line.split(' :: ', 1)[1]))
    return out


def worker(prop, seed, budget, q):
    try:
        r, st = core.explore(prop, seed, budget)
        if r is not None:
            r['history'] = {'start_seed': seed, 'cases': st['cases']}
        q.put(('ok', r, st))
    except BaseException:
        q.put(('error', traceback.format_exc(), None))


def explore(prop, seed, cfg, nworkers, budget):
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(
        prop, (seed * 64 + i) % 100003, budget, q))
        for i in range(nworkers)]
    for p in ps:
        p.start()
    res, bad, errs = [], [], []
    t_end = time.time() + budget + 150
    for _ in ps:
        try:
            k, r, st = q.get(timeout=max(5, t_end - time.time()))
        except Exception:
            errs.append('a worker gave no result')
            continue
        if k == 'error':
            errs.append(r)
        else:
            res.append(st)
            if r is not None:
                bad.append(r)
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    return res, bad, errs


TRUSTED_BASE = [
    'engine/: symbolic interpreter of Python and numpy (obligation '
    'generator), normal form, encoding to SMT',
    'z3, cvc5 (unsat answers)']
BASE_ASSUMPTIONS = [
    'machine arithmetic is treated as mathematical: floats are reals, numpy '
    'integers are unbounded']


def tree_sha():
    """hash of the package source without comments and docstrings"""
    import ast
    import hashlib
    h = hashlib.sha256()
    for base in ('kamrecsys', 'scripts'):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
            if 'tests' in d.split(os.sep):
                continue
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                try:
                    t = ast.parse(open(os.path.join(d, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(t):
                    b = getattr(n, 'body', None)
                    if isinstance(b, list) and b and isinstance(
                            b[0], ast.Expr) and isinstance(
                                b[0].value, ast.Constant):
                        n.body = b[1:]
                h.update((f + ast.dump(t)).encode())
    return h.hexdigest()[:16]


def judge(prop, pr):
    """obligations that fail on this source (an alarm), and obligations the
    solvers merely did not discharge this time (same source as the committed
    baseline, or time limit)"""
    refuted, flaky = [], []
    if pr is None:
        return refuted, flaky
    try:
        base = json.load(open(os.path.join(HERE, 'contracts',
                                           'baseline.json')))
    except Exception:
        base = {}
    same_tree = base.get('tree') == tree_sha()
    cons = {c['name']: c for c in pr.get('contracts', [])}
    for o in pr.get('obligations', []):
        if o['status'] == 'proved':
            continue
        c = cons[o['contract']]
        b = base.get(prop, {}).get(o['contract'])
        changed = b is not None and b['functions'] != c['functions']
        if (o['status'] == 'failed' and b is not None and b['proved'] and
                not same_tree and (changed or o['by'] == 'false')):
            refuted.append(o)
        else:
            flaky.append(o)
    return refuted, flaky


def write_replay(prop, kind, data, n=0):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (prop, kind, n))
    data = dict(data, kind=kind, how='/opt/venv/bin/python /verif/replay.py '
                + path)
    with open(path, 'w') as fp:
        json.dump(data, fp, indent=1, default=str)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get(
        'VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop = a.prop
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    cfg = THOROUGH if tier == 'thorough' else QUICK
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev_path = os.path.join(HERE, 'evidence', prop + '.json')

    # deductive part, in its own process
    proof = None
    proof_out = os.path.join(HERE, 'evidence', '.proof-%s.json' % prop)
    have = os.path.exists(os.path.join(HERE, 'contracts', prop.lower()
                                       + '.py'))
    if have:
        if os.path.exists(proof_out):
            os.unlink(proof_out)
        proof = subprocess.Popen(
            [sys.executable, '-m', 'engine.prove', prop, proof_out,
             str(cfg['proof']), tier], cwd=HERE,
            env=dict(os.environ, PYTHONPATH=HERE + ':' + REPO),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    res, bad, errs = explore(prop, seed, cfg, cfg['workers'], cfg['budget'])

    pr = None
    if proof is not None:
        try:
            out, _ = proof.communicate(timeout=cfg['proof'] + 60)
        except subprocess.TimeoutExpired:
            proof.kill()
            out, _ = proof.communicate()
        try:
            pr = json.load(open(proof_out))
            os.unlink(proof_out)
        except Exception:
            pr = {'crash': out.decode(errors='replace')[-3000:],
                  'obligations': [], 'not_covered': ['verifier crashed'],
                  'functions': [], 'assumptions': []}

    cases = sum(s['cases'] for s in res)
    distinct = sum(s['distinct'] for s in res)
    samples = [x for s in res for x in s['samples']][:4]
    per = {}
    for s in res:
        for k, v in s['per'].items():
            per[k] = per.get(k, 0) + v

    known = known_findings(prop)
    for key, text in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    new = [b for b in bad
           if ('%s:%s' % (b['family'], b['what'])) not in [k for k, _ in
                                                           known]]
    lines = []
    if new:
        new.sort(key=lambda b: len(str(b['inputs'])))
        b = new[0]
        path = write_replay(prop, 'case', b)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('contract violated: %s [%s, seed %d]' % (
            b['what'], b['family'], b['seed']))
        for k, v in b['inputs'][:12]:
            print('   %s = %s' % (k, v[:300]))
    refuted, flaky = judge(prop, pr)
    if refuted and not new:
        path = write_replay(prop, 'obligation', {
            'property': prop, 'failed': refuted[:8],
            'note': 'obligations that the verifier does not accept on the '
                    'current source, and its output; the bounded search '
                    'found no failing input'})
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found'
                     % (prop, path))
    for o in refuted[:3]:
        print('failed obligation: %s' % o['name'])
    for o in flaky[:3]:
        print('note: not discharged on this run: %s (%s)' % (
            o['name'], o['by']))

    # ---- evidence
    runtime = {
        'evaluations': cases, 'distinct_nontrivial': distinct,
        'rule': 'cases drawn by oracles/%s.py from seed %d and run on the '
                'real code; a case is distinct when its recorded inputs '
                'differ from all others; per family: %s' % (
                    prop.lower(), seed, json.dumps(per, sort_keys=True)),
        'samples': samples or ['-']}
    assumptions = []
    level = LEVEL.get(prop, ('exploration', ''))[0]
    cov = dict(runtime)
    if pr is not None:
        obl = pr['obligations']
        un = [o for o in obl if not o.get('bounded')]
        bo = [o for o in obl if o.get('bounded')]
        dis = [o for o in un if o['status'] == 'proved']
        by, tm = {}, 0.0
        for o in dis:
            by[o['by']] = by.get(o['by'], 0) + 1
        for o in obl:
            tm += o.get('time', 0)
        assumptions = BASE_ASSUMPTIONS + pr['assumptions']
        ded = dict(
            obligations=len(un), discharged=len(dis),
            checker_cmd='/opt/venv/bin/python -m engine.prove %s OUT.json '
                        '%d %s   (cwd /verif, PYTHONPATH=/verif:/repo)' % (
                            prop, cfg['proof'], tier),
            trusted_base=TRUSTED_BASE + pr.get('trusted', []),
            functions_under_contract=pr['functions'],
            contracts=[{k: c[k] for k in ('name', 'n', 'paths', 'time',
                                          'bounded', 'unsupported')}
                       for c in pr.get('contracts', [])],
            discharged_by=by, solver_seconds=round(tm, 2),
            obligation_list=[{k: o.get(k) for k in (
                'name', 'status', 'by', 'time')} for o in un],
            bounded_obligations=[
                {k: o.get(k) for k in ('name', 'status', 'by', 'bounded')}
                for o in bo],
            not_covered=pr['not_covered'],
            failed=[o['name'] for o in refuted + flaky])
        ded['all_obligations_discharged'] = (
            len(un) > 0 and len(dis) == len(un) and not pr['not_covered'])
        if 'crash' in pr:
            ded['crash'] = pr['crash']
        if not ded['all_obligations_discharged']:
            print('note: %d of %d obligations discharged; not covered: %s; '
                  'what is left is covered by the bounded run only' % (
                      len(dis), len(un), pr['not_covered'][:5]))
        if level == 'proof':
            cov = dict(ded, bounded_runtime_contracts=runtime)
        else:
            cov['deductive'] = ded
    if errs:
        print('harness error:', errs[0][-2000:])
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level,
                   coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - t0, 2),
                   violations=len(new) + len(refuted)),
              open(ev_path, 'w'), indent=1, default=str)
    print('%s %s: %d runtime-contract cases (%d distinct)%s, %.0f s' % (
        prop, tier, cases, distinct,
        '' if pr is None else ', %d/%d obligations (%d bounded)' % (
            len(dis), len(un), len(bo)), time.time() - t0))
    for l in lines:
        print(l)
    if lines:
        return 1
    if errs and not res:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
