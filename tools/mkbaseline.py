#!/opt/venv/bin/python
"""writes contracts/baseline.json: which contracts are proved on the current
/repo, and the hashes of the functions they were proved on"""
import json, os, subprocess, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
out = os.path.join(HERE, 'contracts', 'baseline.json')
try:
    base = json.load(open(out))
except Exception:
    base = {}
base['tree'] = check.tree_sha()
props = sys.argv[1:] or [os.path.basename(f)[:-3].upper() for f in
                         sorted(glob.glob(HERE + '/contracts/c[0-9]*.py'))]
def run(p, again=1):
    tmp = '/tmp/.base-%s.json' % p
    subprocess.run([sys.executable, '-m', 'engine.prove', p, tmp, '800',
                    'thorough'], cwd=HERE, env=dict(
                        os.environ, PYTHONPATH=HERE + ':' + check.REPO))
    d = json.load(open(tmp))
    os.unlink(tmp)
    bad = [c['name'] for c in d['contracts'] if c['unsupported'] or c['bad']]
    if bad and again:
        print(p, 'again:', bad)
        return run(p, again - 1)
    base[p] = {c['name']: {
        'proved': not c['unsupported'] and not c['bad'],
        'functions': c['functions']} for c in d['contracts']}
    print(p, len(d['contracts']), 'contracts', len(d['obligations']),
          'obligations', '%.0fs' % d['time'], 'NOT PROVED: %s' % bad
          if bad else '', flush=True)
for p in props:
    run(p)
json.dump(base, open(out, 'w'), indent=1, sort_keys=True)
