#!/opt/venv/bin/python
"""replay.py <replay file>: runs a reported case again on the code in /repo
(exit 1 when the contract is still violated, 0 when it holds)."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault('KAM_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(1, REPO)


def main():
    d = json.load(open(sys.argv[1]))
    if d['kind'] == 'obligation':
        print(json.dumps(d['failed'], indent=1))
        print('run: /opt/venv/bin/python /verif/check.py %s quick' %
              d['property'])
        return 1
    from oracles import core
    r, g = core.run_case(d['property'], d['family'], d['seed'])
    if r is None:
        print('this case alone keeps the contract; repeating its history')
        h = d['history']
        r, st = core.explore(d['property'], h['start_seed'], 3600,
                             h['cases'])
    if r is None:
        print('the contract holds')
        return 0
    print('contract violated:', r['what'])
    for k, v in r['inputs']:
        print('  %s = %s' % (k, v))
    print(r.get('traceback', ''))
    return 1


if __name__ == '__main__':
    sys.exit(main())
