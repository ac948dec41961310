#!/opt/venv/bin/python
"""main.py ID --out FILE [--seed N] [--tier quick|thorough] [--budget S] | main.py ID --replay FILE"""
import argparse
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--out')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--tier', default='quick')
ap.add_argument('--budget', type=float, default=20)
ap.add_argument('--replay')
a = ap.parse_args()
try:
    import d_tuner, d_bdr, d_fit, d_tree, d_tree2, d_cls  # noqa: F401  registers the drivers
except Exception as e:
    if common.in_repo(sys.exc_info()[2]):
        r = dict(property=a.id, evaluations=1, distinct=0, ok=0, skipped=0, skip_reasons={}, known={}, samples=[], suites={},
                 violation=dict(suite='import', case={}, message=f'importing the package fails: {type(e).__name__}: {e}'))
        json.dump(r, open(a.out, 'w'), default=str)
        sys.exit(0)
    raise
if a.replay:
    v = json.load(open(a.replay))
    v = v.get('violation', v)
    cls = [c for c in common.DRIVERS[a.id] if c.__name__ == v['suite']][0]
    r = common.evaluate(cls, v['case'])
    print(r[0], r[1])
    sys.exit(0 if r[0] in ('ok', 'known', 'skip') else 1)
r = common.run(a.id, a.seed, a.tier, a.budget)
if a.out:
    json.dump(r, open(a.out, 'w'), default=str)
else:
    print(json.dumps({k: r[k] for k in r if k != 'samples'}, indent=1, default=str))
