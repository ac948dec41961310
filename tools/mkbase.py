#!/usr/bin/env python3-vt
"""Writes contracts/base.json: for every function under contract, the normalised text hash (of it and of what is inlined
into it), its loop count, its locals in binding order and the obligations that were discharged on the unchanged tree."""
import json
import sys
import time
sys.path.insert(0, '/verif')
sys.dont_write_bytecode = True
import contracts
from engine import vc, verify
C = contracts.load_all()
only = sys.argv[1:]
R = vc.Repo('/repo')
qs = [q for q in list(C.funcs) + ['lemma:' + n for n in C.lemmas]
      if (q.startswith('lemma:') or not C.funcs[q].trusted) and (not only or q in only) and not q.startswith('$')]
t = time.time()
res, trusted = verify.verify(C, R, qs, 40, workers=4, jobs=2)
P = '/verif/contracts/base.json'
base = json.load(open(P)) if only else {}
for q in sorted(res):
    r = res[q]
    if r.get('error') or (r['gap'] and not r.get('hash')):
        print('ERROR', q, r['error'] or r['gap'])
        continue
    base[q] = dict(hash=r.get('hash'), inlined=r.get('inlined_hash', {}), loops=r.get('loops'), locals=r.get('locals'),
                   gap=r['gap'], proved=sum(o['status'] == 'proved' for o in r['obligations']), total=len(r['obligations']),
                   open=sorted({o['key'] for o in r['obligations'] if o['status'] != 'proved'}))
    if r['gap'] or base[q]['open'] or not r['obligations']:
        print(q, 'GAP ' + r['gap'] if r['gap'] else base[q]['open'])
    v = r.get('vacuity')
    if v and (v['requires'] == 'unsat' or (v['exits'] and all(x == 'unsat' for x in v['exits']))):
        print('VACUOUS', q, v)
for q in list(base):
    if q.startswith('lemma:'):
        continue
    if q not in C.funcs or C.funcs[q].trusted:
        del base[q]
json.dump(base, open(P, 'w'), indent=1, sort_keys=True)
n = sum(b['total'] for b in base.values())
print(len(base), 'functions', n, 'obligations', sum(b['proved'] for b in base.values()), 'proved', round(time.time() - t, 1), 's')
