#!/usr/bin/env python3-vt
"""dev.py MODULES FN... [-x] [--budget S] [-1]: verify functions, print every obligation not proved."""
import sys
sys.path.insert(0, '/verif')
from engine import vc, verify
import contracts
a = sys.argv[1:]
budget = 20
if '--budget' in a:
    i = a.index('--budget')
    budget = float(a[i + 1])
    del a[i:i + 2]
C = contracts.load(*a[0].split(','))
R = vc.Repo()
fns = [x for x in a[1:] if not x.startswith('-')] or [q for q in C.funcs if not C.funcs[q].trusted]
res, _ = verify.verify(C, R, fns, budget, workers=3, jobs=3, transitive=False)
for q in fns:
    r = res.get(q)
    if not r:
        print('TRUSTED', q)
        continue
    ob = r['obligations']
    bad = [o for o in ob if o['status'] != 'proved']
    print(f"{q}: {len(ob)} obligations, {len(ob) - len(bad)} proved, gen {r.get('gen_s')}s wall {r.get('wall_s')}s max {max([o['seconds'] for o in ob] or [0])}s vac={r['vacuity']}", 'GAP ' + r['gap'] if r['gap'] else '', r['error'] or '')
    for o in bad:
        print('   ', o['status'], o['seconds'], o['name'], 'line', o['line'], o['note'][:300])
    for o in ob:
        if o['status'] == 'proved' and o['seconds'] > 2.5:
            print('    slow', o['seconds'], o['backend'], o['name'], o['line'])
