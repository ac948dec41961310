#!/usr/bin/env python3-vt
"""Differential self-test of the verifier.  Every probe is run for real; then the claim `result != observed` must not be
provable (UNSOUND otherwise, also when the probe's exits are unreachable for the verifier).  `result == observed` proved: exact;
not proved: weak; refused: gap.  Exit 1 if anything is UNSOUND."""
import concurrent.futures as cf
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.dirname(HERE)), HERE]
from engine import verify, vc, ext
from engine.specs import Contracts
from engine.vals import *
import probes


def run(a):
    n, kind, root = a
    repo = vc.Repo(root)
    obs = getattr(probes.Probe(), n)(1)
    C = Contracts()
    ext.register(C)
    C.cls('Probe', kind, {'x': INT, 'n': INT, 'l': LIST(INT), 'll': LIST(LIST(INT)), 's': SETI, 'd': DICT(INT, INT), 'dl': DICT(INT, LIST(INT))})
    C.cls('Other', 'heap', {'x': INT, 'l': LIST(INT)})
    ty = {'int': INT, 'other': REF('Other'), 'list': LIST(INT)}
    if n.startswith('q_call'):
        for m, d in probes.CONTRACTS.items():
            d = dict(d, params={k: ty[t] for k, t in d['params'].items()})
            if 'result' in d:
                d['result'] = ty[d['result']]
            C.fn('Probe.' + m, trusted=True, **d)
        C.share('Probe.l', 0)
    loops = {k: {'inv': v} for k, v in probes.LOOPS.get(n, {}).items()}
    out = []
    for claim in (f'result != {int(obs)}', f'result == {int(obs)}'):
        req = ['c == 1']
        if 'branch_first' in n or 'ifexp' in n:
            req.append('self.x == 0')
        if n == 'q_while_cond_effect':
            req.append('self.n == 0')
        C.fn('Probe.' + n, params={'c': INT}, requires=req, modifies=['self.' + f for f in 'x n l ll s d dl'.split()], loops=loops,
             ensures=[claim], raises=True, result=INT, allocs=True)
        o = verify.one(C, repo, 'Probe.' + n, 8, 1, vacuity=False)
        if o['gap'] or o['error']:
            return n, kind, 'gap', o['gap'] or o['error']
        bad = [x['name'] for x in o['obligations'] if x['status'] != 'proved']
        # UNSOUND: the false claim and everything it rests on is accepted; exact: the true one
        out.append(bad)
    return n, kind, 'UNSOUND' if not out[0] else 'exact' if not out[1] else 'weak', out[1] or None


if __name__ == '__main__':
    d = tempfile.mkdtemp(prefix='selftest.')
    try:
        m = os.path.join(d, 'col_gen_estimator')
        os.makedirs(m)
        for f in ('_bdr_classifier', '_col_gen_classifier', '_dtree_classifier'):
            open(f'{m}/{f}.py', 'w').close()
        shutil.copy(os.path.join(HERE, 'probes.py'), f'{m}/_parameter_tuner.py')
        names = [n for n in dir(probes.Probe) if n[:2] in ('p_', 'q_') and (len(sys.argv) < 2 or n in sys.argv[1:])]
        tot = {}
        with cf.ProcessPoolExecutor(6, max_tasks_per_child=1, mp_context=mp.get_context('spawn')) as P:
            for r in P.map(run, [(n, k, d) for n in names for k in ('rec', 'heap')]):
                tot[r[2]] = tot.get(r[2], 0) + 1
                if r[2] != 'exact' or len(sys.argv) > 1:
                    print(*r)
        print(tot)
    finally:
        shutil.rmtree(d)
    sys.exit(1 if tot.get('UNSOUND') else 0)
