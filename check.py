#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current tree.

1. Every function under contract that the property depends on is translated to obligations from the current source and
   handed to z3/cvc5.
2. The replay driver of the property (dyn/) runs next to it: it evaluates the executable form of the property on the real
   code, supplies failing inputs, and is the bounded stand-in for what is not under contract.

exit 0: held.  exit 1: VIOLATION line.  exit 2: the check itself could not run."""
import argparse
import json
import os
import subprocess
import sys
import time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import props

PY = '/opt/venv/bin/python'
REPO = os.environ.get('REPO_UNDER_TEST', '/repo')


def drive(pid, seed, tier, budget, out, extra=None):
    env = dict(os.environ, REPO_UNDER_TEST=REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='2')
    return subprocess.Popen([PY, os.path.join(HERE, 'dyn', 'main.py'), pid, '--out', out, '--seed', str(seed), '--tier', tier,
                             '--budget', str(budget)], env=env, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def collect(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        txt, _ = p.communicate()
        return None, 'replay driver ran out of time: ' + txt[-1500:]
    if p.returncode != 0 or not os.path.exists(out):
        return None, f'replay driver ended with {p.returncode}: ' + txt[-3000:]
    return json.load(open(out)), ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    pid, tier = a.id, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props.P[pid]
    for d in ('evidence', 'replays'):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    out = os.path.join(HERE, 'replays', f'{pid}.dyn.json')
    if os.path.exists(out):
        os.remove(out)
    budget = a.budget or (25 if tier == 'quick' else 420)
    proc = drive(pid, seed, tier, budget, out)

    # ------------------------------------------------------- deductive part
    import contracts
    from engine import vc, verify
    C = contracts.load_all()
    base = json.load(open(os.path.join(HERE, 'contracts', 'base.json')))
    try:
        repo = vc.Repo(REPO)
    except (SyntaxError, OSError) as e:
        repo = None
        print('cannot parse the repository:', e)
    roots = [q for q, f in C.funcs.items() if pid in f.props and not f.trusted] + [f'lemma:{n}' for n, l in C.lemmas.items() if pid in l['props']]
    res, trusted = {}, []
    if repo is not None and roots:
        res, trusted = verify.verify(C, repo, roots, P.get('solver_s', 12 if tier == 'quick' else 60), workers=4, jobs=2,
                                     deadline=t0 + (400 if tier == 'quick' else 1500))
    fails, undecided, vac, per = [], [], [], []
    tot = dis = 0
    backends, secs = {}, 0.0
    ext, inl = set(), set()
    for q in sorted(res):
        r = res[q]
        b = base.get(q, {})
        changed = r.get('hash') != b.get('hash') or r.get('inlined_hash', {}) != b.get('inlined', {})
        n = len(r['obligations'])
        ok = sum(o['status'] == 'proved' for o in r['obligations'])
        tot += n
        dis += ok
        secs += sum(o['seconds'] for o in r['obligations'])
        for o in r['obligations']:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
        ext.update(r['used_ext'])
        inl.update(r['inlined'])
        st = 'proved' if n and ok == n else 'gap' if r['gap'] else 'error' if r['error'] else 'partial'
        per.append(dict(function=q, status=st, obligations=n, discharged=ok, changed=changed, inlined=r['inlined'],
                        relies_on=r['used_contracts'], vacuity=r['vacuity'], seconds=r.get('wall_s'),
                        **({'why': r['gap'] or r['error']} if r['gap'] or r['error'] else {}),
                        **({'open': [o['name'] for o in r['obligations'] if o['status'] != 'proved']} if ok < n else {})))
        v = r['vacuity']
        if v and (v['requires'] == 'unsat' or (v['exits'] and all(x == 'unsat' for x in v['exits']))):
            vac.append(q)
        if n == 0 and not r['gap']:
            undecided.append(f'{q}: no obligations ({r["error"]})')
        if r['gap']:
            undecided.append(f'{q}: outside the verifier ({r["gap"]})')
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        if bad and changed and b.get('hash') and not b.get('gap') and r.get('loops') == b.get('loops'):
            new = [o for o in bad if o['key'] not in b.get('open', [])]
            fails += [(q, o) for o in new]
            undecided += [f'{o["name"]}: open on the unchanged tree too' for o in bad if o not in new]
        elif bad:
            why = 'open on the unchanged tree too' if not changed else 'the contract no longer fits the loops of the function'
            undecided += [f'{o["name"]}: {why}' for o in bad]

    # --------------------------------------------------------- replay driver
    dyn, err = collect(proc, out, budget * 2 + 240)
    if dyn is None:
        # one more attempt with a small budget: an overloaded machine is no verdict
        proc = drive(pid, seed, 'quick', 8, out)
        dyn, err = collect(proc, out, 300)
    if dyn is not None and not dyn['violation'] and fails:
        # a proof was lost: look longer for the input it breaks on
        for k in (1, 2):
            d2, e2 = collect(drive(pid, seed + 1000 * k, 'quick', 30, out), out, 300)
            if d2 and d2['violation']:
                dyn['violation'] = d2['violation']
                break
    known = {f['id']: f for f in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if f['property'] == pid}
    code, lines = 0, []
    rp = os.path.join(HERE, 'replays', f'{pid}.json')
    if dyn is not None:
        for k, case in dyn['known'].items():
            if k not in known and not dyn['violation']:
                dyn['violation'] = dict(suite='known', case=case, message=f'{k} is not a listed finding')
        for k in known:
            lines.append(f'KNOWN-FINDING: property={pid} {known[k]["what"]}')
    if dyn is not None and dyn['violation']:
        json.dump(dict(property=pid, violation=dyn['violation'], replay=f'{PY} {HERE}/dyn/main.py {pid} --replay {rp}',
                       failed_obligations=[dict(function=q, **o) for q, o in fails]), open(rp, 'w'), indent=1, default=str)
        lines.append('failing input: ' + dyn['violation']['message'][:1000])
        lines += ['failed obligation: ' + o['name'] for q, o in fails[:10]]
        lines.append(f'VIOLATION property={pid} replay={rp}')
        code = 1
    elif fails:
        json.dump(dict(property=pid, failed_obligations=[dict(function=q, **o) for q, o in fails]), open(rp, 'w'), indent=1, default=str)
        for q, o in fails[:10]:
            lines.append(f'failed obligation ({o["status"]}): {o["name"]} line {o["line"]}: {o["note"][:300]}')
        lines.append(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        code = 1
    elif dyn is None:
        lines.append('the check could not run: ' + err)
        code = 2
    elif vac:
        lines.append(f'vacuous contract: {vac}')
        code = 2

    full = bool(res) and dis == tot and not undecided and tot > 0
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], wall_s=round(time.time() - t0, 1), violations=int(code == 1),
              assumptions=props.COMMON + [f'assumed contract of {x}' for x in sorted(ext)] +
              [f'trusted contract (not checked against a body): {x}' for x in trusted] + P.get('assumptions', []),
              coverage=dict(obligations=tot, discharged=dis,
                            checker_cmd=f'VERIF_TIER={tier} ./check.py {pid}  (engine/: VC generation from the AST of {REPO}; z3 4.x API, cvc5)',
                            trusted_base=sorted(set(['engine/ VC generator', 'z3', 'cvc5'] + [f'assumed: {x}' for x in ext] + [f'trusted: {x}' for x in trusted])),
                            functions_under_contract=per, back_ends=backends, solver_s=round(secs, 1),
                            inlined_functions=sorted(inl), undecided=undecided, proof_complete=full,
                            lost_obligations=[o['name'] for q, o in fails]))
    cov = ev['coverage']
    if dyn is not None:
        cov.update(evaluations=dyn['evaluations'], distinct_nontrivial=dyn['distinct'],
                   rule='replay driver on the real code; a case counts when it ran to a verdict and differs from the others. ' +
                        ' | '.join(f'{k}: {v.get("rule", "")} [{v.get("cases")} cases]' for k, v in dyn['suites'].items()),
                   samples=dyn['samples'], skipped=dyn['skipped'], skip_reasons=dyn['skip_reasons'], reached=dyn.get('reached'),
                   known_findings_reproduced=sorted(dyn['known']))
    cov['bounded_stand_ins'] = [dict(function=x, bound='the cases generated by the replay driver in this run; not proved') for x in P['bounded']]
    cov['explanation'] = 'obligations/discharged count the verification conditions of functions_under_contract on this run; ' \
        'bounded_stand_ins are decided by the replay driver only and are not counted as proved'
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    for l in lines:
        print(l)
    if code == 0:
        print(f'{pid}: held; {dis}/{tot} obligations of {len(res)} functions, {cov.get("evaluations", 0)} cases, {ev["wall_s"]} s')
    sys.exit(code)


if __name__ == '__main__':
    main()
