#!/usr/bin/env python3
"""Decide one property against /repo's current working tree:  check.py C01 [--tier quick|thorough]

1. proof: the contracts of the property's functions, discharged by the verifier (pyvc) from the current source;
2. run-time contract checking of the same contracts on the real code (replays, and the bounded stand-in for
   obligations that are not discharged).
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PY = '/opt/venv/bin/python'
VT = 'python3-vt'


def tier_of(a):
    return a.tier or os.environ.get('VERIF_TIER') or 'quick'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-run', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop.upper(), tier_of(a)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='rfsed-%s-' % prop)
    try:
        rc = decide(prop, tier, a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, a, tmp, t0):
    conf = CONF.get(prop, {})
    thorough = tier == 'thorough'
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(tmp, 'mpl'),
               TMPDIR=tmp, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONPATH='')
    os.makedirs(env['MPLCONFIGDIR'])
    procs = []
    pj = os.path.join(tmp, 'proof.json')
    if not a.no_proof and os.path.exists(os.path.join(HERE, 'props', prop.lower() + '.py')):
        b = 2400 if thorough else 400
        procs.append(('proof', None, pj, subprocess.Popen(
            [VT, os.path.join(HERE, 'pyvc', 'run.py'), prop, '--tier', tier, '--budget', str(b), '--out', pj],
            cwd=tmp, env=env, stdout=open(os.path.join(tmp, 'proof.log'), 'w'), stderr=subprocess.STDOUT), b + 60))
    shards = conf.get('shards', 6)
    budget = conf.get('budget', 45) * (8 if thorough else 1)
    if not a.no_run and os.path.exists(os.path.join(HERE, 'conc', prop.lower() + '.py')):
        for s in range(shards):
            cj = os.path.join(tmp, 'run%d.json' % s)
            procs.append(('run', s, cj, subprocess.Popen(
                [PY, os.path.join(HERE, 'conc', 'run.py'), prop, '--seed', str(a.seed), '--shard', str(s), '--tier', tier,
                 '--budget', str(budget), '--out', cj],
                cwd=tmp, env=env, stdout=open(os.path.join(tmp, 'run%d.log' % s), 'w'), stderr=subprocess.STDOUT),
                budget * 3 + 240))
    proof, runs, errors = None, [], []
    for kind, s, out, p, lim in procs:
        try:
            p.wait(timeout=max(1, lim - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out):
            d = json.load(open(out))
            if kind == 'proof':
                proof = d
            else:
                runs.append(d)
        else:
            log = open(os.path.join(tmp, 'proof.log' if kind == 'proof' else 'run%d.log' % s)).read()[-1500:]
            errors.append('%s %s produced no result: %s' % (kind, s, log))
    if proof and runs and not any(r['violations'] for r in runs):
        # counterexamples of the verifier, replayed on the real code
        hints = [f['witness']['variables'] for f in proof['failed'] if f.get('witness')]
        if hints:
            hj, cj = os.path.join(tmp, 'hints.json'), os.path.join(tmp, 'replay.json')
            json.dump(hints[:12], open(hj, 'w'))
            try:
                subprocess.run([PY, os.path.join(HERE, 'conc', 'run.py'), prop, '--seed', str(a.seed), '--shard', '99', '--tier', tier,
                                '--budget', str(budget), '--hints', hj, '--out', cj], cwd=tmp, env=env, timeout=budget * 3 + 120,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(cj):
                r = json.load(open(cj))
                for v in r['violations']:
                    v['counterexamples_of_the_verifier'] = hints[:12]
                runs.append(r)
    return report(prop, tier, a, proof, runs, errors, t0)


def report(prop, tier, a, proof, runs, errors, t0):
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    known = {k['key']: k for k in known if k['property'] == prop}
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(HERE, 'evidence', 'replay')):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(HERE, 'evidence', 'replay', f))
    lines, nviol = [], 0
    seen = set()
    fails = []
    for r in runs:
        fails += r['violations']
    for v in fails:
        if v['key'] in known:
            if v['key'] not in seen:
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, known[v['key']]['what']))
            seen.add(v['key'])
            continue
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        nviol += 1
        if nviol > 5:
            continue
        path = os.path.join('evidence', 'replay', '%s-%d.json' % (prop, nviol))
        if v['shard'] == 99:
            v['note'] = 'rerun needs --hints FILE holding counterexamples_of_the_verifier'
        v['rerun'] = 'PYTHONPATH= %s conc/run.py %s --seed %d --shard %d --case %s' % (PY, prop, v['seed'], v['shard'], v['case'])
        if proof:
            v['undischarged_obligations'] = [f['obligation'] for f in proof['failed']][:40]
        json.dump(v, open(os.path.join(HERE, path), 'w'), indent=1)
        lines.append('%s: %s' % (v['case'], '; '.join('%s: %s' % tuple(x) for x in v['failed'])[:600]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    refuted = [f for f in proof['failed'] if f.get('witness')] if proof else []
    if refuted and not nviol:
        nviol += 1
        path = os.path.join('evidence', 'replay', '%s-obligation.json' % prop)
        json.dump({'property': prop, 'failed_obligations': refuted}, open(os.path.join(HERE, path), 'w'), indent=1)
        for f in refuted[:4]:
            lines.append('obligation failed: %s (%s)' % (f['obligation'], str(f.get('witness'))[:300]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    write_evidence(prop, tier, a, proof, runs, errors, t0, nviol, sorted(k for k in seen if k in known))
    if proof:
        print('%s proof: %d obligations, %d discharged, %d groups outside the supported fragment' % (
            prop, proof['obligations'], proof['discharged'], len(proof['unsupported'])))
        for u in proof['unsupported']:
            print('  undecided (bounded check only): %s: %s' % (u['group'], u['reason'][:200]))
        for f in proof['failed'][:10]:
            print('  not discharged: %s (%s)%s' % (f['obligation'], f['status'], ' WITNESS' if f.get('witness') else ''))
    if runs:
        print('%s runs: %d cases, %d distinct' % (prop, sum(r['evaluations'] for r in runs), sum(r['distinct_nontrivial'] for r in runs)))
    for l in lines:
        print(l)
    if nviol:
        return 1
    if errors and not (runs or (proof and proof['discharged'])):
        for e in errors:
            print('ERROR', e)
        return 3
    for e in errors:
        print('warning:', e[-600:])
    if not runs and not (proof and proof['obligations']):
        print('ERROR nothing was checked')
        return 3
    return 0


def write_evidence(prop, tier, a, proof, runs, errors, t0, nviol, known):
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    lev = [c['level'] for c in man['checks'] if c['property'] == prop]
    level = lev[0] if lev else 'proof'
    cov = {}
    assumptions = list(GENERAL)
    if proof:
        cov.update({'obligations': proof['obligations'], 'discharged': proof['discharged'],
                    'checker_cmd': '%s pyvc/run.py %s --tier %s' % (VT, prop, tier),
                    'back_ends': {k: v for k, v in proof['stats'].items()},
                    'second_solver': proof['cross'],
                    'functions_under_contract': proof['functions'],
                    'called_by_contract_only': proof['contracts'],
                    'obligation_names': proof['names'][:400],
                    'not_discharged': [{k: f.get(k) for k in ('obligation', 'status', 'detail')} for f in proof['failed']][:50],
                    'outside_the_supported_fragment': proof['unsupported'],
                    'vacuity_guards': proof['vacuity'], 'solver_wall_s': proof['wall_s'],
                    'library_contracts_used': proof['library']})
        assumptions += proof['assumptions']
        cov['trusted_base'] = ['the verifier /verif/pyvc (symbolic execution of the repository\'s Python, loop summaries, canonical forms)',
                               'z3 %s' % proof.get('z3', ''), 'the assumed contracts of NumPy, SciPy, ObsPy, rf, scikit-learn and matplotlib in pyvc/models.py'] + proof.get('trusted', [])
    if runs:
        cov['bounded_runs' if proof else 'runs'] = {
            'note': 'run-time contract checking on the real code, never counted as proved',
            'per_group': merge_groups(runs), 'wall_s': max(r['wall_s'] for r in runs), 'shards': len(runs)}
        cov['evaluations'] = sum(r['evaluations'] for r in runs)
        cov['distinct_nontrivial'] = sum(r['distinct_nontrivial'] for r in runs)
        cov['rule'] = runs[0]['rule']
        cov['samples'] = runs[0]['samples'][:4]
    if errors:
        cov['errors'] = errors
    if known:
        cov['known_findings_seen'] = known
    if level == 'other' or not cov:
        cov['explanation'] = 'see DESIGN.md'
    ev = {'property': prop, 'tier': tier, 'seed': a.seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)


def merge_groups(runs):
    d = {}
    for r in runs:
        for k, v in r['groups'].items():
            x = d.setdefault(k, {'cases': 0, 'distinct': 0})
            x['cases'] += v[0]
            x['distinct'] += v[1]
    return d


GENERAL = ['floating-point arithmetic is treated as exact real arithmetic, machine integers as mathematical integers',
           'partial correctness: obligations speak about calls that return; divisors are non-zero and square roots real',
           'arrays combined element-wise have equal lengths']
CONF = {}

if __name__ == '__main__':
    main()
