#!/usr/bin/env python3
"""Check of one property: run.py C01 [--replay FILE].  VERIF_SEED, VERIF_TIER from the environment.

deductive side: contracts of the property discharged on the functions of /repo's working tree (vf/pydv)
concrete side: the contracts evaluated on generated inputs with the real code; it looks for a failing input of a failed
obligation, and is the bounded stand-in (labelled so) for the functions the verifier cannot reach
"""
import os
import sys
import json
import time
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':     # same order of the sets of strings in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'

REPLAYS = os.path.join(ROOT, 'evidence', 'replay')
KNOWN = os.path.join(ROOT, 'known_findings.json')


def known(prop):
    try:
        with open(KNOWN) as f:
            return [e for e in json.load(f)['open'] if e['property'] == prop]
    except FileNotFoundError:
        return []


def write_replay(prop, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{prop}.json')
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return os.path.relpath(path, ROOT)


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    if rec['kind'] != 'input':
        print(json.dumps(rec, indent=1))
        print('no failing input: the failed obligation and the output of the verifier are above')
        return 0
    from vf import common, concrete
    common.import_repo()
    mod = concrete.load(prop)
    if hasattr(mod, 'warmup'):
        mod.warmup()
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        fun = {f.__name__: f for f, *_ in mod.CASES}[rec['case']]
        msg = common.run_case(fun, prop, rec['seed'], rec['k'], scratch)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    print('holds' if msg is None else f'fails: {msg}')
    return 0 if msg is None else 1


def main():
    t0 = time.time()
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(prop, os.path.abspath(sys.argv[3]))
    sys.argv = sys.argv[:1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    from vf import common, concrete
    try:
        common.import_repo()
        err = None
    except BaseException as e:  # noqa: the code under test cannot be imported
        err = f'import of cfdtools fails: {type(e).__name__}: {e}'
    if err:
        p = write_replay(prop, dict(property=prop, kind='import', message=err))
        print(f'VIOLATION property={prop} replay={p}')
        print(err)
        return 1
    from vf.pydv import verify
    budget = 25 if tier == 'quick' else 900
    fails, counts, distinct = concrete.run(prop, seed, budget, tier)
    # with a failing input at hand the deductive side only has to name the obligations that fail
    ded = verify.run(prop, tier, budget=1500 if tier != 'quick' else 60 if fails else 150)
    failed = [o for o in ded['obligations'] if o['status'] != 'proved']
    if failed and not fails and tier == 'quick':  # look harder for a failing input of the failed obligation
        fails, c2, distinct = concrete.run(prop, seed + 1000, 40, 'thorough')
        for k, v in c2.items():
            counts[k] = counts.get(k, 0) + v
        if fails:
            seed += 1000
    # known findings: listed by failing case and message
    rest = []
    import re
    shown = set()
    for f in fails:
        hit = [e for e in known(prop) if e['case'] == f[0] and re.search(e['match'], f[2])]
        if hit:
            if hit[0]['what'] not in shown:
                print(f"KNOWN-FINDING: property={prop} {hit[0]['what']}")
                shown.add(hit[0]['what'])
        else:
            rest.append(f)
    fails = rest
    status, nviol = 0, 0
    if fails:
        name, k, msg = fails[0]
        rec = dict(property=prop, kind='input', seed=seed, case=name, k=k, message=msg,
                   replay=f'/opt/venv/bin/python vf/run.py {prop} --replay <this file>',
                   failed_obligations=failed[:20], other=[f[0] for f in fails[1:5]])
        p = write_replay(prop, rec)
        print(f'VIOLATION property={prop} replay={p}')
        print(f'{name}[{k}] seed {seed}: {msg}')
        for o in failed[:5]:
            print(f"  obligation {o['contract']}/{o['name']} {o['status']} {o['where']}")
        status, nviol = 1, len(fails)
    elif failed:
        rec = dict(property=prop, kind='obligation', failed_obligations=failed[:30], message=failed[0]['name'])
        p = write_replay(prop, rec)
        for o in failed[:5]:
            print(f"  obligation {o['contract']}/{o['name']} {o['status']} {o['where']} {o['info'][:300]}")
        print(f'VIOLATION property={prop} replay={p} no-failing-input-found')
        status, nviol = 1, len(failed)
    elif verify.has_contracts(prop) and not ded['obligations'] and not ded['unsupported']:
        print(f'ERROR property={prop}: no obligation was generated')
        status = 2
    level = verify.level(prop)
    n = sum(counts.values())
    cov = dict(
        obligations=len(ded['obligations']), discharged=len(ded['obligations']) - len(failed),
        checker_cmd=f'/opt/venv/bin/python vf/run.py {prop}',
        trusted_base=verify.TRUSTED,
        backends=ded['backends'], solver_time_s=round(ded['solver_time'], 2), paths=ded['paths'],
        functions_under_contract=ded['functions'], contracts=ded['contracts'],
        unsupported=ded['unsupported'],
        bounded_standin=dict(note='BOUNDED, not counted as proved: contracts evaluated on generated inputs with the real code',
                             cases=counts),
        evaluations=n, distinct_nontrivial=distinct,
        rule='each case draws a random input from its seed (VERIF_SEED, case name, number); distinct: different final state of the '
             'random generator among the cases that drew something',
        samples=[f'{c}[0..{v - 1}] seed {seed}' for c, v in sorted(counts.items())][:12],
        explanation='see level_note in MANIFEST.json and DESIGN.md')
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')),
              level=level, coverage=cov, assumptions=ded['assumptions'], wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {len(ded["obligations"]) - len(failed)}/{len(ded["obligations"])} obligations, {len(ded["unsupported"])} '
          f'contracts out of reach, {n} bounded evaluations ({distinct} distinct), {time.time() - t0:.1f} s')
    return status


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(code)
