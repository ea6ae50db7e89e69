#!/usr/bin/env python3
"""seedpar.py [-j N] [-n] ID...: each seeded/ID in its own worktree: stable tests, demo on clean/patched tree, check of its property (-n: no check)"""
import json, re, threading, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
RESULTS, LOCK = ROOT + '/tools/seed_results.json', threading.Lock()
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def stable():
    for k in ('stable', 'passed', 'pass', 'tests'):
        if k in STABLE:
            return len(STABLE[k])


def one(i, check=True):
    d = f'{ROOT}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    wt = f'/tmp/sp-{i}'
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt], stderr=subprocess.DEVNULL)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'])
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH=wt, OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1')
    try:
        denv = {k: v for k, v in env.items() if k not in ('PYTHONHASHSEED', 'PYTHONPATH')}
        r0 = subprocess.call(['bash', d + '/demo.sh'], cwd=wt, env=denv, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.check_call(['git', '-C', wt, 'apply', d + '/patch.diff'])
        p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-cov', '--timeout=300', '--junitxml', wt + '.xml'], cwd=wt, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = [c.get('name') for c in ET.parse(wt + '.xml').getroot().iter('testcase') if c.find('failure') is not None or c.find('error') is not None]
        os.remove(wt + '.xml')
        ntest = p.stdout.strip().splitlines()[-1]
        d1 = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, env=denv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t = time.time()
        out, rc = '', '-'
        if check:
            c = subprocess.run([PY, ROOT + '/vf/run.py', prop], cwd=ROOT, env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rc, out = c.returncode, c.stdout
        ok = r0 == 0 and d1.returncode and not bad and (rc == 1 or not check)
        s = f"{'OK ' if ok else '***'} {i} [{prop}] failing tests={bad[:3]} ({ntest[:30]}) demo clean={r0} patched={d1.returncode} check rc={rc} {time.time() - t:.0f}s\n"
        if not ok and d1.returncode == 0 or r0:
            s += '      ' + d1.stdout[-300:] + '\n'
        s += ''.join('      ' + l[:220] + '\n' for l in out.splitlines()[:5])
        if check:
            how = 'missed' if rc != 1 else 'obligation, no failing input' if 'no-failing-input-found' in out else 'failing input'
            if rc == 1 and how == 'failing input' and re.search(r'^\s*(obligation|failed)', out, re.M):
                how = 'obligation and failing input'
            with LOCK:
                r = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
                r[i] = {'property': prop, 'check': how}
                json.dump(dict(sorted(r.items())), open(RESULTS, 'w'), indent=1)
        print(s, end='', flush=True)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])
        shutil.rmtree(wt, True)


args = sys.argv[1:]
j = 3
if args[:1] == ['-j']:
    j = int(args[1]); args = args[2:]
check = True
if args[:1] == ['-n']:
    check = False; args = args[1:]
with ThreadPoolExecutor(j) as ex:
    for f in [ex.submit(one, os.path.basename(i.rstrip('/')), check) for i in args]:
        f.result()
