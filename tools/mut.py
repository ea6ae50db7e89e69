#!/opt/venv/bin/python
"""mut.py PROP FILE [-d] : edits read from stdin as blocks 'old\n=>\nnew' separated by '----'; each applied alone to a copy of the repository, then the check is run"""
import os, shutil, subprocess, sys
prop, f = sys.argv[1:3]
ded = '-d' in sys.argv
w = f'/tmp/mut_{os.getpid()}'
shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'))
src = open(f'{w}/{f}').read()
for b in sys.stdin.read().split('\n----\n'):
    old, new = b.strip('\n').split('\n=>\n')
    assert src.count(old) == 1, (src.count(old), old)
    open(f'{w}/{f}', 'w').write(src.replace(old, new))
    cmd = ['/opt/venv/bin/python'] + (['-m', 'vf.pydv.verify', prop] if ded else ['vf/run.py', prop])
    p = subprocess.run(cmd, cwd='/verif', env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    out = (p.stdout + p.stderr).strip().split('\n')
    bad = [l for l in out if 'VIOLATION' in l or 'FAIL' in l or 'unsupported' in l.lower()]
    print('>>', new.strip().replace('\n', ' / ')[:100], '| rc', p.returncode)
    for l in bad[:4] + out[-1:]:
        print('      ', l[:200])
    sys.stdout.flush()
shutil.rmtree(w)
