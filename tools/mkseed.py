#!/usr/bin/env python3
"""mkseed.py SPEC.py...: builds seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from SPEC (id, prop, needs, what, edits, demo)"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = "import os, sys, tempfile, shutil, logging\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nos.environ['MPLBACKEND'] = 'Agg'\nsys.argv = sys.argv[:1]\nimport warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\nnp.seterr(all='ignore')\nimport cfdtools.meshbase\nimport cfdtools\nlogging.disable(logging.CRITICAL)\nscratch = tempfile.mkdtemp(prefix='demo-')\nimport atexit\natexit.register(shutil.rmtree, scratch, True)\nos.chdir(scratch)\n"
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='mkseed-', dir='/tmp')
        try:
            subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', tmp + '/w', 'HEAD'])
            for f, old, new in s['edits']:
                p = os.path.join(tmp, 'w', f)
                t = open(p, newline='').read()
                if t.count(old) != 1:
                    raise SystemExit(f"{s['id']}: {f}: text found {t.count(old)} times: {old[:60]!r}")
                open(p, 'w', newline='').write(t.replace(old, new))
            diff = subprocess.check_output(['git', '-C', tmp + '/w', 'diff'])
            open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        finally:
            subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', tmp + '/w'])
            shutil.rmtree(tmp, True)
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'].strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"\n')
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', s['id'])
