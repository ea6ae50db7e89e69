"""Concrete side: runs generated cases of a property on the real code, in parallel, within a time budget."""
import os
import sys
import time
import shutil
import tempfile
import multiprocessing as mp
import importlib

from . import common


def load(prop):
    return importlib.import_module(f'vf.props.{prop.lower()}')


def _worker(prop, seed, jobs, deadline, q, scratch, wid):
    os.chdir(scratch)
    mod = load(prop)
    funs = {f.__name__: f for f, *_ in mod.CASES}
    done = {}
    prints = set()
    for name, k in jobs:
        if time.time() > deadline:
            break
        work = os.path.join(scratch, f'w{wid}')
        os.makedirs(work, exist_ok=True)
        os.chdir(work)
        msg = common.run_case(funs[name], prop, seed, k, work, prints)
        os.chdir(scratch)
        if os.listdir(work):
            shutil.rmtree(work, ignore_errors=True)
        done[name] = done.get(name, 0) + 1
        if msg is not None:
            q.put(('fail', name, k, msg))
            break
    q.put(('done', wid, done, len(prints)))


def run(prop, seed, budget, tier, nproc=8):
    """returns (failures [(case, k, msg)], counts {case: n}, distinct random inputs)"""
    common.import_repo()
    mod = load(prop)
    if hasattr(mod, 'warmup'):
        mod.warmup()
    mult = 1 if tier == 'quick' else 20
    jobs = []
    for f, n, *_ in mod.CASES:
        jobs += [(f.__name__, k, k / n) for k in range(n if n == 1 else n * mult)]
    jobs.sort(key=lambda j: j[2])
    jobs = [j[:2] for j in jobs]
    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    deadline = time.time() + budget
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    procs = []
    try:
        nproc = max(1, min(nproc, len(jobs)))
        for w in range(nproc):
            p = ctx.Process(target=_worker, args=(prop, seed, jobs[w::nproc], deadline, q, scratch, w))
            p.start()
            procs.append(p)
        fails, counts, left = [], {}, set(range(nproc))
        distinct = 0
        hard = deadline + 60
        while left and time.time() < hard:
            try:
                m = q.get(timeout=1.0)
            except Exception:
                for w in list(left):
                    if not procs[w].is_alive() and q.empty():
                        left.discard(w)
                        if procs[w].exitcode:
                            fails.append(('worker', w, f'worker process ended with code {procs[w].exitcode}'))
                continue
            if m[0] == 'fail':
                fails.append(m[1:])
                deadline = min(deadline, time.time() + 2)
                hard = min(hard, time.time() + 5)
            else:
                left.discard(m[1])
                distinct += m[3]
                for n, c in m[2].items():
                    counts[n] = counts.get(n, 0) + c
        if left and not fails:
            fails.append(('worker', sorted(left)[0], 'case did not terminate'))
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
            p.join()
        shutil.rmtree(scratch, ignore_errors=True)
    fails.sort(key=lambda f: (f[1], f[0]))
    return fails, counts, distinct
