"""Shared plumbing of the checks: import of the real code, case registry, failures."""
import os
import sys
import random
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


def import_repo():
    """Import the code under test from REPO's working tree (nothing cached, nothing installed is trusted)."""
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.argv = sys.argv[:1]  # cfdtools looks at sys.argv for --log
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    import warnings
    import numpy
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    import cfdtools.meshbase  # noqa: F401  (must come before cfdtools.data)
    import cfdtools
    logging.disable(logging.CRITICAL)
    here = os.path.realpath(cfdtools.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"cfdtools imported from {here}, not from {REPO}")
    return cfdtools


class Fail(Exception):
    """The property is broken on the current case."""


def req(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def eq(got, want, what):
    if got != want:
        g, w = repr(got), repr(want)
        raise Fail(f"{what}: got {g[:400]} expected {w[:400]}")


def arr_eq(got, want, what, bits=True):
    import numpy as np
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Fail(f"{what}: shape {got.shape} expected {want.shape}")
    same = np.array_equal(got, want, equal_nan=got.dtype.kind == 'f' and want.dtype.kind == 'f')
    if not same:
        bad = np.argwhere(~(np.asarray(got == want)))[:3].tolist()
        raise Fail(f"{what}: values differ first at {bad}: got {got.ravel()[:8]} expected {want.ravel()[:8]}")


def must_raise(fun, what):
    try:
        res = fun()
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception:
        return
    raise Fail(f"{what}: accepted (returned {type(res).__name__}) but must be refused")


def rng_for(prop, seed, name, k):
    return random.Random(f"{prop}/{seed}/{name}/{k}")


def run_case(fun, prop, seed, k, scratch, prints=None):
    """Returns None or a failure message. Every exception of the code under test on a valid input is a failure."""
    rng = rng_for(prop, seed, fun.__name__, k)
    start = hash(rng.getstate())
    try:
        return _run_case(fun, rng, k, scratch)
    finally:
        if prints is not None and hash(rng.getstate()) != start:
            prints.add((fun.__name__, hash(rng.getstate())))


def _run_case(fun, rng, k, scratch):
    try:
        fun(rng, k, scratch)
    except Fail as e:
        return str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
        return f"exception {type(e).__name__}: {str(e)[:300]} at {' < '.join(reversed(loc))}"
    return None
