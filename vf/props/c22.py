import itertools
import numpy as np
from ..common import Fail, req, eq, arr_eq
from .. import gen

DEPS = {'Asound': ['P', 'RHO'], 'S': ['P', 'RHO'], 'Mach': ['U', 'Asound'], 'U': ['U-X', 'U-Y', 'U-Z'], 'INVX+': ['U-X', 'Asound'], 'INVX-': ['U-X', 'Asound']}
BASE = ['P', 'RHO', 'U-X', 'U-Y', 'U-Z']
ALL = BASE + list(DEPS)


def definition(v, g):
    if v == 'U':
        return np.sqrt(g('U-X')**2 + g('U-Y')**2 + g('U-Z')**2)
    if v == 'Asound':
        return np.sqrt(1.4 * g('P') / g('RHO'))
    if v == 'Mach':
        return g('U') / g('Asound')
    if v == 'INVX+':
        return 5 * g('Asound') + g('U-X')
    if v == 'INVX-':
        return 5 * g('Asound') - g('U-X')
    if v == 'S':
        return np.log(g('P') / g('RHO')**1.4) / 0.4
    raise Fail(f'unexpected use of {v}')


def field(rng, nt, npt, positive):
    nr = np.random.RandomState(rng.randrange(2**31))
    a = nr.standard_normal((nt, npt)) * 10
    return np.abs(a) + 0.1 if positive else a


def dump(fname, a, times, it0=0):
    with open(fname, 'w') as f:
        for i, row in enumerate(a):
            f.write(' '.join([str(it0 + i), repr(float(times[i])), str(len(row))] + [repr(float(x)) for x in row]) + '\n')


def scenario(rng, in_file, present, wanted):
    from cfdtools.probes.data import phydata
    nt, npt = rng.randint(2, 6), rng.randint(1, 5)
    prefix = rng.choice(['probe', 'dir.x/line', 'a b'])
    import os
    if '/' in prefix:
        os.makedirs('dir.x', exist_ok=True)
    times = np.cumsum([rng.uniform(0.1, 1) for _ in range(nt)])
    fvals, pvals = {}, {}
    for v in in_file:
        fvals[v] = field(rng, nt, npt, v in ('P', 'RHO', 'Asound'))
        dump(prefix + '.' + v, fvals[v], times + (rng.random() if rng.random() < 0.1 else 0.0))
    p = phydata(prefix if rng.random() < 0.7 else 'other', verbose=rng.random() < 0.3)
    for v in present:
        pvals[v] = field(rng, nt, npt, v in ('P', 'RHO', 'Asound'))
        p.alldata[v] = pvals[v].copy()
    need = set()

    def possible(v):
        if v in pvals or v in fvals:
            return True
        return v in DEPS and all([possible(d) for d in DEPS[v]])

    def value(v):
        need.add(v)
        if v in pvals:
            return pvals[v]
        if v in fvals:
            return fvals[v]
        return definition(v, value)

    for w in wanted:
        if possible(w):
            r = p.check_data(w, prefix=prefix)
            req(bool(r), f'request of {w} not reported as successful')
            want = value(w)
            got = p.alldata[w]
            eq(np.shape(got), want.shape, f'shape of {w}')
            if w in pvals or w in fvals:
                arr_eq(got, want, f'values of {w}')
            else:
                ok = np.isclose(got, want, rtol=1e-12, atol=1e-12, equal_nan=True)
                req(np.all(ok), f'values of {w}: {np.ravel(got)[:3]} expected {np.ravel(want)[:3]}')
            if w not in p.compute_varname or w in fvals and w not in pvals:
                pass
        else:
            try:
                r = p.check_data(w, prefix=prefix)
            except Exception as e:
                req(any(v in str(e) for v in ALL + [w]), f'error {e!r} names no variable')
            else:
                raise Fail(f'{w} is neither in a file nor computable but the request returned {r!r}')
        for v in pvals:
            arr_eq(p.alldata[v], pvals[v], f'variable {v} already present')
    for v in p.alldata:  # everything loaded on the way follows the same rule
        if v == 'time':
            continue
        req(v in pvals or possible(v), f'{v} appeared')
        want = value(v)
        req(np.shape(p.alldata[v]) == want.shape and np.all(np.isclose(p.alldata[v], want, rtol=1e-12, atol=1e-12, equal_nan=True)), f'values of {v}')


def case_subsets(rng, k, scratch):
    """exhaustive availability of the five base variables for each derived variable"""
    w = list(DEPS)[k % 6]
    mask = k // 6
    files = [v for i, v in enumerate(BASE) if mask >> i & 1]
    scenario(rng, files, [], [w])


def case_random(rng, k, scratch):
    files = [v for v in ALL if rng.random() < rng.choice([0.3, 0.6, 0.9] if v in BASE else [0.1, 0.3])]
    present = [v for v in ALL if rng.random() < rng.choice([0.0, 0.1, 0.4])]
    wanted = [rng.choice(ALL + ['T', 'foo', 'u-x'][:1 + k % 3]) for _ in range(rng.randint(1, 5))]
    scenario(rng, files, present, wanted)


def case_present(rng, k, scratch):
    """almost everything is there, with any values: what is there is not changed"""
    w = list(DEPS)[k % 6]
    present = [v for v in ALL if v != w and rng.random() < 0.8]
    files = [v for v in ALL if v not in present and v != w and rng.random() < 0.5]
    scenario(rng, files, present, [w] + [rng.choice(ALL) for _ in range(k % 3)])


def case_lengths(rng, k, scratch):
    """files of different lengths and widths"""
    from cfdtools.probes.data import phydata
    names = rng.sample(['P', 'T', 'RHO', 'U-X', 'U'], rng.randint(2, 4))
    vals, times = {}, {}
    for n in names:
        vals[n] = field(rng, rng.randint(2, 8), rng.randint(1, 6), False)
        times[n] = np.cumsum([rng.uniform(0.1, 1) for _ in vals[n]]) + rng.random()
        dump('c.' + n, vals[n], times[n])
    p = phydata('c')
    for n in names:
        p.check_data(n, prefix='c')
        arr_eq(p.alldata['time'], times[names[0]], f'time after {n}')
    for n in names:
        arr_eq(p.alldata[n], vals[n], f'data of {n}')


def case_files(rng, k, scratch):
    """interpretation of the columns"""
    from cfdtools.probes.data import phydata
    nt, npt = rng.randint(2, 8), rng.randint(1, 6)
    a = field(rng, nt, npt, False)
    times = np.cumsum([rng.uniform(0.1, 1) for _ in range(nt)])
    names = rng.sample(['P', 'T', 'U-X', 'x'], rng.randint(1, 3))
    p = phydata('b')
    vals = {}
    for i, n in enumerate(names):
        vals[n] = field(rng, nt, npt, False)
        dump('b.' + n, vals[n], times + i, it0=rng.choice([0, 100]))
    if rng.random() < 0.3:
        p.alldata['time'] = times - 7
    t0 = p.alldata.get('time', None)
    for n in names:
        p.check_data(n, prefix='b')
        arr_eq(p.alldata[n], vals[n], f'data of {n}')
    arr_eq(p.alldata['time'], times if t0 is None else times - 7, 'time')
    for c in rng.sample(['X', 'Y', 'Z'], 2):
        pos = field(rng, 1, rng.randint(2, 6), False)
        rep = rng.choice([1, 1, 3])
        dump('b.' + c, np.repeat(pos, rep, axis=0), np.arange(rep) * 0.5)
        p.check_data(c, prefix='b')
        arr_eq(p.alldata[c], pos[0], f'positions {c}')
    arr_eq(p.alldata['time'], times if t0 is None else times - 7, 'time after positions')


CASES = [(case_subsets, 192), (case_random, 500), (case_files, 100), (case_present, 120), (case_lengths, 60)]
