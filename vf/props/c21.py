import cmath
import math
import numpy as np
from ..common import Fail, req, eq, arr_eq
from .. import gen


def make(rng, n, jitter):
    from cfdtools.data import DataSet
    nr = np.random.RandomState(rng.randrange(2**31))
    dt = rng.choice([1.0, 0.1, 1e-6, 3.7])
    t0 = rng.choice([0.0, 5.0, -2.0])
    t = t0 + dt * np.arange(n)
    if jitter:
        t = t + dt * nr.uniform(-0.3, 0.3, size=n)
    ds = DataSet(Xrep=rng.choice(['nodal', 'cellaverage']), Trep='timeevol')
    names = rng.sample(['P', 'U', 'T', 'freqs', 'RHO', 'Time'], rng.randint(1, 4))
    order = names + ['time']
    rng.shuffle(order)
    vals = {}
    for m in order:
        vals[m] = t if m == 'time' else nr.standard_normal(n) + rng.choice([0.0, 3.0]) + np.sin(np.arange(n) * rng.random())
        if m != 'time' and rng.random() < 0.2:  # other types
            vals[m] = (vals[m] * 10).astype(rng.choice([np.int64, np.int32]))
        ds.add_data(m, vals[m])
    return ds, {m: v.copy() for m, v in vals.items()}, names


def unchanged(ds, vals, what):
    eq(sorted(ds.keys()), sorted(vals), f'{what}: variables of the source')
    for m, v in vals.items():
        arr_eq(ds[m], v, f'{what}: source {m}')
    eq(ds.Trep, 'timeevol', f'{what}: representation of the source')


def dft(x, q, n):
    """|sum x_j exp(-2 i pi j q / n)|"""
    j = np.arange(len(x))
    return abs(np.sum(x * np.exp(-2j * np.pi * ((j * q) % n) / n)))


def close(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    eq(a.shape, b.shape, f'{what}: shape')
    req(np.all(np.abs(a - b) <= tol), f'{what}: got {a.ravel()[:5]} expected {b.ravel()[:5]}')


def case_spectrum(rng, k, scratch):
    n = rng.choice([2, 3, 4, 5, 7, 8, 16, 31, rng.randint(2, 150)])
    ds, vals, names = make(rng, n, k % 3 == 1)
    while True:
        imin = rng.choice([None, 0, rng.randrange(n), -rng.randint(1, n)])
        imax = rng.choice([None, n, rng.randint(1, n), -rng.randint(1, n), n + 5])
        idx = list(range(n))[imin:imax]
        if len(idx) >= 2:
            break
    filt = None if rng.random() < 0.4 else rng.sample(names + ['time'], rng.randint(1, len(names) + 1))
    kw = {}
    if filt is not None:
        kw['datafilter'] = filt
        keep = list(filt)
    if imin is not None or rng.random() < 0.3:
        kw['imin'] = imin
    if imax is not None or rng.random() < 0.3:
        kw['imax'] = imax
    want = sorted({m for m in (filt or names) if m != 'time'} | {'freq'})
    res = None
    for go in range(2):
        s = ds.dataSet_spectrum(**kw)
        unchanged(ds, vals, 'spectrum')
        if filt is not None:
            eq(filt, keep, 'list of the caller')
        eq(sorted(s.keys()), want, 'variables of the spectrum')
        eq(s.Trep, 'spectrum', 'representation')
        if res is not None:
            for m in want:
                arr_eq(s[m], res[m], f'second computation of {m}')
        res = {m: np.array(s[m]) for m in want}
    t = vals['time'][idx]
    nn = len(idx)
    dt = (t[-1] - t[0]) / (nn - 1)
    fr = np.array([(q if q < (nn + 1) // 2 else q - nn) / (nn * dt) for q in range(nn)])
    close(res['freq'], fr, 1e-9 * (np.max(np.abs(fr)) + 1e-300), 'frequencies')
    for m in want:
        if m != 'freq':
            x = vals[m][idx]
            close(res[m], np.array([dft(x, q, nn) for q in range(nn)]), 1e-9 * (np.sum(np.abs(x)) + 1), f'spectrum of {m}')
    if k % 3 == 2:  # values changed in place
        for m in names:
            ds[m][:] = ds[m][::-1].copy() * 2
        s = ds.dataSet_spectrum(**kw)
        for m in want:
            if m != 'freq':
                x = 2 * vals[m][::-1][idx]
                close(s[m], np.array([dft(x, q, nn) for q in range(nn)]), 1e-9 * (np.sum(np.abs(x)) + 1), f'spectrum of {m} changed in place')
    a, sd, num = ds.dtstats(imin, imax)
    d = np.diff(t)
    req(abs(a - np.mean(d)) <= 1e-12 * abs(np.mean(d)) and abs(sd - np.sqrt(np.mean((d - np.mean(d))**2))) <= 1e-9 * abs(np.mean(d)), 'time step statistics')
    eq(int(num), nn, 'size of the window')


def case_spectrogram(rng, k, scratch):
    if k % 5 == 0:
        n, w = rng.choice([400, 600, 999, 1201]), None
    else:
        w = rng.randint(4, 40)
        n = rng.choice([2 * (w // 2) + 1, 2 * (w // 2) + 2, rng.randint(2 * (w // 2) + 1, 12 * w), 4 * (w // 2) + 1, 4 * (w // 2)])
    ds, vals, names = make(rng, n, k % 4 == 1)
    filt = None if rng.random() < 0.4 else rng.sample(names + ['time'], rng.randint(1, len(names) + 1))
    kw = {}
    if filt is not None:
        kw['datafilter'] = filt
        keep = list(filt)
    if w is not None:
        kw['window'] = w
    h = (w if w is not None else int(n / 100)) // 2
    L = 2 * h + 1
    rows = max(0, (n - 1) // h - 1)
    want = sorted({m for m in (filt or names) if m != 'time'} | {'freq', 'time'})
    res = None
    for go in range(2):
        s = ds.dataSet_spectrogram(**kw)
        unchanged(ds, vals, 'spectrogram')
        if filt is not None:
            eq(filt, keep, 'list of the caller')
        eq(sorted(s.keys()), want, 'variables of the spectrogram')
        eq(s.Trep, 'spectrogram', 'representation')
        if res is not None:
            for m in want:
                arr_eq(s[m], res[m], f'second computation of {m}')
        res = {m: np.array(s[m]) for m in want}
    dt = (vals['time'][-1] - vals['time'][0]) / (n - 1)
    fq = res['freq'] * L * dt
    q = np.rint(fq).astype(int)
    close(fq, q.astype(float), 1e-6, 'frequencies of the window')
    eq(list(q), list(range(int(q[0]) if len(q) else 0, h + 1)), 'frequencies of the window')
    eq(res['time'].shape, (rows,), 'number of windows')
    arr_eq(res['time'], vals['time'][[h * (i + 1) for i in range(rows)]], 'times of the windows')
    for m in want:
        if m in ('freq', 'time'):
            continue
        eq(res[m].shape, (rows, len(q)), f'shape of {m}')
        for i in range(rows):
            x = vals[m][h * i:h * i + L] * np.array([0.5 - 0.5 * math.cos(2 * math.pi * j / (L - 1)) for j in range(L)])
            sc = np.sum(np.abs(x)) + 1e-3
            for j, qq in enumerate(q):
                a = dft(x, int(qq), L)
                req(abs(math.exp(res[m][i, j]) - a) <= 1e-9 * sc, f'{m}: window {i} frequency {j}: got {res[m][i, j]} expected {math.log(a + 1e-300)}')


CASES = [(case_spectrum, 400), (case_spectrogram, 120)]
