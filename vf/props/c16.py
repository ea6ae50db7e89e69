import os
import numpy as np
import h5py
from ..common import Fail, req, eq, arr_eq, must_raise
from .. import gen, vtkx


def warmup():
    import pyvista  # noqa
    import cfdtools.vtk  # noqa


def base(rng, k):
    hi = 1 + min(3, k // 12)
    style = k % 5
    if style == 0:
        d = gen.mesh2d(rng, rng.randint(1, hi + 1), rng.randint(1, hi + 1), 'quad')
    elif style == 1:
        d = gen.mesh2d(rng, rng.randint(1, hi + 1), rng.randint(1, hi + 1), 'mixed')
    elif style == 2:
        d = gen.mesh3d(rng, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi), 'hex')
    elif style == 3:
        d = gen.mesh3d(rng, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi), 'prism')
    else:
        d = gen.mesh3d(rng, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi), 'mixed')
    return d


def series(rng, d, n, swap=True):
    """n files with own cell orders (and own node numbering): names, per file (order, fields, time)"""
    nc = d.ncell
    names = rng.sample(['U', 'P', 'RHO', 'tau', 'rho u', 'x', 'times', 'Q'], rng.randint(1, 4))
    shapes = {m: rng.choice([(), (), (3,), (2,), (9,)]) for m in names}
    files, infos = [], []
    for i in range(n):
        order = list(range(nc))
        if i > 0 and swap:
            how = rng.randrange(4)
            if how == 0:
                rng.shuffle(order)
            elif how == 1 and nc > 1:
                a, b = rng.sample(range(nc), 2)
                order[a], order[b] = order[b], order[a]
            elif how == 2:
                r = rng.randrange(nc)
                order = order[r:] + order[:r]
        coords, cells = d.coords, [d.cells[c] for c in order]
        if rng.random() < 0.4:
            perm = np.random.RandomState(rng.randrange(2**31)).permutation(len(coords))
            new = np.zeros_like(coords)
            new[perm] = coords
            coords, cells = new, [(t, [int(perm[a]) for a in c]) for t, c in cells]
        g = vtkx.grid(coords, cells)
        nr = np.random.RandomState(rng.randrange(2**31))
        fields = {m: nr.standard_normal((nc,) + shapes[m]) for m in names}  # per reference cell
        if rng.random() < 0.3:
            m = rng.choice(names)
            fields[m] = (fields[m] * 1000).astype(np.int32)
        if rng.random() < 0.2:  # a field of that file only
            fields['own'] = nr.standard_normal(nc)
        for m in fields:
            g.cell_data[m] = fields[m][order]
        if rng.random() < 0.3:
            g.point_data['pt'] = nr.standard_normal(len(coords))
        t = rng.choice([None, 0.0, 1e-3 * i, float(i), -1.0])
        if t is not None:
            g.field_data['TimeValue'] = np.array([t])
        f = f'f_{i}.vtu' if rng.random() < 0.5 else f'g.{rng.randrange(1000)}.{i}.vtk'
        g.save(f)
        files.append(f)
        infos.append((fields, t, g))
    return names, files, infos


def tval(x):
    return None if x is None else float(np.ravel(x)[0])


def case_align(rng, k, scratch):
    from cfdtools.vtk import vtkList
    d = base(rng, k)
    n = rng.randint(1, 4)
    names, files, infos = series(rng, d, n)
    sel = None if rng.random() < 0.5 else rng.sample(names, rng.randint(1, len(names)))
    kw = {} if sel is None else {'filterdata': list(sel)}
    if rng.random() < 0.3:
        kw['tol'] = rng.choice([1e-12, 1e-6])
    v = vtkList(list(files), verbose=rng.random() < 0.2)
    req(v.allexist(), 'existing files reported missing')
    v.read(**kw)
    eq(len(v._data._datalist), n, 'number of data sets')
    for i, (fields, t, g) in enumerate(infos):
        dl = v._data._datalist[i]
        got = [m for m in dl if m != 'time']
        eq(sorted(got), sorted(sel or fields), f'fields of file {i}')
        for m in got:
            arr_eq(np.asarray(dl[m]), fields[m], f'values of {m} in file {i}')
        eq(tval(dl.get('time')), t, f'time of file {i}')
    # dump
    opt = {} if rng.random() < 0.7 else {'compression': 'gzip'}
    existing = rng.random() < 0.3
    if existing:
        open('out.h5', 'w').write('keep')
    xdmf = rng.random() < 0.2 and all(np.ndim(fl[m]) <= 2 for fl, _, _ in infos for m in fl)
    name = v.dumphdf('out.h5', xdmf=xdmf, **opt)
    eq(str(name), 'out(1).h5' if existing else 'out.h5', 'name of the dumped file')
    if existing:
        eq(open('out.h5').read(), 'keep', 'existing file')
    ref = d.cells
    with h5py.File(str(name)) as h:
        eq(sorted(h), ['datalist', 'mesh'], 'groups of the file')
        eq(h.attrs['cfd_datatype'], 'datalist', 'data type of the file')
        eq(sorted(h['datalist']), [f'i{i:06}' for i in range(n)], 'data sets of the file')
        rg = infos[0][2]
        pts = np.array(h['mesh/nodes'])
        arr_eq(pts, np.asarray(rg.points), 'nodes of the file')
        rc = vtkx.cells_of(rg)
        types = sorted({t for t, _ in rc})
        eq(sorted(h['mesh/cells']), types, 'cell types of the file')
        for t in types:
            eq([tuple(r) for r in np.array(h['mesh/cells'][t]).tolist()], [c for tt, c in rc if tt == t], f'cells {t} of the file')
        for i, (fields, t, g) in enumerate(infos):
            grp = h['datalist'][f'i{i:06}']
            eq(sorted(grp), sorted(sel or fields), f'fields of file {i} in dump')
            for m in grp:
                arr_eq(np.array(grp[m]), fields[m], f'dumped {m} of file {i}')
            eq(sorted(grp.attrs), [] if t is None else ['time'], f'attributes of file {i}')
            if t is not None:
                eq(tval(grp.attrs['time']), t, f'dumped time of file {i}')
    eq(sorted(set(os.listdir('.')) - set(files)), sorted({'out.h5', str(name)} | ({str(name)[:-3] + '.xmf'} if xdmf else set())), 'written files')


def case_refuse(rng, k, scratch):
    """a file whose cells do not coincide within tolerance is refused"""
    from cfdtools.vtk import vtkList
    d = base(rng, k)
    names, files, infos = series(rng, d, rng.randint(2, 4))
    bad = rng.randrange(1, len(files))
    how = k % 4
    g = infos[bad][2]
    tol = rng.choice([None, 1e-6, 1e-3])
    eps = (tol or 1e-10) * rng.choice([2.0, 10.0, 1e3])
    if how == 0:  # whole mesh moved
        g.points = np.asarray(g.points) + np.array([eps * 2, 0, 0])
        msg = 'moved mesh'
    elif how == 1:  # one cell only moved (nodes of one cell duplicated)
        cells = vtkx.cells_of(g)
        i = rng.randrange(len(cells))
        pts = np.asarray(g.points)
        t, c = cells[i]
        new = pts[list(c)] + np.array([0, eps * 2, 0])
        cells[i] = (t, list(range(len(pts), len(pts) + len(c))))
        h = vtkx.grid(np.vstack([pts, new]), cells)
        for m in names:
            h.cell_data[m] = np.asarray(g.cell_data[m])
        g = h
        msg = 'one moved cell'
    elif how == 2:  # other number of cells
        cells = vtkx.cells_of(g)
        if len(cells) > 1 and rng.random() < 0.5:
            keep = list(range(len(cells) - 1))
        else:
            keep = list(range(len(cells))) + [0]
        h = vtkx.grid(np.asarray(g.points), [cells[c] for c in keep])
        for m in names:
            h.cell_data[m] = np.asarray(g.cell_data[m])[keep]
        g = h
        msg = 'other number of cells'
    else:  # same number, one cell twice and another absent
        cells = vtkx.cells_of(g)
        if len(cells) < 3:
            return
        keep = list(range(len(cells)))
        a, b = rng.sample(keep, 2)
        keep[a] = b
        rng.shuffle(keep)
        h = vtkx.grid(np.asarray(g.points), [cells[c] for c in keep])
        for m in names:
            h.cell_data[m] = np.asarray(g.cell_data[m])[keep]
        g = h
        msg = 'one cell twice'
    g.save(files[bad])
    v = vtkList(files)
    must_raise(lambda: v.read(**({} if tol is None else {'tol': tol})), msg)


def case_within(rng, k, scratch):
    """cells displaced by less than the tolerance are matched"""
    from cfdtools.vtk import vtkList
    d = base(rng, k)
    names, files, infos = series(rng, d, 3)
    tol = 1e-3
    for i in (1, 2):
        g = infos[i][2]
        nr = np.random.RandomState(rng.randrange(2**31))
        dz = nr.uniform(-0.4e-3, 0.4e-3, size=np.asarray(g.points).shape)
        g.points = np.asarray(g.points) + dz
        g.save(files[i])
    v = vtkList(files)
    v.read(tol=tol)
    for i, (fields, t, g) in enumerate(infos):
        for m in names:
            arr_eq(np.asarray(v._data._datalist[i][m]), fields[m], f'values of {m} in file {i}')


def case_order(rng, k, scratch):
    """check_order tells whether all files have the same order"""
    from cfdtools.vtk import vtkList
    d = base(rng, k)
    names, files, infos = series(rng, d, rng.randint(1, 3), swap=rng.random() < 0.5)
    c = [np.asarray(g.cell_centers().points) for _, _, g in infos]
    same = all(np.max(np.abs(x - c[0])) < 1e-10 for x in c)
    eq(bool(vtkList(files).check_order()), same, 'check_order')


CASES = [(case_align, 130), (case_refuse, 80), (case_within, 30), (case_order, 20)]
