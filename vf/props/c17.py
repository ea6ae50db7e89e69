import cmath
import math
import numpy as np
from ..common import Fail, req, eq, arr_eq, must_raise
from .. import gen, vtkx


def warmup():
    import pyvista  # noqa
    import cfdtools.vtk  # noqa


def case_extract(rng, k, scratch):
    from cfdtools.vtk import vtkMesh
    hi = 1 + min(3, k // 20)
    if k % 3 == 0:
        d = gen.mesh2d(rng, rng.randint(1, hi + 1), rng.randint(1, hi + 1), ['quad', 'mixed', 'tri'][k % 9 // 3])
    else:
        d = gen.mesh3d(rng, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi), ['mixed', 'hex', 'tet', 'pyra', 'prism'][k // 3 % 5], unused=rng.choice([0, 3]))
    g = vtkx.grid(d.coords, d.cells)
    n = rng.randint(1, d.ncell)
    sel = rng.sample(range(d.ncell), n)
    if rng.random() < 0.2:
        sel = sel + [sel[0]]
    how = rng.randrange(3)
    arg = sel if how == 0 else (np.array(sel) if how == 1 else tuple(sel))
    m = vtkMesh(pvmesh=g)
    r = m.vtk_extract_cells(arg)
    got = vtkx.cells_of(r.pyvista_grid)
    pts = np.asarray(r.pyvista_grid.points)
    eq(len(got), len(sel), 'number of extracted cells')
    eq((int(r.ncell), int(r.nnode)), (len(got), len(pts)), 'sizes')
    for i, c in enumerate(sel):
        t, nodes = d.cells[c]
        eq(got[i][0], t, f'type of extracted cell {i}')
        arr_eq(pts[list(got[i][1])], d.coords[list(nodes)], f'points of extracted cell {i}')
    eq(sorted({a for _, c in got for a in c}), list(range(len(pts))), 'points used by the cells')
    eq(len(pts), len({a for c in sel for a in d.cells[c][1]}), 'number of points')
    eq(vtkx.cells_of(g), [(t, tuple(c)) for t, c in d.cells], 'source cells')
    arr_eq(np.asarray(g.points), d.coords, 'source points')


AXES = [(lambda x: (x[:, 0:2], x[:, 2]), 2, 1.0), (lambda x: (x[:, [1, 2]], x[:, 0]), 0, 1.0), (lambda x: (x[:, [2, 0]], x[:, 1]), 1, 1.0),
        (lambda x: (x[:, 0:2], -x[:, 2]), 2, -1.0)]


def stacked(rng, k, np_):
    """grid made of np_ layers of a 2D mesh along one axis, cells shuffled.
    returns grid, rank (layer, base cell) of each cell, split function, number of base cells"""
    hi = 1 + min(3, k // 15)
    d = gen.mesh2d(rng, rng.randint(1, hi + 1), rng.randint(1, hi + 1), ['quad', 'mixed', 'tri'][k % 3])
    split, axis, sign = AXES[0] if k % 2 == 0 else rng.choice(AXES)
    h = rng.choice([1.0, 0.25, 0.1])
    z0 = rng.choice([0.0, -0.7])
    coords, n = [], d.nnode
    for l in range(np_ + 1):
        c = d.coords.copy()
        c[:, 2] = z0 + l * h
        coords.append(np.roll(c, axis + 1 - 3, axis=1) if axis != 2 else c)
    coords = np.vstack(coords)
    cells, rank = [], []
    for l in range(np_):
        for b, (t, c) in enumerate(d.cells):
            cells.append(({'tri3': 'prism6', 'quad4': 'hexa8'}[t], [a + l * n for a in c] + [a + (l + 1) * n for a in c]))
            rank.append((l if sign > 0 else np_ - 1 - l, b))
    order = list(range(len(cells)))
    if rng.random() < 0.85:
        rng.shuffle(order)
    cells, rank = [cells[o] for o in order], [rank[o] for o in order]
    return coords, cells, rank, (None if (axis == 2 and sign > 0 and rng.random() < 0.6) else split), d.ncell


def case_average(rng, k, scratch):
    from cfdtools.vtk import vtkMesh
    npl = rng.randint(2, 3 + k // 10) if k < 100 else rng.randint(2, 12)
    coords, cells, rank, split, nb = stacked(rng, k, npl)
    g = vtkx.grid(coords, cells)
    nr = np.random.RandomState(rng.randrange(2**31))
    names = rng.sample(['U', 'P', 'Q', 'P_avg', 'r s'], rng.randint(1, 3))
    vals = {}
    for m in names:
        shape = rng.choice([(), (), (3,)])
        vals[m] = nr.standard_normal((npl, nb) + shape)
        g.cell_data[m] = np.array([vals[m][l, b] for l, b in rank])
    # options
    kw, glob = {}, {'avg': True, 'rms': False, 'phase': False, 'nmode': 0, 'snapshot': False}
    for o in ('rms', 'phase', 'snapshot'):
        if rng.random() < 0.35:
            kw[o] = glob[o] = True
    if rng.random() < 0.5:
        kw['nmode'] = glob['nmode'] = rng.randint(0, npl - 1)
    opts = {m: dict(glob) for m in names}
    if rng.random() < 0.5:
        sel, opts = {}, {}
        for m in rng.sample(names, rng.randint(1, len(names))):
            o = dict(glob)
            items = []
            for w in rng.sample(['no_avg', 'avg', 'rms', 'phase', 'snapshot', 'nm'], rng.randint(1, 3)):
                if w == 'nm':
                    q = rng.randint(0, npl - 1)
                    items.append({'nmode': q})
                    o['nmode'] = q
                elif w == 'no_avg':
                    items.append(w)
                    o['avg'] = False
                else:
                    items.append(w)
                    o[w] = True
            if 'avg' in items and 'no_avg' in items:
                items = [w for w in items if w != 'avg']
                o['avg'] = False
            sel[m] = items[0] if len(items) == 1 and isinstance(items[0], str) else items
            opts[m] = o
        kw['select'] = sel
    if split is not None:
        kw['splitcoords'] = split
    before = {m: np.array(g.cell_data[m]) for m in names}
    vm = vtkMesh(pvmesh=g)
    if k % 4 == 3:  # other values were averaged before with the same object
        for m in names:
            g.cell_data[m] = before[m] * 3 + 1
        vm.vtk_zconvolution(**kw)
        for m in names:
            g.cell_data[m] = before[m]
    r = vm.vtk_zconvolution(**kw)
    for m in names:
        arr_eq(np.asarray(g.cell_data[m]), before[m], f'source data {m}')
    rg = r.pyvista_grid
    eq(int(rg.n_cells), nb, 'number of cells of the slice')
    want = set()
    for m, o in opts.items():
        want |= ({m} if o['snapshot'] else set()) | ({m + '_avg'} if o['avg'] else set()) | ({m + '_rms'} if o['rms'] else set())
        for q in range(1, o['nmode'] + 1):
            want |= {f'{m}_k{q}'} | ({f'{m}_k{q}_phase'} if o['phase'] else set())
    eq(sorted(rg.cell_data.keys()), sorted(want), 'created data')
    # locate each output cell by its exact points
    pts = np.asarray(rg.points)
    key = {tuple(map(tuple, coords[list(c)])) + (t,): i for i, (t, c) in enumerate(cells) if rank[i][0] == 0}
    where = []
    for t, c in vtkx.cells_of(rg):
        kk = tuple(map(tuple, pts[list(c)])) + (t,)
        req(kk in key, f'cell {len(where)} of the slice is not a cell of the first plane')
        where.append(rank[key[kk]][1])
    eq(sorted(where), list(range(nb)), 'cells of the slice')
    # a later output may reuse a name (P_avg of P and snapshot of P_avg): only check unambiguous ones
    produced = {}
    for m, o in opts.items():
        for nm in ([m] if o['snapshot'] else []) + ([m + '_avg'] if o['avg'] else []) + ([m + '_rms'] if o['rms'] else []):
            produced[nm] = produced.get(nm, 0) + 1
    for m, o in opts.items():
        v = vals[m][:, where]  # planes x cells
        n = npl
        amp = np.max(np.abs(v)) + 1.0

        def close(nm, w):
            if produced.get(nm, 1) > 1:
                return
            got = np.asarray(rg.cell_data[nm])
            eq(got.shape, w.shape, f'shape of {nm}')
            req(np.max(np.abs(got - w)) <= 1e-11 * amp * n, f'{nm}: wrong values {got.ravel()[:4]} expected {w.ravel()[:4]}')
        mean = sum(v[l] for l in range(n)) / n
        if o['snapshot'] and produced.get(m, 1) == 1:
            arr_eq(np.asarray(rg.cell_data[m]), v[0], f'snapshot {m}')
        if o['avg']:
            close(m + '_avg', mean)
        if o['rms']:
            got2 = np.asarray(rg.cell_data[m + '_rms'])**2
            w2 = sum((v[l] - mean)**2 for l in range(n)) / n
            req(got2.shape == w2.shape and np.max(np.abs(got2 - w2)) <= 1e-10 * amp**2, f'{m}_rms: wrong values')
        for q in range(1, o['nmode'] + 1):
            f = sum(v[l] * cmath.exp(-2j * math.pi * l * q / n) for l in range(n)) / math.sqrt(n)
            close(f'{m}_k{q}', np.abs(f))
            if o['phase']:
                ph = np.asarray(rg.cell_data[f'{m}_k{q}_phase'])
                eq(ph.shape, f.shape, f'shape of phase {q}')
                req(np.max(np.abs(np.abs(f) * np.exp(1j * ph) - f)) <= 1e-10 * amp * n, f'{m}_k{q}_phase: wrong values')


def case_refuse(rng, k, scratch):
    from cfdtools.vtk import vtkMesh
    npl = rng.randint(3, 6)
    coords, cells, rank, split, nb = stacked(rng, 2 * rng.randrange(40), npl)
    kw = {} if split is None else {'splitcoords': split}
    how = k % 6
    tol = 1e-6
    mv = rng.choice([5e-5, 1e-3, 0.02])
    last = [i for i, r in enumerate(rank) if r[0] == npl - 1]
    if how == 0:  # one missing cell
        cells.pop(rng.randrange(len(cells)))
        if nb == 1:
            return
    elif how == 1:  # one plane displaced in its plane
        p = rng.randrange(npl)
        extra = []
        for i, (t, c) in enumerate(cells):
            if rank[i][0] == p:
                new = coords[list(c)] + np.array([mv, 0, 0])
                cells[i] = (t, list(range(len(coords) + len(extra), len(coords) + len(extra) + len(c))))
                extra += new.tolist()
        coords = np.vstack([coords, extra])
    elif how == 2:  # one cell displaced in its plane
        i = rng.randrange(len(cells))
        t, c = cells[i]
        new = coords[list(c)] + np.array([0, mv, 0])
        cells[i] = (t, list(range(len(coords), len(coords) + len(c))))
        coords = np.vstack([coords, new])
    elif how == 3:  # planes which are not equally spaced
        extra = []
        for i in last:
            t, c = cells[i]
            new = coords[list(c)] + np.array([0, 0, mv * 10])
            cells[i] = (t, list(range(len(coords) + len(extra), len(coords) + len(extra) + len(c))))
            extra += new.tolist()
        coords = np.vstack([coords, extra])
    elif how == 4:  # one cell of a plane replaced by a copy of another one
        p = rng.randrange(npl)
        ids = [i for i, r in enumerate(rank) if r[0] == p]
        if len(ids) < 2:
            return
        a, b = rng.sample(ids, 2)
        cells[a] = cells[b]
    else:  # unknown name
        kw['select'] = {rng.choice(['V', 'u', 'U_avg']): 'avg'}
    g = vtkx.grid(coords, cells)
    g.cell_data['U'] = np.random.RandomState(k).standard_normal(len(cells))
    must_raise(lambda: vtkMesh(pvmesh=g).vtk_zconvolution(**kw), ['missing cell', 'displaced plane', 'displaced cell', 'uneven planes', 'duplicated cell', 'unknown name'][how])


def case_large(rng, k, scratch):
    """more than 65535 points in the extracted cells"""
    from cfdtools.vtk import vtkMesh
    import pyvista as pv
    nx, ny = 186, 178
    n = (nx + 1) * (ny + 1)
    x, y, z = np.meshgrid(np.arange(nx + 1.), np.arange(ny + 1.), [0., 1.], indexing='ij')
    coords = np.stack([x, y, z], axis=-1).transpose(2, 0, 1, 3).reshape(-1, 3)
    b = (np.arange(nx)[:, None] * (ny + 1) + np.arange(ny)[None, :]).ravel()
    q = np.stack([b, b + ny + 1, b + ny + 2, b + 1], axis=1)
    conn = np.concatenate([q, q + n], axis=1)
    cells = np.concatenate([np.full((len(conn), 1), 8), conn], axis=1).ravel()
    g = pv.UnstructuredGrid(cells, np.full(len(conn), 12, dtype=np.uint8), coords)
    sel = np.random.RandomState(5).permutation(len(conn))
    r = vtkMesh(pvmesh=g).vtk_extract_cells(sel).pyvista_grid
    eq((int(r.n_cells), int(r.n_points)), (len(conn), len(coords)), 'sizes of a large extraction')
    c = np.asarray(r.cells).reshape(-1, 9)
    arr_eq(c[:, 0], np.full(len(conn), 8), 'numbers of nodes of a large extraction')
    arr_eq(np.asarray(r.points)[c[:, 1:]], coords[conn[sel]], 'points of a large extraction')


CASES = [(case_extract, 200), (case_average, 200), (case_refuse, 90), (case_large, 1)]
