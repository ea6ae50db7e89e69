import os
import numpy as np
import h5py
from ..common import Fail, req, eq, arr_eq, must_raise
from .. import gen, vtkx


def warmup():
    import pyvista  # noqa
    import cfdtools.vtk  # noqa
    import cfdtools.data  # noqa


def any_desc(rng, k):
    """mesh of any mix of types bar2..hexa8 (conformity does not matter)"""
    if k % 4 == 0:
        d = gen.any_mesh(rng, k, dims=(2, 3))
        return d
    types = [t for t in gen.NNODE if t != 'node1']
    n = rng.randint(8, 30)
    nr = np.random.RandomState(rng.randrange(2**31))
    coords = nr.standard_normal((n, 3)) * 10.0**nr.randint(-5, 6, size=(n, 3))
    if rng.random() < 0.2:
        coords[0] = [-0.0, 1e-300, 1e300]
    cells = []
    for t in rng.sample(types, rng.randint(1, len(types))):
        cells += [(t, tuple(rng.sample(range(n), gen.NNODE[t]))) for _ in range(rng.randint(1, 4))]
    rng.shuffle(cells)
    return gen.Desc(coords, cells, 3).number(rng, ['perm', 'range', 'list'][k // 4 % 3])


def by_type(blocks):
    out = {}
    for t, c in blocks:
        out.setdefault(t, []).append(tuple(int(a) for a in c))
    return out


def desc_cells(d):
    return by_type((t, c) for t, _, nodes in d.blocks for c in nodes)


def mesh_cells(m):
    return by_type((t, row) for t, e in m._cell2node.items() for row in np.asarray(e['elem2node']).tolist())


def bits(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    eq(a.shape, b.shape, f'{what}: shape')
    req(a.dtype == np.float64, f'{what}: type {a.dtype}')
    arr_eq(np.ascontiguousarray(a).view(np.int64), np.ascontiguousarray(b).view(np.int64), what)


def check_mesh(m, d, what):
    eq((int(m.nnode), int(m.ncell)), (d.nnode, d.ncell), f'{what}: sizes')
    bits(m.nodescoord(ndarray=True), d.coords, f'{what}: coordinates')
    eq(mesh_cells(m), desc_cells(d), f'{what}: cells')
    eq(sorted(int(i) for i in m._cell2node.all_index()), list(range(d.ncell)), f'{what}: cell numbers')


def check_grid(g, d, what):
    bits(np.asarray(g.points), d.coords, f'{what}: points')
    eq(by_type(vtkx.cells_of(g)), desc_cells(d), f'{what}: cells')


def case_vtk(rng, k, scratch):
    from cfdtools.vtk import vtkMesh
    d = any_desc(rng, k)
    m = gen.build_mesh(d)
    before = gen.faces_of(m._cell2node)
    v = vtkMesh(mesh=m)
    check_grid(v.pyvista_grid, d, 'grid')
    eq((int(v.ncell), int(v.nnode)), (d.ncell, d.nnode), 'sizes of the grid')
    x = v.export_mesh()
    check_mesh(x, d, 'exported mesh')
    eq(gen.faces_of(m._cell2node), before, 'source cells')
    bits(m.nodescoord(ndarray=True), d.coords, 'source coordinates')
    if k % 2:
        f = rng.choice(['a.vtu', 'b.c.vtu', 'x.vtk'])
        v.write_data(f)
        check_mesh(vtkMesh().read(f).export_mesh(), d, 'saved and read mesh')
    v2 = vtkMesh(mesh=x)
    check_mesh(v2.export_mesh(), d, 'second round')
    if k % 3 == 0:  # what is done with an exported mesh has no effect on the next ones; a moved grid is exported as it is
        x.set_nodescoord_nd(d.coords + 1.0)
        x.set_cell2node(gen.build_conn(any_desc(rng, k + 1)))
        check_mesh(v.export_mesh(), d, 'mesh exported again')
        moved = np.asarray(d.coords) * 2.0
        v.pyvista_grid.points = moved
        bits(v.export_mesh().nodescoord(ndarray=True), moved, 'coordinates of the moved grid')
        o = any_desc(rng, k + 4)
        v.set_mesh(gen.build_mesh(o))
        check_grid(v.pyvista_grid, o, 'grid of another mesh')
        check_mesh(v.export_mesh(), o, 'another mesh')


def case_interleaved(rng, k, scratch):
    """a grid whose types are interleaved"""
    from cfdtools.vtk import vtkMesh
    d = any_desc(rng, k)
    cells = list(d.cells)
    rng.shuffle(cells)
    d2 = gen.Desc(d.coords, cells, d.dim).number(rng, 'range')
    g = vtkx.grid(d2.coords, cells)
    check_mesh(vtkMesh(pvmesh=g).export_mesh(), d2, 'exported mesh')


def case_hdf(rng, k, scratch):
    from cfdtools.vtk import vtkMesh
    from cfdtools.data import DataSetList
    from cfdtools.hdf5 import h5File
    d = any_desc(rng, k)
    opt = {} if rng.random() < 0.6 else {'compression': 'gzip'}
    if k % 2:
        v = vtkMesh(mesh=gen.build_mesh(d))
        name, dt = v.dumphdf('d.h5', **opt), 'dataset'
    else:
        ds = DataSetList(1, Xrep='cellaverage', Trep='instant')
        n = rng.randint(0, 2)
        for i in range(n):
            ds.add_datalist({'q': np.arange(d.ncell) * 1.0}, time=i)
        ds.set_mesh(gen.build_mesh(d))
        name, dt = ds.dumphdf('d.h5', **opt), 'datalist'
    f = h5File(name)
    f.open()
    eq(f.datatype, dt, 'data type')
    eq(int(f._version), 1, 'data version')
    w = vtkMesh()
    w.importhdfgroup(f['mesh'])
    f.close()
    check_grid(w.pyvista_grid, d, 'restored grid')
    check_mesh(w.export_mesh(), d, 'restored mesh')
    with h5py.File(name) as h:
        bits(np.array(h['mesh/nodes']), d.coords, 'nodes in file')
        eq({t: [tuple(r) for r in np.array(c).tolist()] for t, c in h['mesh/cells'].items()}, desc_cells(d), 'cells in file')
        eq(h['mesh'].attrs['meshtype'], 'unsmesh', 'mesh type')


TYPES = ['external', 'dataset', 'datalist', 'probes', 'cfdmesh']


def case_meta(rng, k, scratch):
    from cfdtools.hdf5 import h5File
    dt, ver = TYPES[k % 5], rng.choice([0, 1, 2, 17, 1000, 1.5, 0.25, '2.1', 'draft', -3, 2**40])
    mode = ['w', 'x', 'w-'][k // 5 % 3]
    f = h5File('m.h5')
    f.open(mode=mode, datatype=dt, version=ver)
    payload = rng.random() < 0.5
    if payload:
        f._h5file.create_dataset('z', data=[1, 2])
    f.close()
    g = h5File('m.h5')
    g.open(mode=rng.choice(['r', 'r+']))
    eq(g.datatype, dt, 'data type')
    eq(g._version, ver, 'data version')
    if payload:
        eq(list(g['z'][:]), [1, 2], 'content')
    g.close()


def case_refuse(rng, k, scratch):
    from cfdtools.hdf5 import h5File
    mode = ['w', 'x', 'w-'][k % 3]

    def op(**kw):
        f = h5File(f'r{k}.h5')
        try:
            f.open(mode=mode, **kw)
        finally:
            h = getattr(f, '_h5file', None)
            if h is not None:
                h.close()
            if os.path.exists(f'r{k}.h5'):
                os.remove(f'r{k}.h5')
    must_raise(lambda: op(datatype=rng.choice(TYPES)), 'no version')
    must_raise(lambda: op(datatype=rng.choice(['mesh', 'Dataset', '', 'data', 'cgns', 3, 'datasets', 'set', ' dataset', 'probe', 'dataset,datalist', 'external,']), version=1), 'unknown data type')
    must_raise(lambda: op(version=1), 'no data type')
    must_raise(lambda: op(), 'neither data type nor version')


def case_foreign(rng, k, scratch):
    from cfdtools.hdf5 import h5File
    with h5py.File('f.h5', 'w') as h:
        if k % 2:
            h.attrs['cfd_datatype'] = 'dataset'
    f = h5File('f.h5')
    f.open()
    eq(f.datatype, 'dataset' if k % 2 else None, 'data type')
    eq(f._version, 0 if k % 2 else None, 'data version')
    f.close()


CASES = [(case_vtk, 200), (case_interleaved, 80), (case_hdf, 160), (case_meta, 60), (case_refuse, 18), (case_foreign, 4)]
