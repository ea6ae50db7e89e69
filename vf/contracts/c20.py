"""C20: conversions to VTK grids and cfdtools HDF5 files."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, eq, and_, or_, not_, seq_of, conc, concat
from ..pydv import io_models as IO, vtk_models as VM
from .c02 import Block, container, shows, grouped

PLANS = {'bar2': ('bar2',), 'tri3+quad4': ('tri3', 'quad4'), 'quad4+tri3': ('quad4', 'tri3'), 'hexa8': ('hexa8',), 'tetra4+pyra5+prism6': ('tetra4', 'pyra5', 'prism6'),
         'hexa8+prism6+tetra4+pyra5': ('hexa8', 'prism6', 'tetra4', 'pyra5'), 'all': ('prism6', 'bar2', 'hexa8', 'quad4', 'pyra5', 'tri3', 'tetra4')}
VTK = {'bar2': 3, 'tri3': 5, 'quad4': 9, 'tetra4': 10, 'hexa8': 12, 'prism6': 13, 'pyra5': 14}


def mesh(v, types, explicit=False):
    """any mesh with cells of the given types, any coordinates"""
    from cfdtools.meshbase._mesh import Mesh
    blocks = [Block(v, t, str(k)) for k, t in enumerate(types)]
    con, content = container(v, blocks, [explicit] * len(blocks))
    nn = v.int('nnode', 1)
    xyz = v.array('xyz', [nn, 3], 'f')
    for b in blocks:
        v.assume(v.c.forall([i := v.ivar()], z3.Implies(z3.And(0 <= i, i < lift(b.n)), z3.And(*[z3.And(lift(b.arr.get(i, c)) >= 0, lift(b.arr.get(i, c)) < lift(nn))
                                                                                       for c in range(b.nn)])), [lift(b.arr.get(i, 0))]))
    m = v.call(Mesh, 0, nn)
    v.meth(m, 'set_nodescoord_nd', xyz.copy())
    v.setattr(m, '_cell2node', con)
    v.setattr(m, '_ncell', v.attr(con, 'nelem'))
    return m, blocks, content, nn, xyz


def same_cells(v, what, con, blocks):
    """each type has its cells in the same order"""
    from cfdtools.meshbase import _elements
    v.prove(f'{what}: types of the cells', sorted(seq_of(v.meth(con, 'elems')).lst) == sorted({b.etype for b in blocks}))
    for b in blocks:
        got = v.it.models.getitem(v.it, con, b.etype)
        v.prove(f'{what}: number of {b.etype}', and_(eq(got.shape[0], b.n), eq(got.shape[1], b.nn)))
        v.prove_all(f'{what}: nodes of {b.etype}', b.n, lambda i: and_(*[eq(got.get(i, c), b.arr.get(i, c)) for c in range(b.nn)]))


def same_points(v, what, pts, nn, xyz):
    v.prove(f'{what}: number of points', and_(eq(pts.shape[0], nn), eq(pts.shape[1], 3)))
    v.prove_all(f'{what}: coordinates', nn, lambda i: and_(*[eq(pts.get(i, j), xyz.get(i, j)) for j in range(3)]))


@contract('C20', variants=list(PLANS), bound='one block of cells for each type, any number of cells and nodes')
def vtk_round_trip(v, plan):
    from cfdtools.vtk import vtkMesh
    m, blocks, content, nn, xyz = mesh(v, PLANS[plan])
    g = v.call(vtkMesh, m)
    grid = v.attr(g, 'pyvista_grid')
    v.prove('grid: number of cells', eq(v.attr(g, 'ncell'), sum((b.n for b in blocks), 0)))
    v.prove('grid: number of nodes', eq(v.attr(g, 'nnode'), nn))
    for code, arr in grid.blocks:
        b = [b for b in blocks if VTK[b.etype] == code]
        v.prove('grid: cells of the type', len(b) == 1)
        v.prove_all(f'grid: {b[0].etype}', b[0].n, lambda i: and_(*[eq(arr.get(i, c), b[0].arr.get(i, c)) for c in range(b[0].nn)]))
    same_points(v, 'grid', grid.points, nn, xyz)
    r = v.meth(g, 'export_mesh')
    same_cells(v, 'mesh', v.attr(r, '_cell2node'), blocks)
    same_points(v, 'mesh', v.meth(r, 'nodescoord', ndarray=True), nn, xyz)
    v.prove('mesh: number of cells', eq(v.attr(r, 'ncell'), sum((b.n for b in blocks), 0)))
    v.prove('mesh: number of nodes', eq(v.attr(r, 'nnode'), nn))
    shows(v, 'original cells', v.attr(m, '_cell2node'), content)
    same_points(v, 'original', v.meth(m, 'nodescoord', ndarray=True), nn, xyz)


def opened(v, name):
    from cfdtools.hdf5 import h5File
    f = v.call(h5File, name)
    v.meth(f, 'open')
    return f


@contract('C20', variants=list(PLANS), bound='one block of cells for each type, any number of cells and nodes')
def hdf5_round_trip(v, plan):
    from cfdtools.vtk import vtkMesh
    m, blocks, content, nn, xyz = mesh(v, PLANS[plan])
    g = v.call(vtkMesh, m)
    path = v.text('path')
    over = v.choose(False, True)
    free = v.it.truth_term(IO.fs().exists(IO.as_path(path)))
    name = v.meth(g, 'dumphdf', path, overwrite=over)
    v.prove('one file is written', len(IO.fs().written) == 1)
    fo, na, _ = IO.fs().written[0]
    p, q = IO.as_path(path), IO.as_path(name)
    v.prove('the name returned is the file written', and_(eq(fo, q.folder), eq(na, q.name)))
    if over:
        v.prove('the requested file is written', and_(eq(fo, p.folder), eq(na, p.name)))
    else:
        v.prove('no existing file is written', z3.Not(IO.F_EXISTS(IO.ltext(fo), IO.ltext(na))))
    f = opened(v, name)
    v.prove('data type', v.attr(f, 'datatype') == 'dataset')
    v.prove('version', v.attr(f, '_version') == vtkMesh._version)
    r = v.call(vtkMesh)
    v.meth(r, 'importhdfgroup', v.item(f, 'mesh'))
    same_points(v, 'restored grid', v.attr(r, 'pyvista_grid').points, nn, xyz)
    e = v.meth(r, 'export_mesh')
    same_cells(v, 'restored mesh', v.attr(e, '_cell2node'), blocks)
    same_points(v, 'restored mesh', v.meth(e, 'nodescoord', ndarray=True), nn, xyz)


TYPES = ('external', 'dataset', 'datalist', 'probes', 'cfdmesh')


@contract('C20', variants=['any', 'none'])
def metadata(v, datatype):
    """any text as data type, any version"""
    from cfdtools.hdf5 import h5File
    f = v.call(h5File, v.text('path'))
    datatype = None if datatype == 'none' else v.text('type')
    version = v.choose(None, v.int('version', 0), v.real('version'), v.text('version'))
    mode = v.choose('w', 'x', 'w-')
    if mode != 'w':
        v.assume(z3.Not(lift(IO.fs().exists(v.attr(f, '_path')))))
    e = v.raises(lambda: v.meth(f, 'open', mode=mode, datatype=datatype, version=version), BaseException)
    known = z3.BoolVal(False) if datatype is None else lift(or_(*[eq(datatype, t) for t in TYPES]))
    if e is not None:
        v.prove('refused for a reason', z3.BoolVal(True) if version is None else z3.Not(known))
        return
    v.prove('an unknown data type or no version is refused', z3.BoolVal(False) if version is None else known)
    v.meth(f, 'close')
    r = opened(v, v.attr(f, 'filename'))
    v.prove('data type', eq(v.attr(r, 'datatype'), datatype))
    v.prove('version', eq(v.attr(r, '_version'), version))


@contract('C20', bound='at most 3 runs of cells of the same type, of any length', variants=['tri3', 'quad4+tri3+quad4', 'hexa8+pyra5+hexa8'])
def grid_to_hdf5(v, plan):
    """a grid read from elsewhere, its types in any order"""
    from cfdtools.vtk import vtkMesh
    blocks = [Block(v, t, str(k)) for k, t in enumerate(plan.split('+'))]
    nn = v.int('nnode', 1)
    xyz = v.array('xyz', [nn, 3], 'f')
    g = v.call(vtkMesh, pvmesh=VM.Grid([(VTK[b.etype], b.arr.copy()) for b in blocks], xyz.copy()))
    r = v.call(vtkMesh)
    if v.choose(False, True):
        f = opened(v, v.meth(g, 'dumphdf', v.text('path'), overwrite=v.choose(False, True)))
        v.meth(r, 'importhdfgroup', v.item(f, 'mesh'))
    else:
        r = g
    con = v.attr(v.meth(r, 'export_mesh'), '_cell2node')
    same_points(v, 'mesh', v.meth(v.meth(r, 'export_mesh'), 'nodescoord', ndarray=True), nn, xyz)
    types = sorted({b.etype for b in blocks})
    v.prove('types of the cells', sorted(seq_of(v.meth(con, 'elems')).lst) == types)
    for t in types:
        rows = concat([SSeq(b.n, lambda i, b=b: SList(SSeq(b.nn, lambda c: b.arr.get(i, c)))) for b in blocks if b.etype == t])
        got = v.it.models.getitem(v.it, con, t)
        v.seq_eq(f'nodes of {t}', SSeq(got.shape[0], lambda i, got=got: SList(SSeq(conc(got.shape[1]), lambda c: got.get(i, c)))), rows)
