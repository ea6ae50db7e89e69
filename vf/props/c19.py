import os
import shutil
import numpy as np
import h5py
from ..common import Fail, req, eq, arr_eq, must_raise
from .. import gen, ic3x, vtkx
from . import c11, c13, c14, c15


def warmup():
    import pyvista  # noqa
    import cfdtools._cli  # noqa
    import cfdtools.ic3.readerV4  # noqa  (not imported by the command line: registered here)
    import cfdtools.ic3.writerV4  # noqa


def tool(kind):
    import cfdtools._cli as cli
    return {'ic3v2': (cli.cfdwrite_ic3v2, '.ic3'), 'ic3v3': (cli.cfdwrite_ic3v3, '.ic3'), 'vtk': (cli.cfdwrite_vtk, '.vtu')}[kind]


# ---- inputs from cells: GMSH and CGNS
def sides(d, nx):
    """two marks: nodes of the boundary faces lying on x=0 and x=nx (mesh not shuffled in position)"""
    own = gen.oracle_faces(d)
    bf = [f for _, f in gen.cell_faces(d) if len(own[tuple(sorted(f))]) == 1]
    res = {}
    for name, test in (('left', lambda x: x < 0.3), ('right', lambda x: x > nx - 0.3)):
        res[name] = [f for f in bf if all(test(d.coords[a, 0]) for a in f)]
    return res


def write_msh(fname, d, marks):
    gt = c14.GTYPE
    names = list(marks)
    with open(fname, 'w') as f:
        f.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
        f.write(f'$PhysicalNames\n{len(names) + 1}\n')
        for i, n in enumerate(names):
            f.write(f'{d.dim - 1} {i + 1} "{n}"\n')
        f.write(f'{d.dim} {len(names) + 1} "fluid"\n$EndPhysicalNames\n$Nodes\n{d.nnode}\n')
        for i, x in enumerate(d.coords):
            f.write(f'{i + 1} {float(x[0])!r} {float(x[1])!r} {float(x[2])!r}\n')
        el = [(gen.FTYPE[len(fc)], i + 1, fc) for i, n in enumerate(names) for fc in marks[n]]
        el += [(t, len(names) + 1, c) for t, c in d.cells]
        f.write(f'$EndNodes\n$Elements\n{len(el)}\n')
        for i, (t, p, c) in enumerate(el):
            f.write(f'{i + 1} {gt[t]} 2 {p} {p} ' + ' '.join(str(a + 1) for a in c) + '\n')
        f.write('$EndElements\n')


def write_cgns(fname, d, marks):
    with h5py.File(fname, 'w') as g:
        node, chars = c15.node, c15.chars
        node(g, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', np.array([3.3], dtype='f4'))
        base = node(g, 'Base', 'CGNSBase_t', np.array([d.dim, 3], dtype='i4'))
        zone = node(base, 'Zone', 'Zone_t', np.array([[d.nnode], [d.ncell], [0]], dtype='i4'))
        node(zone, 'ZoneType', 'ZoneType_t', chars('Unstructured'))
        gc = node(zone, 'GridCoordinates', 'GridCoordinates_t')
        for i, c in enumerate('XYZ'):
            node(gc, 'Coordinate' + c, 'DataArray_t', d.coords[:, i])
        n = 1
        for t in dict.fromkeys(t for t, _ in d.cells):
            cc = [c for tt, c in d.cells if tt == t]
            s = node(zone, 'E_' + t, 'Elements_t', np.array([c15.CG[t], 0], dtype='i4'))
            node(s, 'ElementRange', 'IndexRange_t', np.array([n, n + len(cc) - 1], dtype='i4'))
            node(s, 'ElementConnectivity', 'DataArray_t', np.array([a + 1 for c in cc for a in c], dtype='i4'))
            n += len(cc)
        zbc = node(zone, 'ZoneBC', 'ZoneBC_t')
        for name, faces in marks.items():
            b = node(zbc, name, 'BC_t', chars('BCWall'))
            lst = sorted({a + 1 for f in faces for a in f})
            node(b, 'PointList', 'IndexArray_t', np.array([lst], dtype='i4'))
            node(b, 'GridLocation', 'GridLocation_t', chars('Vertex'))


EXT = {'bar2': ('quad4', lambda a, b: [a[0], a[1], b[1], b[0]]), 'tri3': ('prism6', lambda a, b: list(a) + list(b)), 'quad4': ('hexa8', lambda a, b: list(a) + list(b))}


def extruded(d, marks, nz):
    n = d.nnode
    coords = np.vstack([d.coords + np.array([0, 0, l / nz]) for l in range(nz + 1)])
    cells = [(EXT[t][0], tuple(EXT[t][1]([a + l * n for a in c], [a + (l + 1) * n for a in c]))) for t, c in d.cells for l in range(nz)]
    x = gen.Desc(coords, cells, d.dim + 1)
    mk = {}
    own = None
    for name, faces in marks.items():
        if d.dim == 2:
            mk[name] = [tuple([f[0] + l * n, f[1] + l * n, f[1] + (l + 1) * n, f[0] + (l + 1) * n]) for f in faces for l in range(nz)]
    mk['fluid0'] = [tuple(c) for t, c in d.cells]
    mk['fluid1'] = [tuple(a + nz * n for a in c) for t, c in d.cells]
    return x, mk


def geo(faces):
    """numbering independent state from (sorted face nodes, cells)"""
    cells = {}
    for f, cc in faces:
        for c in cc:
            if c >= 0:
                cells.setdefault(c, set()).update(f)
    return sorted((tuple(sorted(f)), sorted(tuple(sorted(cells[c])) for c in cc if c >= 0)) for f, cc in faces)


def check_ic3(fname, version, d, marks, exact, what):
    raw = open(fname, 'rb').read()
    eq(ic3x.parse(raw)[1], version, f'{what}: version of the file')
    r, m = ic3x.read(fname)
    eq((int(m.nnode), int(m.ncell)), (d.nnode, d.ncell), f'{what}: sizes')
    xyz = m.nodescoord(ndarray=True)
    if exact:
        arr_eq(xyz, d.coords, f'{what}: coordinates')
    else:
        req(np.max(np.abs(xyz - d.coords) - 1e-13 * np.abs(d.coords)) <= 1e-13, f'{what}: coordinates {xyz[:3].tolist()} expected {d.coords[:3].tolist()}')
    d.number(__import__('random').Random(0), 'range')
    own = {}
    for i, f in gen.cell_faces(d):
        own.setdefault(tuple(sorted(f)), []).append(i)
    st = ic3x.faces_state(m)
    eq(geo([(n, c) for _, n, c in st]), geo([(f, o) for f, o in own.items()]), f'{what}: faces and cells')
    want = {n: sorted(tuple(sorted(f)) for f in fs) for n, fs in marks.items()}
    marked = {f for fs in want.values() for f in fs}
    missing = sorted(f for f, o in own.items() if len(o) == 1 and f not in marked)
    if missing:
        want['unmarked'] = missing
    got = {n: sorted(tuple(sorted(st[int(i)][1])) for i in b.index.list()) for n, b in m._bocos.items() if b.type != 'internal'}
    eq(got, want, f'{what}: marks')


def check_vtk(fname, d, exact, what):
    import pyvista as pv
    g = pv.read(fname)
    xyz = np.asarray(g.points)
    if exact:
        arr_eq(xyz, d.coords, f'{what}: coordinates')
    else:
        eq(xyz.shape, d.coords.shape, f'{what}: coordinates shape')
        req(np.max(np.abs(xyz - d.coords) - 1e-13 * np.abs(d.coords)) <= 1e-13, f'{what}: coordinates')
    eq(sorted(vtkx.cells_of(g)), sorted((t, tuple(c)) for t, c in d.cells), f'{what}: cells')


def snap(fname):
    return open(fname, 'rb').read()


def place(rng, src):
    """destination options and expected output"""
    out = rng.choice([None, 'res', 'r.d/deep'])
    if out:
        os.makedirs(out, exist_ok=True)
    return out


def expected_name(src, ext, out):
    stem = os.path.splitext(os.path.basename(src))[0]
    folder = out or '.'
    i, name = 0, stem + ext
    while os.path.exists(os.path.join(folder, name)):
        i += 1
        name = f'{stem}({i}){ext}'
    return os.path.normpath(os.path.join(folder, name))


SC = [1.0, 2.0, -1.0, 0.5, 1000.0, 0.001, 3.3, 0.0]


def case_cells(rng, k, scratch):
    """GMSH or CGNS inputs to every target with every option"""
    src_kind = 'msh' if k % 3 else 'cgns'
    kind = ['ic3v2', 'ic3v3', 'vtk'][k % 5 % 3] if k % 2 else rng.choice(['ic3v2', 'ic3v3', 'vtk'])
    dim = 2 if rng.random() < 0.65 else 3
    nx, hi = rng.randint(2, 4), rng.randint(1, 3)
    if dim == 2:
        d = gen.mesh2d(rng, nx, hi, rng.choice(['quad', 'tri'] + ['mixed'] * 2))
    else:
        d = gen.mesh3d(rng, nx, rng.randint(1, 2), rng.randint(1, 2), 'hex' if src_kind == 'cgns' else rng.choice(['hex', 'mixed', 'prism']))
    d.number(rng, 'range')
    marks = sides(d, nx)
    fmt = rng.random() < 0.4
    ext = '.' + src_kind if not fmt or rng.random() < 0.3 else rng.choice(['.dat', '', '.ic3', '.h5', '.xyz'])
    stem = rng.choice(['mesh', 'a.b', 'Case 1', 'm(1)']) if ext else 'mesh'
    folder = rng.choice(['', 'in/'])
    if folder:
        os.makedirs('in', exist_ok=True)
    src = folder + stem + ext
    (write_msh if src_kind == 'msh' else write_cgns)(src, d, marks)
    out = place(rng, src)
    args = [src]
    if fmt:
        args += ['--fmt', {'msh': 'GMSH', 'cgns': 'CGNS'}[src_kind]]
    if out:
        args += ['--outpath', out]
    if rng.random() < 0.2:
        args += ['--info']
    if rng.random() < 0.2:
        args += ['--check']
    x, mk, exact = d, marks, True
    nz = None
    if dim == 2 and rng.random() < 0.5:
        nz = rng.randint(1, 4)
        args += ['--extrude', str(nz)]
        x, mk = extruded(d, marks, nz)
        exact = False
    if rng.random() < 0.5:
        s = [rng.choice(SC) for _ in range(3)]
        args += ['--scale'] + [repr(v) for v in s]
        x = gen.Desc(x.coords * np.array(s), x.cells, x.dim)
    f, oext = tool(kind)
    want = expected_name(src, oext, out)
    before = snap(src)
    got = f(args)
    eq(os.path.normpath(str(got)), want, f'{args}: name of the output')
    eq(snap(src), before, 'source file')
    what = ' '.join([kind] + args)
    if kind == 'vtk':
        check_vtk(got, x, exact, what)
    else:
        check_ic3(got, 2 if kind == 'ic3v2' else 3, x, mk, exact, what)


def case_ic3(rng, k, scratch):
    """IC3 inputs with data: removal, scale"""
    from cfdtools.data import DataSet
    src = ['v2', 'v3', 'v4'][k % 3]
    desc, m, marks, part, e = ic3x.make(rng, k // 3, nper=3 if src == 'v4' else 16, maxn=2)
    node, cell = [], []
    state = {}
    if src != 'v4':
        node, cell = c11.field_sets(rng, int(src[1]), desc.nnode, desc.ncell, 1)
        node = [(n.replace(' ', '_'), a) for n, a in node if not n.startswith('-')]
        cell = [(n.replace(' ', '_'), a) for n, a in cell if not n.startswith('-')]
        if k % 2:  # version 2 written: floating point only
            pass
        for ds, want, setter in ((DataSet('nodal'), node, m.set_nodedata), (DataSet('cellaverage'), cell, m.set_celldata)):
            for n, a in want:
                ds.add_data(n, a.copy())
            if want:
                setter(ds)
        state = c11.random_state(rng)
        m.update_params(dict(state))
    fmt = rng.random() < 0.3
    ext = '.h5' if src == 'v4' else '.ic3'
    name = 'data' + (rng.choice(['.bin', '.msh', '.h5', '.ic3']) if fmt else ext)
    folder = rng.choice(['', 'in/'])
    os.makedirs('in', exist_ok=True)
    path = folder + name
    if src == 'v4':
        c13.write4(m, path)
    else:
        ic3x.write(m, int(src[1]), rng.choice(['little', 'big']), path)
    ints = any(a.dtype.kind == 'i' for _, a in node + cell)
    target = 3 if ints else rng.choice([2, 3])
    opts = []
    if fmt:
        opts.append(['--fmt', 'IC3V4' if src == 'v4' else 'IC3'])
    keep_n, keep_c = node, cell
    if rng.random() < 0.5:
        rm = rng.sample([n for n, _ in cell] + ['absent', 'nothere'], rng.randint(1, min(3, len(cell) + 2)))
        opts.append(['--remove-cell-data'] + rm)
        keep_c = [(n, a) for n, a in cell if n not in rm]
    if rng.random() < 0.5:
        rm = rng.sample([n for n, _ in node] + ['absent', 'nothere'], rng.randint(1, min(3, len(node) + 2)))
        opts.append(['--remove-node-data'] + rm)
        keep_n = [(n, a) for n, a in node if n not in rm]
    s = None
    if rng.random() < 0.4:
        s = [rng.choice(SC) for _ in range(3)]
        opts.append(['--scale'] + [repr(v) for v in s])
    out = place(rng, path)
    if out:
        opts.append(['--outpath', out])
    rng.shuffle(opts)
    args = [a for o in opts for a in o]
    args = [path] + args if rng.random() < 0.6 or not args else args + ['--', path]
    f, oext = tool(f'ic3v{target}')
    want = expected_name(path, oext, out)
    before = snap(path)
    got = f(args)
    eq(os.path.normpath(str(got)), want, f'{args}: name of the output')
    eq(snap(path), before, 'source file')
    what = ' '.join(['ic3v%d' % target] + args)
    eq(ic3x.parse(open(got, 'rb').read())[1], target, f'{what}: version')
    r, g = ic3x.read(got)
    if s:
        e = dict(e)
        with np.errstate(all='ignore'):
            e['coords'] = e['coords'] * np.array(s)
    ic3x.check_read(g, e, what, nper=16, partition=part if src != 'v4' else None)
    c11.check_fields(g, keep_n, keep_c, what)
    if state:
        c11.check_state(g, state, what)


def case_errors(rng, k, scratch):
    d = gen.mesh2d(rng, 2, 1, 'quad').number(rng, 'range')
    name = ['m.foo', 'm', 'm.MSH', 'm.msh2', 'm.h', 'm.ic', 'msh'][k % 7]
    write_msh(name, d, sides(d, 2))
    f, ext = tool(rng.choice(['ic3v2', 'ic3v3', 'vtk']))
    must_raise(lambda: f([name]), f'unknown extension of {name}')
    eq(sorted(os.listdir('.')), [name], 'files after a refusal')


CASES = [(case_cells, 200), (case_ic3, 150), (case_errors, 7)]
