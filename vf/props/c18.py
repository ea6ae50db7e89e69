import os
import numpy as np
from ..common import Fail, req, eq, arr_eq
from .. import gen, vtkx


def warmup():
    import pyvista  # noqa
    import cfdtools.vtk  # noqa
    import cfdtools._cli  # noqa


STEMS = ['out', 'a.b', 'case(1)', 'x(2)', 'my file', '.hidden', 'noext', 'res(', 'a(1)(1)', 'd.e.f', '(3)']
EXTS = ['.h5', '.ic3', '', '.vtu', '.tar', '.x y', '.(1)']


def split_name(name):
    """independent stem/extension of a file name (last dot, not leading, not trailing)"""
    i = name.rfind('.')
    if i <= 0 or i == len(name) - 1:
        return name, ''
    return name[:i], name[i:]


def snapshot():
    out = {}
    for r, ds, fs in os.walk('.'):
        for f in fs:
            p = os.path.normpath(os.path.join(r, f))
            out[p] = open(p, 'rb').read()
        for d_ in ds:
            out[os.path.normpath(os.path.join(r, d_))] = None
    return out


def populate(rng, folder, stem, ext, hi=6):
    """creates some of stem.ext, stem(1).ext ... as files or folders; returns expected free name"""
    kind = rng.randrange(6)
    n = rng.randint(0, hi)
    if kind == 0:
        taken = set()
    elif kind == 1:
        taken = set(range(n))
    elif kind == 2:
        taken = set(rng.sample(range(12), rng.randint(1, 8)))
    elif kind == 3:
        taken = set(range(1, 1 + n))
    elif kind == 4:
        taken = set(range(n + 1)) - {rng.randint(0, n)}
    else:
        taken = set(range(rng.choice([10, 11, 101])))

    def nm(i):
        return stem + (f'({i})' if i else '') + ext
    for i in taken:
        p = os.path.join(folder, nm(i))
        if rng.random() < 0.15:
            os.makedirs(p, exist_ok=True)
        else:
            open(p, 'w').write(f'content {i}' if rng.random() < 0.8 else '')
    # decoys
    for dec in (stem + '(01)' + ext, stem + ' (1)' + ext, stem + '(1)', stem + ext + '(1)', stem.upper() + ext, stem + '(2).bak'):
        if rng.random() < 0.2 and dec not in {nm(i) for i in range(200)}:
            p = os.path.join(folder, dec)
            if not os.path.exists(p):
                open(p, 'w').write('decoy')
    i = 0
    while i in taken:
        i += 1
    return nm(i), i > 0


def case_safe(rng, k, scratch):
    from cfdtools.api import _files
    folder = rng.choice(['.', 'sub', 'sub.d/deep', 'a(1)'])
    os.makedirs(folder, exist_ok=True)
    stem, ext = rng.choice(STEMS), rng.choice(EXTS)
    stem, ext = split_name(stem + ext)
    want, changed = populate(rng, folder, stem, ext)
    arg = os.path.join(folder, stem + ext) if folder != '.' or rng.random() < 0.5 else stem + ext
    if rng.random() < 0.3:
        arg = os.path.abspath(arg)
    before = snapshot()
    f = _files(arg)
    eq(bool(f.exists()), changed, 'exists()')
    r = f.find_safe_newfile()
    eq(bool(r), changed, 'reported change')
    got = f.filename
    eq(os.path.realpath(os.path.dirname(got) or '.'), os.path.realpath(folder), 'folder of the safe name')
    eq(os.path.basename(got), want, 'safe name')
    req(not os.path.exists(got), 'the safe name designates an existing file')
    req(not f.exists(), 'safe file reported as existing')
    eq(snapshot(), before, 'files of the folder')
    if not changed:
        eq(os.path.abspath(got), os.path.abspath(arg), 'free requested name')


def case_sequence(rng, k, scratch):
    """successive uses: each created file is a new one"""
    from cfdtools.api import _files
    stem, ext = rng.choice(STEMS), rng.choice(EXTS)
    stem, ext = split_name(stem + ext)
    for i in range(rng.randint(1, 15)):
        f = _files(stem + ext)
        r = f.find_safe_newfile()
        eq(bool(r), i > 0, 'reported change')
        eq(f.filename, stem + (f'({i})' if i else '') + ext, 'safe name')
        open(f.filename, 'w').write(str(i))
    # a name already obtained may be asked again from the same object
    r = f.find_safe_newfile()
    eq(bool(r), True, 'reported change')
    req(not os.path.exists(f.filename), 'existing file')


def case_components(rng, k, scratch):
    from cfdtools.api import _files
    folder = rng.choice(['', 'sub', '/abs/x', 'a.b/c', '..'])
    stem, ext = split_name(rng.choice(STEMS) + rng.choice(EXTS))
    full = os.path.join(folder, stem + ext)
    f = _files(full)
    f.remove_dir()
    eq(f.filename, stem + ext, 'remove_dir')
    f = _files(full)
    nd = rng.choice(['.', 'new', '/tmp/zz', 'n.d'])
    f.change_dir(nd)
    eq(os.path.normpath(f.filename), os.path.normpath(os.path.join(nd, stem + ext)), 'change_dir')
    f = _files(full)
    ne = rng.choice(['.ic3', '.vtu', ''])
    f.change_suffix(ne)
    eq(os.path.normpath(f.filename), os.path.normpath(os.path.join(folder, stem + ne)), 'change_suffix')


def small(rng):
    d = gen.mesh2d(rng, rng.randint(1, 2), 1, 'mixed')
    d.number(rng, 'range')
    return d


def case_dumps(rng, k, scratch):
    """dumps which do not ask for overwriting leave every existing file unmodified"""
    from cfdtools.vtk import vtkMesh, vtkList
    from cfdtools.data import DataSetList
    import cfdtools._cli as cli
    os.makedirs('sub', exist_ok=True)
    kind = k % 5
    stem = rng.choice(['dumped', 'res', 'a.b'])
    folder = rng.choice(['.', 'sub'])
    d = small(rng)
    g = vtkx.grid(d.coords, d.cells)
    g.cell_data['Q'] = np.arange(d.ncell) * 1.0
    g.save('src.vtu')
    if kind == 3:
        stem, folder = 'dumped', '.'
    want, changed = populate(rng, folder, stem, '.h5')
    xmf = []
    if kind == 4:  # with the description for viewers, which has its own name
        wstem = os.path.splitext(want)[0]
        xmf = [os.path.normpath(os.path.join(folder, populate(rng, folder, wstem, '.xmf')[0]))]
    before = snapshot()
    target = os.path.join(folder, stem + '.h5')
    if kind == 0:
        got = vtkMesh(pvmesh=g).dumphdf(target)
    elif kind == 1:
        ds = DataSetList(1, Xrep='cellaverage', Trep='instant')
        ds.add_datalist({'Q': np.arange(d.ncell)}, time=0.0)
        ds.set_mesh(gen.build_mesh(d))
        got = ds.dumphdf(target)
    elif kind in (2, 4):
        v = vtkList(['src.vtu'])
        v.read()
        got = v.dumphdf(target, xdmf=kind == 4)
    else:
        got = cli.vtkpack(['src.vtu'])
    eq(os.path.normpath(str(got)), os.path.normpath(os.path.join(folder, want)), 'returned name')
    after = snapshot()
    for p, c in before.items():
        req(p in after and after[p] == c, f'existing file {p} was modified')
    eq(sorted(set(after) - set(before)), sorted([os.path.normpath(str(got))] + xmf), 'created files')
    import h5py
    with h5py.File(str(got)) as h:
        eq(sorted(h['mesh/cells']), sorted({t for t, _ in d.cells}), 'written file')


def case_overwrite(rng, k, scratch):
    """overwriting only when asked for, and then the requested name"""
    from cfdtools.vtk import vtkMesh
    d = small(rng)
    g = vtkx.grid(d.coords, d.cells)
    vtkMesh(pvmesh=g).dumphdf('o.h5')
    open('p.h5', 'w').write('z')
    before = snapshot()
    got = vtkMesh(pvmesh=g).dumphdf('o.h5', overwrite=True)
    eq(str(got), 'o.h5', 'returned name')
    after = snapshot()
    eq(sorted(after), sorted(before), 'files')
    eq(after['p.h5'], before['p.h5'], 'other file')


def case_convert(rng, k, scratch):
    """conversions never modify existing files"""
    import cfdtools._cli as cli
    from cfdtools.ic3 import writerV2
    d = small(rng)
    m = gen.build_mesh(d)
    from ..ic3x import write
    os.makedirs('in', exist_ok=True)
    os.makedirs('out', exist_ok=True)
    from . import c14
    src = rng.choice(['in/mesh.msh', 'mesh.msh', 'in/a.b.msh'])
    gmsh2d(src, d)
    stem = os.path.splitext(os.path.basename(src))[0]
    tool, ext = [(cli.cfdwrite_ic3v2, '.ic3'), (cli.cfdwrite_ic3v3, '.ic3'), (cli.cfdwrite_vtk, '.vtu')][k % 3]
    folder = rng.choice(['.', 'out'])
    want, changed = populate(rng, folder, stem, ext)
    before = snapshot()
    got = tool([src] + (['--outpath', 'out'] if folder == 'out' else []))
    eq(os.path.normpath(str(got)), os.path.normpath(os.path.join(folder, want)), 'returned name')
    after = snapshot()
    for p, c in before.items():
        req(p in after and after[p] == c, f'existing file {p} was modified')
    eq(sorted(set(after) - set(before)), [os.path.normpath(str(got))], 'created files')


def gmsh2d(fname, d):
    """plain GMSH 2.2 file of a 2D description without marks other than the domain"""
    gt = {'tri3': 2, 'quad4': 3, 'bar2': 1, 'hexa8': 5, 'tetra4': 4, 'prism6': 6, 'pyra5': 7}
    own = gen.oracle_faces(d)
    bf = [f for _, f in gen.cell_faces(d) if len(own[tuple(sorted(f))]) == 1]
    with open(fname, 'w') as f:
        f.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n2\n')
        f.write(f'{d.dim - 1} 1 "wall"\n{d.dim} 2 "fluid"\n$EndPhysicalNames\n')
        f.write(f'$Nodes\n{d.nnode}\n')
        for i, x in enumerate(d.coords):
            f.write(f'{i + 1} {x[0]!r} {x[1]!r} {x[2]!r}\n'.replace('np.float64(', '').replace(')', ''))
        f.write(f'$EndNodes\n$Elements\n{d.ncell + len(bf)}\n')
        n = 0
        for fc in bf:
            n += 1
            f.write(f'{n} {gt[gen.FTYPE[len(fc)]]} 2 1 1 ' + ' '.join(str(a + 1) for a in fc) + '\n')
        for t, c in d.cells:
            n += 1
            f.write(f'{n} {gt[t]} 2 2 1 ' + ' '.join(str(a + 1) for a in c) + '\n')
        f.write('$EndElements\n')


CASES = [(case_safe, 600), (case_sequence, 150), (case_components, 150), (case_dumps, 100), (case_overwrite, 10), (case_convert, 60)]
