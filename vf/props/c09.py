import itertools
import numpy as np
from ..common import Fail, req, eq


def check_box(nx, ny, nz, cube=None):
    from cfdtools.meshbase.simple import Cube
    cube = cube or Cube(nx, ny, nz)
    m = cube.export_mesh()
    nn = (nx + 1) * (ny + 1) * (nz + 1)
    eq((int(m.nnode), int(m.ncell), int(cube.nnode), int(cube.ncell)), (nn, nx * ny * nz, nn, nx * ny * nz), 'sizes')
    x, y, z = m.nodescoord()
    xyz = m.nodescoord(ndarray=True)
    eq(xyz.shape, (nn, 3), 'coordinates shape')
    pos = {}
    for n in range(nn):
        ijk = tuple(int(round(a * b)) for a, b in zip(xyz[n], (nx, ny, nz)))
        for a, b, c in zip(xyz[n], ijk, (nx, ny, nz)):
            req(0 <= b <= c and abs(a - b / c) <= 1e-13, f'node {n} at {xyz[n].tolist()} is not on the grid')
        req(ijk not in pos, f'two nodes at {ijk}')
        pos[ijk] = n
    eq(list(m._cell2node.elems()), ['hexa8'], 'element types')
    idx = [int(i) for i in m._cell2node.all_index()]
    eq(sorted(idx), list(range(nx * ny * nz)), 'element numbers')
    e = m._cell2node['hexa8']
    eq(tuple(e.shape), (nx * ny * nz, 8), 'elements shape')
    want = set()
    for i, j, k in itertools.product(range(nx), range(ny), range(nz)):
        want.add(tuple(pos[a] for a in [(i, j, k), (i + 1, j, k), (i + 1, j + 1, k), (i, j + 1, k),
                                        (i, j, k + 1), (i + 1, j, k + 1), (i + 1, j + 1, k + 1), (i, j + 1, k + 1)]))
    got = [tuple(int(a) for a in r) for r in e]
    # standard order up to the rotations of the cell which keep the orientation is accepted by the statement only as standard order
    eq(sorted(got), sorted(want), 'cells')
    p = xyz[e]
    vol = np.einsum('ij,ij->i', np.cross(p[:, 1] - p[:, 0], p[:, 3] - p[:, 0]), p[:, 4] - p[:, 0])
    req(bool(np.all(vol > 0)), 'negative volume')
    eq(sorted(m._bocos), ['imax', 'imin', 'jmax', 'jmin', 'kmax', 'kmin'], 'marks')
    side = {'imin': (0, 0), 'imax': (0, nx), 'jmin': (1, 0), 'jmax': (1, ny), 'kmin': (2, 0), 'kmax': (2, nz)}
    for name, (d, v) in side.items():
        b = m._bocos[name]
        eq((b.name, b.geodim, b.type), (name, 'bdnode', 'boundary'), f'mark {name}')
        eq(sorted(int(i) for i in b.index.list()), sorted(n for ijk, n in pos.items() if ijk[d] == v), f'nodes of {name}')


def case_box(rng, k, scratch):
    if k < 64:
        nx, ny, nz = k // 16 + 1, k // 4 % 4 + 1, k % 4 + 1
    else:
        nx, ny, nz = (rng.randint(1, 7) for _ in range(3))
    check_box(nx, ny, nz)
    if nz == 1:
        from cfdtools.meshbase.simple import Cube
        check_box(nx, ny, 1, Cube(nx, ny))
    if k % 7 == 0:  # exporting twice gives the same
        from cfdtools.meshbase.simple import Cube
        c = Cube(nx, ny, nz)
        first = c.export_mesh()
        if k % 2:  # what is done with the first one has no effect on the next ones
            first.scale([2.0, 3.0, 4.0])
            first.make_face_connectivity()
            first.bocomarks_set_node_to_face()
            first.remove_boco('imin')
        check_box(nx, ny, nz, c)


def case_long(rng, k, scratch):
    n = [1, 1, 1]
    n[k % 3] = rng.choice([130, 257, 300])
    n[(k + 1) % 3] = rng.choice([1, 2, 3])
    check_box(*n)


def case_large(rng, k, scratch):
    n = [1, 1, 1]
    n[(k + 2) % 3] = 8300
    check_box(*n)


CASES = [(case_box, 160), (case_long, 6), (case_large, 2)]
