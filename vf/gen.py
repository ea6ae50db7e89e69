"""Generators of meshes, marks, fields: independent descriptions from which repo objects are built."""
import itertools
import numpy as np

# standard (CGNS/VTK/GMSH agree on the linear elements) outward faces, written from the format documents
STD_FACES = {
    'hexa8': [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3), (4, 5, 6, 7)],
    'prism6': [(0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (0, 2, 1), (3, 4, 5)],
    'tetra4': [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
    'pyra5': [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    'quad4': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'tri3': [(0, 1), (1, 2), (2, 0)],
}
NNODE = {'node1': 1, 'bar2': 2, 'tri3': 3, 'quad4': 4, 'tetra4': 4, 'pyra5': 5, 'prism6': 6, 'hexa8': 8}
DIM = {'node1': 0, 'bar2': 1, 'tri3': 2, 'quad4': 2, 'tetra4': 3, 'pyra5': 3, 'prism6': 3, 'hexa8': 3}
FTYPE = {1: 'node1', 2: 'bar2', 3: 'tri3', 4: 'quad4'}


class Desc:
    """Plain description of a mesh: coords (n,3), blocks [(etype, index list, list of node tuples)], dim."""

    def __init__(self, coords, cells, dim):
        self.coords = np.asarray(coords, dtype=float).reshape((-1, 3))
        self.cells = cells  # list of (etype, nodes) before numbering
        self.dim = dim
        self.blocks = None

    @property
    def nnode(self):
        return len(self.coords)

    @property
    def ncell(self):
        return len(self.cells)

    def number(self, rng, mode):
        """group by type in first-appearance or shuffled order, give indices: 'range' consecutive per block,
        'list' consecutive as explicit list, 'perm' any permutation over all types"""
        types = list(dict.fromkeys(t for t, _ in self.cells))
        rng.shuffle(types)
        n = len(self.cells)
        blocks, i0 = [], 0
        perm = list(range(n))
        if mode == 'perm':
            rng.shuffle(perm)
        for t in types:
            nodes = [c for tt, c in self.cells if tt == t]
            index = [perm[i] for i in range(i0, i0 + len(nodes))]
            i0 += len(nodes)
            blocks.append((t, index, nodes))
        self.blocks = blocks
        self.mode = mode
        return self

    def by_index(self):
        return {i: (t, tuple(c)) for t, ind, nodes in self.blocks for i, c in zip(ind, nodes)}


def _vol_hexes(nx, ny, nz):
    def nid(i, j, k):
        return k + (nz + 1) * (j + (ny + 1) * i)
    coords = [(i, j, k) for i in range(nx + 1) for j in range(ny + 1) for k in range(nz + 1)]
    hexes = {}
    for i, j, k in itertools.product(range(nx), range(ny), range(nz)):
        hexes[i, j, k] = [nid(i, j, k), nid(i + 1, j, k), nid(i + 1, j + 1, k), nid(i, j + 1, k),
                          nid(i, j, k + 1), nid(i + 1, j, k + 1), nid(i + 1, j + 1, k + 1), nid(i, j + 1, k + 1)]
    return coords, hexes


def mesh3d(rng, nx, ny, nz, style='mixed', shuffle_nodes=True, unused=0, perturb=True):
    """conforming 3D mesh. style: hex, prism, pyra, tet, mixed (any mix, tets on boundary pyramids)"""
    coords, hexes = _vol_hexes(nx, ny, nz)
    coords = [tuple(map(float, c)) for c in coords]
    cells = []
    colsplit = {}
    for i, j in itertools.product(range(nx), range(ny)):
        colsplit[i, j] = style == 'prism' or (style == 'mixed' and rng.random() < 0.35)
    colflip = {ij: rng.random() < 0.5 for ij in colsplit}
    used = {}
    for (i, j, k), h in hexes.items():
        for f in STD_FACES['hexa8']:
            key = tuple(sorted(h[a] for a in f))
            used[key] = used.get(key, 0) + 1
    for (i, j, k), h in hexes.items():
        if style == 'tet':
            # Kuhn subdivision along the 0-6 diagonal
            for p in itertools.permutations((0, 1, 2)):
                corner = [0, 0, 0]
                path = [h[0]]
                loc = {(0, 0, 0): 0, (1, 0, 0): 1, (1, 1, 0): 2, (0, 1, 0): 3, (0, 0, 1): 4, (1, 0, 1): 5, (1, 1, 1): 6, (0, 1, 1): 7}
                for d in p:
                    corner[d] = 1
                    path.append(h[loc[tuple(corner)]])
                # orientation
                a, b, c, d_ = (np.array(coords[n]) for n in path)
                if np.dot(np.cross(b - a, c - a), d_ - a) < 0:
                    path[1], path[2] = path[2], path[1]
                cells.append(('tetra4', path))
            continue
        if colsplit[i, j]:
            if colflip[i, j]:
                cells.append(('prism6', [h[0], h[1], h[2], h[4], h[5], h[6]]))
                cells.append(('prism6', [h[0], h[2], h[3], h[4], h[6], h[7]]))
            else:
                cells.append(('prism6', [h[0], h[1], h[3], h[4], h[5], h[7]]))
                cells.append(('prism6', [h[1], h[2], h[3], h[5], h[6], h[7]]))
            continue
        if style == 'pyra' or (style == 'mixed' and rng.random() < 0.3):
            c = len(coords)
            coords.append(tuple(np.mean([coords[n] for n in h], axis=0)))
            for f in STD_FACES['hexa8']:
                fn = [h[a] for a in f]
                base = [fn[0], fn[3], fn[2], fn[1]]  # seen from inside: pyramid base faces apex
                if style == 'mixed' and used[tuple(sorted(fn))] == 1 and rng.random() < 0.4:
                    # split the boundary pyramid into two tetrahedra
                    a = rng.randrange(4)
                    b = base[a:] + base[:a]
                    cells.append(('tetra4', [b[0], b[1], b[2], c]))
                    cells.append(('tetra4', [b[0], b[2], b[3], c]))
                else:
                    cells.append(('pyra5', base + [c]))
            continue
        cells.append(('hexa8', list(h)))
    # rotate local numbering keeping orientation
    out = []
    for t, c in cells:
        if t == 'hexa8':
            r = rng.randrange(4)
            c = c[:4][r:] + c[:4][:r] + c[4:][r:] + c[4:][:r]
        elif t == 'prism6':
            r = rng.randrange(3)
            c = c[:3][r:] + c[:3][:r] + c[3:][r:] + c[3:][:r]
        elif t == 'pyra5':
            r = rng.randrange(4)
            c = c[:4][r:] + c[:4][:r] + [c[4]]
        elif t == 'tetra4':
            r = rng.randrange(3)
            c = c[:3][r:] + c[:3][:r] + [c[3]]
        out.append((t, c))
    return _finish(rng, coords, out, 3, shuffle_nodes, unused, perturb)


def mesh2d(rng, nx, ny, style='mixed', shuffle_nodes=True, unused=0, perturb=True):
    def nid(i, j):
        return j + (ny + 1) * i
    coords = [(float(i), float(j), 0.0) for i in range(nx + 1) for j in range(ny + 1)]
    cells = []
    for i, j in itertools.product(range(nx), range(ny)):
        q = [nid(i, j), nid(i + 1, j), nid(i + 1, j + 1), nid(i, j + 1)]
        r = rng.randrange(4)
        q = q[r:] + q[:r]
        if style == 'tri' or (style == 'mixed' and rng.random() < 0.5):
            cells += [('tri3', q[:3]), ('tri3', [q[0], q[2], q[3]])]
        else:
            cells.append(('quad4', q))
    return _finish(rng, coords, cells, 2, shuffle_nodes, unused, perturb)


def mesh1d(rng, n, shuffle_nodes=True):
    coords = [(float(i), 0.0, 0.0) for i in range(n + 1)]
    return _finish(rng, coords, [('bar2', [i, i + 1]) for i in range(n)], 1, shuffle_nodes, 0, False)


def _finish(rng, coords, cells, dim, shuffle_nodes, unused, perturb):
    coords = np.array(coords, dtype=float)
    if perturb:
        nr = np.random.RandomState(rng.randrange(2**31))
        d = np.zeros_like(coords)
        d[:, :dim] = nr.uniform(-0.08, 0.08, size=(len(coords), dim))
        coords = coords + d
    for _ in range(unused):
        coords = np.vstack([coords, [[rng.uniform(-9, 9) for _ in range(3)]]])
    if shuffle_nodes:
        perm = list(range(len(coords)))
        rng.shuffle(perm)
        new = np.zeros_like(coords)
        new[perm] = coords
        coords = new
        cells = [(t, [perm[a] for a in c]) for t, c in cells]
    rng.shuffle(cells)
    return Desc(coords, [(t, tuple(c)) for t, c in cells], dim)


def any_mesh(rng, k, dims=(2, 3), maxn=3):
    """k-th mesh: small first, all styles, all numberings"""
    dim = dims[k % len(dims)]
    mode = ['perm', 'range', 'list'][(k // 2) % 3]
    hi = min(maxn, 1 + k // 6)
    if dim == 3:
        style = ['hex', 'mixed', 'prism', 'mixed', 'tet', 'mixed', 'pyra'][(k // 3) % 7]
        d = mesh3d(rng, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi), style,
                   shuffle_nodes=rng.random() < 0.8, unused=rng.choice([0, 0, 0, 2]))
    else:
        style = ['quad', 'mixed', 'tri'][(k // 3) % 3]
        d = mesh2d(rng, rng.randint(1, hi + 1), rng.randint(1, hi + 1), style,
                   shuffle_nodes=rng.random() < 0.8, unused=rng.choice([0, 0, 0, 2]))
    return d.number(rng, mode)


def build_conn(desc):
    import cfdtools.meshbase._connectivity as conn
    c = conn.elem_connectivity()
    for t, index, nodes in desc.blocks:
        a = np.array(nodes)
        if desc.mode == 'range':
            c.add_elems(t, a)
        else:
            c.add_elems(t, a, conn.indexlist(ilist=list(index)))
    return c


def build_mesh(desc):
    import cfdtools.meshbase._mesh as mesh
    m = mesh.Mesh(nnode=desc.nnode)
    m.set_nodescoord_nd(desc.coords.copy())
    m.set_cell2node(build_conn(desc))
    return m


def cell_faces(desc, tables=None):
    """[(cell index, reversed table face nodes)] for every cell face"""
    tables = tables or {t: list(f) for t, f in STD_FACES.items()}
    out = []
    for t, index, nodes in desc.blocks:
        for i, c in zip(index, nodes):
            for f in tables[t]:
                out.append((i, tuple(c[a] for a in f)))
    return out


def oracle_faces(desc):
    """independent: dict sorted nodes -> list of owner cells"""
    d = {}
    for i, f in cell_faces(desc):
        d.setdefault(tuple(sorted(f)), []).append(i)
    return d


def faces_of(conn):
    """list of (index, nodes) of an elem_connectivity through its public queries"""
    return [(int(i), tuple(int(n) for n in nodes)) for i, nodes in conn.index_elem_tuples()]


def rot_canon(f):
    """canonical rotation of an oriented face"""
    f = tuple(f)
    i = f.index(min(f))
    return f[i:] + f[:i]


def set_marks(rng, mesh, desc, nmark=None, based='face', types=None, cover=True, allow_empty=True):
    """put face-based marks (a partition of boundary faces, or partial if not cover) on a mesh with faces built.
    Returns dict name -> (type, list of face node tuples, periodic)"""
    import cfdtools.meshbase._mesh as meshm
    import cfdtools.meshbase._connectivity as conn
    bf = mesh._faces['boundary']['face2node']
    faces = dict(faces_of(bf))
    ids = list(faces)
    rng.shuffle(ids)
    nmark = rng.randint(1, 4) if nmark is None else nmark
    groups = [[] for _ in range(nmark)]
    for i in ids:
        g = rng.randrange(nmark + (0 if cover else 1))
        if g < nmark:
            groups[g].append(i)
    if not allow_empty:
        for n, g in enumerate(groups):
            if not g:
                big = max(groups, key=len)
                if len(big) > 1:
                    g.append(big.pop())
        groups = [g for g in groups if g]
    names = mark_names(rng, len(groups))
    res = {}
    for name, g in zip(names, groups):
        b = meshm.submeshmark(name)
        b.geodim = rng.choice(['bdface', 'face'])
        b.type = rng.choice(types or ['boundary'])
        b.properties['periodic_transform'] = None
        per = None
        if b.type.startswith('perio'):
            per = [rng.uniform(-2, 2) if i < 3 else 0.0 for i in range(16)]
            if b.type != 'perio_cart':
                per = [rng.uniform(-2, 2) for i in range(16)]
            b.properties['periodic_transform'] = per
        b.index = conn.indexlist(ilist=list(g))
        mesh.add_boco(b)
        res[name] = (b.type, [faces[i] for i in g], per)
    return res


def mark_names(rng, n):
    pool = ['wall', 'inlet', 'outlet', 'i', 'Wall Left', 'patch_10', 'patch_1', 'patch-2', 'sym', 'a' * 50, 'x0', 'Z9',
            'boundary', 'face', 'far.field', 'EOF', 'top']
    names = pool[:]
    rng.shuffle(names)
    while len(names) < n:
        names.append(f"m{len(names)}")
    return names[:n]
