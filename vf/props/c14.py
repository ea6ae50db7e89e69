import numpy as np
from ..common import Fail, req, eq, arr_eq
from .. import gen

GTYPE = {'bar2': 1, 'tri3': 2, 'quad4': 3, 'tetra4': 4, 'hexa8': 5, 'prism6': 6, 'pyra5': 7, 'node1': 15}
NAMES = ['wall', 'inlet', 'outlet top', 'my long name', 'a', 'Wall', 'imin', '7', 'side-1', 'x.y', 'fluid2', 'w_a_l_l', 'sym "q" z'.replace('"', "'")]


class Model:
    """a GMSH mesh: coords, entities {(dim, tag): (phys or 0, [(etype, nodes)])}, names {(dim, phys): name}"""


def boundary(desc):
    """boundary faces as elements with nodes in element order"""
    d = gen.oracle_faces(desc)
    out = []
    for i, f in gen.cell_faces(desc):
        if len(d[tuple(sorted(f))]) == 1:
            out.append((gen.FTYPE[len(f)], f))
    return out


def model(rng, k):
    g = Model()
    dim = 2 + k % 2
    hi = 1 + min(3, k // 8)
    if dim == 3:
        style = ['hex', 'mixed', 'prism', 'tet', 'pyra'][k // 2 % 5]
        d = gen.mesh3d(rng, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, 2), style)
    else:
        d = gen.mesh2d(rng, rng.randint(1, hi + 1), rng.randint(1, hi + 1), ['quad', 'mixed', 'tri'][k // 2 % 3])
    d.number(rng, 'range')
    g.dim, g.coords = dim, d.coords
    g.entities = {}
    tag = lambda n: rng.sample(range(1, 4 * n + 1), n) if rng.random() < 0.7 else list(range(1, n + 1))
    # volume entities
    nv = rng.randint(1, 3)
    vt = tag(nv)
    cells = list(d.cells)
    split = [rng.randrange(nv) for _ in cells]
    g.names = {}
    use_names = k % 6 != 5
    vphys = [rng.choice([0, 1, 2, 9]) for _ in range(nv)]
    for i in range(nv):
        mine = [c for c, s in zip(cells, split) if s == i]
        if mine:
            g.entities[dim, vt[i]] = (vphys[i], mine)
    # boundary entities
    bf = boundary(d)
    nb = rng.randint(1, min(6, len(bf)))
    bt = tag(nb)
    groups = [rng.randrange(nb) for _ in bf]
    np_ = rng.randint(1, 3)
    ptags = [0] + rng.sample(range(1, 12), np_)
    pnames = NAMES[:]
    rng.shuffle(pnames)
    for i in range(nb):
        mine = [c for c, s in zip(bf, groups) if s == i]
        if mine and rng.random() < 0.9:
            g.entities[dim - 1, bt[i]] = (rng.choice(ptags), mine)
    # lower dimensions: points, edges with or without physical tags (same numbers)
    for low in range(0, dim - 1):
        for t in tag(rng.randint(0, 3)):
            el = []
            for _ in range(rng.randint(0, 2)):
                nodes = rng.sample(range(len(d.coords)), low + 1)
                el.append((('node1', 'bar2')[low], tuple(nodes)))
            g.entities[low, t] = (rng.choice(ptags), el)
    if use_names:
        for (dd, t), (p, el) in g.entities.items():
            if p and el and (dd, p) not in g.names and rng.random() < 0.9:
                # the same name may be used in several dimensions
                g.names[dd, p] = 'fluid' if dd == dim and rng.random() < 0.5 else pnames[(len(g.names)) % len(pnames)]
        if not g.names:
            g.names[dim, 1] = 'fluid'
    g.use_names = use_names
    return g


def num(x, rng):
    s = repr(float(x))
    return s if float(s) == x else '%.17g' % x


def header(g, version, out):
    out += ['$MeshFormat', f'{version} 0 8', '$EndMeshFormat']
    if g.use_names:
        out += ['$PhysicalNames', str(len(g.names))]
        out += [f'{d} {p} "{n}"' for (d, p), n in g.names.items()]
        out += ['$EndPhysicalNames']


def write_v2(g, rng, fname, order):
    """order: list of (entity, etype, nodes) as they must appear"""
    out = []
    header(g, rng.choice(['2.2', '2', '2.1']), out)
    if rng.random() < 0.3:
        out += ['$Comments', 'anything $ here', '$EndComments']
    nn = len(g.coords)
    nodes = list(range(nn))
    if rng.random() < 0.6:
        rng.shuffle(nodes)
    out += ['$Nodes', str(nn)] + [f'{i + 1} ' + ' '.join(num(x, rng) for x in g.coords[i]) for i in nodes] + ['$EndNodes']
    out += ['$Elements', str(len(order))]
    nums = list(range(1, len(order) + 1))
    if rng.random() < 0.3:
        nums = sorted(rng.sample(range(1, 5 * len(order) + 1), len(order)))
    for e, ((dim, tag), t, c) in zip(nums, order):
        phys = g.entities[dim, tag][0]
        tags = [phys, tag] + ([1, 2] if rng.random() < 0.2 else [])
        out.append(' '.join(str(x) for x in [e, GTYPE[t], len(tags)] + tags + [n + 1 for n in c]))
    out += ['$EndElements', '']
    open(fname, 'w').write('\n'.join(out))


def blocks_of(g, rng):
    """entity blocks of format 4: [(entity, etype, [nodes])]"""
    blocks = []
    for ent, (p, el) in g.entities.items():
        types = list(dict.fromkeys(t for t, _ in el))
        for t in types:
            mine = [c for tt, c in el if tt == t]
            if len(mine) > 1 and rng.random() < 0.2:
                a = rng.randrange(1, len(mine))
                blocks += [(ent, t, mine[:a]), (ent, t, mine[a:])]
            else:
                blocks.append((ent, t, mine))
    if rng.random() < 0.5:
        blocks.sort(key=lambda b: b[0])
    else:
        rng.shuffle(blocks)
    return blocks


def write_v4(g, rng, fname, blocks):
    out = []
    header(g, '4.1', out)
    ents = [sorted(t for d, t in g.entities if d == dim) for dim in range(4)]
    # entities without elements
    for dim in range(4):
        if rng.random() < 0.4:
            extra = max(ents[dim] + [0]) + rng.randint(1, 3)
            ents[dim].append(extra)
    if rng.random() < 0.3:
        for e in ents:
            rng.shuffle(e)
    out += ['$Entities', ' '.join(str(len(e)) for e in ents)]
    for dim in range(4):
        for t in ents[dim]:
            p = g.entities.get((dim, t), (rng.choice([0, 1, 3]), []))[0]
            box = ['0', '0.5', '-1e-07'] if dim == 0 else ['0', '0', '0', '1', '1', '-1e-07']
            phys = [1, p] if p else [0]
            if dim == 0:
                bnd = []
            else:
                nb = rng.randint(0, 3)
                bnd = [nb] + [rng.choice([-1, 1]) * rng.randint(1, 9) for _ in range(nb)]
            out.append(' '.join(str(x) for x in [t] + box + phys + bnd) + rng.choice(['', ' ']))
    out.append('$EndEntities')
    # nodes in blocks of any size, including one and zero
    nn = len(g.coords)
    nodes = list(range(nn))
    if rng.random() < 0.6:
        rng.shuffle(nodes)
    nb, cuts = [], []
    i = 0
    while i < nn:
        n = rng.choice([1, 1, 2, 3, nn])
        nb.append(nodes[i:i + n])
        i += n
        if rng.random() < 0.15:
            nb.append([])
    if rng.random() < 0.3 and len(nb[-1]) > 1:
        nb[-1:] = [nb[-1][:-1], nb[-1][-1:]]
    allents = [(d, t) for d in range(4) for t in ents[d]] or [(3, 1)]
    out += ['$Nodes', f'{len(nb)} {nn} 1 {nn}']
    for b in nb:
        d, t = rng.choice(allents)
        par = rng.choice([0, 0, 0, 1])
        out.append(f'{d} {t} {par} {len(b)}')
        out += [str(i + 1) for i in b]
        out += [' '.join(num(x, rng) for x in g.coords[i]) + (' 0.5' * d if par else '') for i in b]
    out.append('$EndNodes')
    ne = sum(len(b[2]) for b in blocks)
    out += ['$Elements', f'{len(blocks)} {ne} 1 {ne}']
    e = 0
    for (d, t), et, els in blocks:
        out.append(f'{d} {t} {GTYPE[et]} {len(els)}')
        for c in els:
            e += 1
            out.append(' '.join(str(x) for x in [e] + [n + 1 for n in c]) + rng.choice(['', ' ']))
    out += ['$EndElements', '']
    open(fname, 'w').write('\n'.join(out))


def check(m, g, order, what):
    eq(int(m.nnode), len(g.coords), f'{what}: nodes')
    arr_eq(m.nodescoord(ndarray=True), g.coords, f'{what}: coordinates')
    want = {}
    for (dim, tag), t, c in order:
        if dim == g.dim:
            want.setdefault(t, []).append(tuple(c))
    conn = m._cell2node
    eq(sorted(conn.elems()), sorted(want), f'{what}: cell types')
    for t, w in want.items():
        eq([tuple(int(x) for x in r) for r in conn[t]], w, f'{what}: cells {t}')
    n = sum(len(w) for w in want.values())
    eq((int(m.ncell), sorted(int(i) for i in conn.all_index())), (n, list(range(n))), f'{what}: cell numbers')
    if not g.use_names:
        return
    marks = {}
    for (dim, tag), t, c in order:
        phys = g.entities[dim, tag][0]
        name = g.names.get((dim, phys))
        if dim == g.dim - 1 and name not in (None, 'fluid'):
            marks.setdefault(name, set()).update(c)
    eq(sorted(m._bocos), sorted(marks), f'{what}: mark names')
    for name, nodes in marks.items():
        b = m._bocos[name]
        eq((b.name, b.type), (name, 'boundary'), f'{what}: mark {name}')
        req(b.nodebased(), f'{what}: mark {name} is not node based')
        eq(sorted(set(int(i) for i in b.index.list())), sorted(nodes), f'{what}: nodes of mark {name}')


def read(fname):
    from cfdtools.gmsh.reader import reader
    r = reader(fname)
    r.read_data()
    return r.export_mesh()


def case_v2(rng, k, scratch):
    g = model(rng, k)
    order = [(e, t, c) for e, (p, el) in g.entities.items() for t, c in el]
    if k % 3:
        rng.shuffle(order)
    write_v2(g, rng, 'a.msh', order)
    check(read('a.msh'), g, order, 'format 2')


def case_v4(rng, k, scratch):
    g = model(rng, k)
    blocks = blocks_of(g, rng)
    order = [(e, t, c) for e, t, els in blocks for c in els]
    write_v4(g, rng, 'b.msh', blocks)
    m4 = read('b.msh')
    check(m4, g, order, 'format 4.1')
    if k % 2 == 0:
        write_v2(g, rng, 'c.msh', order)
        check(read('c.msh'), g, order, 'equivalent format 2')


CASES = [(case_v2, 120), (case_v4, 160)]
