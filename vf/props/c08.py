import numpy as np
from ..common import Fail, req, eq, arr_eq
from .. import gen

EXT = {'bar2': ('quad4', lambda a, b: [a[0], a[1], b[1], b[0]]),
       'tri3': ('prism6', lambda a, b: list(a) + list(b)),
       'quad4': ('hexa8', lambda a, b: list(a) + list(b)),
       'node1': ('bar2', lambda a, b: list(a) + list(b))}


def case_extrude(rng, k, scratch):
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._mesh as meshm
    hi = 1 + k // 20 if k < 80 else 4
    if k % 5 == 4:
        d = gen.mesh1d(rng, rng.randint(1, 4))
    else:
        d = gen.mesh2d(rng, rng.randint(1, hi), rng.randint(1, hi), ['quad', 'mixed', 'tri'][k % 3],
                       unused=rng.choice([0, 0, 2]))
    if k % 60 == 59:
        d = gen.mesh2d(rng, 18, 15, 'mixed')
    d.number(rng, ['perm', 'range', 'list'][(k // 2) % 3])
    m = gen.build_mesh(d)
    marks = {}
    for name in gen.mark_names(rng, rng.randint(0, 4)):
        b = meshm.submeshmark(name)
        b.geodim = rng.choice(['node', 'bdnode', 'intnode'])
        b.type = rng.choice(['boundary', 'perio_cart'])
        sel = [n for n in range(d.nnode) if rng.random() < rng.choice([0.0, 0.4, 1.0])]
        rng.shuffle(sel)
        if sel and all(y == x + 1 for x, y in zip(sel, sel[1:])):
            b.index = conn.indexlist(irange=[sel[0], sel[-1]])
        else:
            b.index = conn.indexlist(ilist=list(sel))
        m.add_boco(b)
        marks[name] = (b.geodim, b.type, sel)
    p = rng.randint(2, 5)
    mode = rng.randrange(4)
    direction = None if rng.random() < 0.4 else [rng.choice([0.0, 1.0, -2.5, 0.3]) for _ in range(3)]
    if direction is not None and rng.random() < 0.3:
        direction = np.array(direction)
    if mode == 0:
        extrude = None
    elif mode == 1:
        extrude = np.linspace(0.0, 1.0, p)
    else:
        s, extrude = rng.uniform(-1, 1), []
        for _ in range(p):
            extrude.append(s)
            s += rng.uniform(0.1, 1.0)
        if mode == 3:
            extrude = tuple(extrude)
    domain = rng.choice([None, 'fluid', 'zz'])
    # snapshot
    snap = (gen.faces_of(m._cell2node), m.nodescoord(ndarray=True).copy(), {n: b.index.list() for n, b in m._bocos.items()}, m.ncell, m.nnode)
    kw = {}
    if direction is not None:
        kw['direction'] = direction
    if extrude is not None:
        kw['extrude'] = extrude
    if domain is not None:
        kw['domain'] = domain
    x = m.export_extruded(**kw)
    eq(gen.faces_of(m._cell2node), snap[0], 'original cells changed')
    arr_eq(m.nodescoord(ndarray=True), snap[1], 'original coordinates changed')
    eq({n: b.index.list() for n, b in m._bocos.items()}, snap[2], 'original marks changed')
    eq((m.ncell, m.nnode), snap[3:], 'original sizes changed')
    pl = list(extrude) if extrude is not None else [0.0, 1.0]
    dr = np.array(direction if direction is not None else [0.0, 0.0, 1.0])
    n = d.nnode
    eq(int(x.nnode), n * len(pl), 'nnode')
    arr_eq(x.nodescoord(ndarray=True), np.vstack([d.coords + s * dr for s in pl]), 'coordinates')
    # cells
    want = []
    for t, c in d.cells:
        for l in range(len(pl) - 1):
            et, f = EXT[t]
            want.append((et, tuple(f([a + l * n for a in c], [a + (l + 1) * n for a in c]))))
    got = [(t, tuple(int(a) for a in row)) for t, e in x._cell2node.items() for row in e['elem2node'].tolist()]
    eq(sorted(got), sorted(want), 'cells')
    eq(int(x.ncell), len(want), 'ncell')
    idx = [int(i) for i in x._cell2node.all_index()]
    eq(sorted(idx), list(range(len(want))), 'cell numbers')
    # marks
    dom = domain or 'fluid'
    names = list(marks) + [dom + '0', dom + '1']
    eq(sorted(x._bocos), sorted(names), 'mark names')
    for name, (g, t, sel) in marks.items():
        b = x._bocos[name]
        eq((b.name, b.geodim, b.type), (name, g, t), f'mark {name}')
        eq(sorted(int(i) for i in b.index.list()), sorted(a + l * n for a in sel for l in range(len(pl))), f'nodes of mark {name}')
    used = sorted({a for _, c in d.cells for a in c})
    for suffix, off in (('0', 0), ('1', (len(pl) - 1) * n)):
        b = x._bocos[dom + suffix]
        eq((b.geodim, b.type), ('bdnode', 'boundary'), f'mark {dom + suffix}')
        eq(sorted(int(i) for i in b.index.list()), [a + off for a in used], f'nodes of mark {dom + suffix}')
    if k % 4 == 1:  # the mesh has moved and is extruded again, what became of the first result does not matter
        x.set_nodescoord_nd(np.zeros((x.nnode, 3)))
        x._bocos.clear()
        moved = m.nodescoord(ndarray=True) * 0.5 + 1.0
        m.set_nodescoord_nd(moved)
        y = m.export_extruded(**dict(kw, extrude=[0.0, 0.5, 2.0]))
        arr_eq(y.nodescoord(ndarray=True), np.vstack([moved + s * dr for s in (0.0, 0.5, 2.0)]), 'coordinates of the second extrusion')
        eq((int(y.nnode), int(y.ncell)), (3 * n, 2 * d.ncell), 'sizes of the second extrusion')
        eq(sorted(y._bocos), sorted(names), 'mark names of the second extrusion')
        for name, (g, t, sel) in marks.items():
            eq(sorted(int(i) for i in y._bocos[name].index.list()), sorted(a + l * n for a in sel for l in range(3)), f'nodes of mark {name}, second extrusion')
        arr_eq(m.nodescoord(ndarray=True), moved, 'original coordinates changed by the second extrusion')
    # result is usable: faces of extruded cells are conforming and closed
    if d.dim == 2 and rng.random() < 0.3:
        bl = [(t, tuple(int(a) for a in row)) for t, row in got]
        dd = gen.Desc(x.nodescoord(ndarray=True), bl, 3)
        dd.number(rng, 'range')
        f = gen.oracle_faces(dd)
        req(max(len(v) for v in f.values()) <= 2, 'extruded cells are not conforming')


def case_connectivity(rng, k, scratch):
    """elem_connectivity.extrude on any indices and any node shift"""
    from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
    c = elem_connectivity()
    cells, nb = [], 0
    n = rng.choice([10, 1000])
    for t in rng.sample(['bar2', 'tri3', 'quad4', 'node1'], rng.randint(1, 3)):
        mm = rng.randint(1, 4)
        nodes = [rng.sample(range(n), gen.NNODE[t]) for _ in range(mm)]
        cells += [(t, c_) for c_ in nodes]
        c.add_elems(t, np.array(nodes))
    snap = gen.faces_of(c)
    p = rng.randint(2, 6)
    shift = rng.choice([n, n + 5])
    x = c.extrude(p, shift)
    eq(gen.faces_of(c), snap, 'original changed')
    want = []
    for i, (t, cc) in enumerate(cells):
        for l in range(p - 1):
            et, f = EXT[t]
            want.append((et, tuple(f([a + l * shift for a in cc], [a + (l + 1) * shift for a in cc]))))
    got = [(t, tuple(row)) for t, e in x.items() for row in e['elem2node'].tolist()]
    eq(sorted(got), sorted(want), 'cells')
    eq(sorted(int(i) for i in x.all_index()), list(range(len(want))), 'numbers')


CASES = [(case_extrude, 500), (case_connectivity, 300)]
