import numpy as np
from ..common import Fail, req, eq
from .. import gen


def check_faces(desc, ifc, if2c, bfc, bf2c, tables, what='', orient=True):
    owners, first = {}, {}
    order = {}
    for t, index, nodes in desc.blocks:
        for ft, flist in tables[t].items():
            for f in flist:
                for i, c in zip(index, nodes):
                    rev = tuple(c[a] for a in reversed(f))
                    key = tuple(sorted(rev))
                    owners.setdefault(key, []).append((i, rev))
    # independent check that the tables describe the faces of the standard
    std = gen.oracle_faces(desc)
    eq({k_: sorted(i for i, _ in v) for k_, v in owners.items()}, {k_: sorted(v) for k_, v in std.items()}, 'faces of the tables and of the standard')
    bnd = {k_ for k_, v in owners.items() if len(v) == 1}
    inn = {k_ for k_, v in owners.items() if len(v) == 2}
    cells = desc.by_index()
    for name, fc, f2c, keys in (('boundary', bfc, bf2c, bnd), ('internal', ifc, if2c, inn)):
        got = gen.faces_of(fc)
        idx = [i for i, _ in got]
        eq(sorted(idx), list(range(len(idx))), f'{what}{name} face numbering')
        eq(len(got), len(keys), f'{what}number of {name} faces')
        eq(sorted(tuple(sorted(n)) for _, n in got), sorted(keys), f'{what}{name} face set')
        conn = f2c.conn
        if len(keys):
            eq(tuple(np.asarray(conn).shape), (len(keys), 2), f'{what}{name} face2cell shape')
        for t, e in fc.items():
            req(all(gen.FTYPE[len(n)] == t for n in e['elem2node'].tolist()), f'{what}{name} face type {t}')
        for i, n in got:
            own = owners[tuple(sorted(n))]
            pair = [int(x) for x in conn[i]]
            if name == 'boundary':
                eq(pair, [own[0][0], -1], f'{what}cells of boundary face {n}')
                cand = [own[0][1]]
            else:
                eq(sorted(pair), sorted(o[0] for o in own), f'{what}cells of internal face {n}')
                cand = [o[1] for o in own if o[0] == pair[0]]
            req(n in cand, f'{what}{name} face {n}: node order is not the reversed table order {cand} of its first cell')
            if orient and desc.dim == 3:
                c = desc.coords[list(cells[pair[0]][1])].mean(axis=0)
                p = desc.coords[list(n)]
                fc_ = p.mean(axis=0)
                nrm = sum(np.cross(p[a] - fc_, p[(a + 1) % len(p)] - fc_) for a in range(len(p)))
                req(np.dot(nrm, fc_ - c) > 0, f'{what}{name} face {n} does not point out of cell {pair[0]}')


def case_mesh(rng, k, scratch):
    import cfdtools.meshbase._elements as el
    gm = k % 4 == 3
    saved = el.elem2faces
    try:
        el.elem2faces = el.gmsh_elem2faces if gm else el.cgns_elem2faces
        desc = gen.any_mesh(rng, k, dims=(3, 3, 2))
        c = gen.build_conn(desc)
        before = gen.faces_of(c)
        r = c.create_faces_from_elems()
        check_faces(desc, *r, tables=el.elem2faces)
        eq(gen.faces_of(c), before, 'cells changed by face extraction')
        m = gen.build_mesh(desc)
        if rng.random() < 0.3:
            m.make_face_connectivity()  # again must give the same
        m.make_face_connectivity()
        f = m._faces
        eq(sorted(f), ['boundary', 'internal'], 'face sets')
        check_faces(desc, f['internal']['face2node'], f['internal']['face2cell'], f['boundary']['face2node'], f['boundary']['face2cell'],
                    tables=el.elem2faces, what='mesh ')
        eq(int(m.nface), len(gen.oracle_faces(desc)), 'nface')
    finally:
        el.elem2faces = saved


def case_big(rng, k, scratch):
    """more than 255 nodes and cells"""
    import cfdtools.meshbase._elements as el
    if k % 2:
        desc = gen.mesh3d(rng, 7, 6, 7, 'mixed')
    else:
        desc = gen.mesh2d(rng, 20, 18, 'mixed')
    desc.number(rng, ['perm', 'range', 'list'][k % 3])
    c = gen.build_conn(desc)
    check_faces(desc, *c.create_faces_from_elems(), tables=el.elem2faces, orient=False)


def case_sparse(rng, k, scratch):
    """big node and cell numbers"""
    import cfdtools.meshbase._elements as el
    desc = gen.any_mesh(rng, k, dims=(3, 2), maxn=2)
    hi = rng.choice([300, 70000, 2**31 + 7, 2**40])
    new = rng.sample(range(hi), desc.nnode) if hi < 10**6 else [rng.randrange(9) + 17 * i + hi for i in range(desc.nnode)]
    off = rng.choice([0, 250, 66000, 2**32])
    if off:
        desc.mode = 'perm'
    desc.blocks = [(t, [i + off for i in ind], [tuple(new[a] for a in c) for c in nodes]) for t, ind, nodes in desc.blocks]
    desc.cells = [(t, tuple(new[a] for a in c)) for t, c in desc.cells]
    c = gen.build_conn(desc)
    check_faces(desc, *c.create_faces_from_elems(), tables=el.elem2faces, orient=False)


def case_replace(rng, k, scratch):
    """faces already there in mixed form are replaced"""
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._elements as el
    desc = gen.any_mesh(rng, k, dims=(3, 2), maxn=2)
    m = gen.build_mesh(desc)
    fc = conn.elem_connectivity()
    fc.add_elems('quad4', np.zeros((2, 4), dtype=int))
    m.add_faces('mixed', fc, conn.indexindirection(np.zeros((2, 2), dtype=int)))
    m.make_face_connectivity()
    f = m._faces
    eq(sorted(f), ['boundary', 'internal'], 'face sets')
    check_faces(desc, f['internal']['face2node'], f['internal']['face2cell'], f['boundary']['face2node'], f['boundary']['face2cell'],
                tables=el.elem2faces, what='mesh ')
    # export_mixedfaces keeps the pairs: boundary first, then internal
    mf, f2c = m.export_mixedfaces()
    nb = int(f['boundary']['face2node'].nelem)
    want = {}
    for i, n in gen.faces_of(f['boundary']['face2node']):
        want[i] = (n, f['boundary']['face2cell'].conn[i].tolist())
    if f['internal']['face2node'].nelem:
        for i, n in gen.faces_of(f['internal']['face2node']):
            want[i + nb] = (n, f['internal']['face2cell'].conn[i].tolist())
    got = {i: (n, f2c.conn[i].tolist()) for i, n in gen.faces_of(mf)}
    eq(got, want, 'mixed faces')


def case_grow(rng, k, scratch):
    """faces are those of the cells at the time they are asked for"""
    import copy
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._elements as el
    desc = gen.any_mesh(rng, k, dims=(3, 3, 2), maxn=2)
    blocks = []
    for t, index, nodes in desc.blocks:
        cut = rng.randint(1, len(nodes))
        blocks += [b for b in ((t, index[:cut], nodes[:cut]), (t, index[cut:], nodes[cut:])) if len(b[2])]
    c, m, part = conn.elem_connectivity(), None, copy.copy(desc)
    part.blocks = []
    for t, index, nodes in blocks:
        c.add_elems(t, np.array(nodes), conn.indexlist(ilist=list(index)))
        part.blocks = part.blocks + [(t, index, nodes)]
        check_faces(part, *c.create_faces_from_elems(), tables=el.elem2faces, what='growing: ', orient=False)
        if m is None:
            m = gen.build_mesh(part)
        m.set_cell2node(c)
        m.make_face_connectivity()
        f = m._faces
        check_faces(part, f['internal']['face2node'], f['internal']['face2cell'], f['boundary']['face2node'], f['boundary']['face2cell'],
                    tables=el.elem2faces, what='growing mesh: ', orient=False)


CASES = [(case_grow, 60), (case_mesh, 400), (case_replace, 100), (case_big, 4), (case_sparse, 60)]
