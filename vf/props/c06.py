import numpy as np
from ..common import Fail, req, eq, must_raise
from .. import gen


def synthetic(rng, k):
    """a Mesh with a 'boundary' face set of any types, index permutation, owners; and its description by index"""
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._mesh as meshm
    n = rng.choice([1, 2, 3, 5, 8]) if k < 50 else rng.choice([4, 12, 300])
    faces = [tuple(rng.sample(range(1000), rng.choice([2, 3, 4]))) for _ in range(n)]
    perm = list(range(n))
    if k % 3:
        rng.shuffle(perm)
    fc = conn.elem_connectivity()
    sizes = list({len(f) for f in faces})
    rng.shuffle(sizes)
    for s in sizes:
        pos = [p for p in range(n) if len(faces[p]) == s]
        idx = [perm[p] for p in pos]
        fc.add_elems(gen.FTYPE[s], np.array([faces[p] for p in pos]), conn.indexlist(ilist=idx))
    owner = np.array([[rng.randrange(500), -1] for _ in range(n)])
    m = meshm.Mesh(ncell=500, nnode=1000)
    m.add_faces('boundary', fc, conn.indexindirection(owner.copy()))
    desc = {perm[p]: (faces[p], owner[perm[p]].tolist()) for p in range(n)}
    return m, desc


def put_marks(rng, m, groups, names=None):
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._mesh as meshm
    names = names or gen.mark_names(rng, len(groups))
    for name, g in zip(names, groups):
        b = meshm.submeshmark(name)
        b.geodim = rng.choice(['face', 'bdface'])
        b.type = rng.choice(['boundary', 'perio_cart', 'perio_cylx'])
        b.properties['periodic_transform'] = [float(i) for i in range(16)] if b.type != 'boundary' else None
        b.properties['extra'] = name
        if g and all(y == x + 1 for x, y in zip(g, g[1:])) and rng.random() < 0.5:
            b.index = conn.indexlist(irange=[g[0], g[-1]])
        else:
            b.index = conn.indexlist(ilist=list(g))
        m.add_boco(b)
    return names


def split(rng, ids, nmark, empty=True):
    ids = list(ids)
    rng.shuffle(ids)
    groups = [[] for _ in range(nmark)]
    for i in ids:
        groups[rng.randrange(nmark)].append(i)
    mode = rng.randrange(3)
    if mode == 0:
        groups = [sorted(g) for g in groups]
    return [g for g in groups if g or empty]


def check(m, desc, groups, names, before):
    bf = m._faces['boundary']['face2node']
    f2c = m._faces['boundary']['face2cell'].conn
    got = gen.faces_of(bf)
    eq(sorted(i for i, _ in got), list(range(len(desc))), 'indices after renumbering')
    new = {i: (n, [int(x) for x in f2c[i]]) for i, n in got}
    eq(sorted(new.values()), sorted((tuple(f), o) for f, o in desc.values()), 'faces with their owner')
    eq(list(m._bocos), names, 'mark order')
    start = 0
    for name, g in zip(names, groups):
        b = m._bocos[name]
        eq(b.index.type, 'range', f'mark {name} index type')
        a, z = (int(x) for x in b.index.range())
        if g:
            eq((a, z), (start, start + len(g) - 1), f'range of mark {name}')
        eq(int(b.index.size), len(g), f'size of mark {name}')
        start += len(g)
        eq(sorted(new[i] for i in b.index.list()), sorted((tuple(desc[i][0]), desc[i][1]) for i in g), f'faces of mark {name}')
        eq((b.name, b.geodim, b.type, b.properties['periodic_transform'], b.properties['extra']), before[name], f'mark {name}')
    eq(start, len(desc), 'faces covered by marks')


def case_synthetic(rng, k, scratch):
    m, desc = synthetic(rng, k)
    groups = split(rng, desc, rng.randint(1, 5))
    names = put_marks(rng, m, groups)
    before = {n: (b.name, b.geodim, b.type, b.properties['periodic_transform'], b.properties['extra']) for n, b in m._bocos.items()}
    m.reindex_boundaryfaces()
    check(m, desc, groups, names, before)
    # once more: everything is already in order and must stay so
    bf = gen.faces_of(m._faces['boundary']['face2node'])
    m.reindex_boundaryfaces()
    eq(gen.faces_of(m._faces['boundary']['face2node']), bf, 'second renumbering is not the identity')
    check(m, desc, groups, names, before)
    if len(names) > 1 and rng.random() < 0.5:  # marks in another order, then again
        f2c = m._faces['boundary']['face2cell'].conn
        desc = {i: (n, [int(x) for x in f2c[i]]) for i, n in gen.faces_of(m._faces['boundary']['face2node'])}
        names = rng.sample(names, len(names))
        marks = [m._bocos[n] for n in names]
        groups = [[int(i) for i in b.index.list()] for b in marks]
        for n in names:
            m.remove_boco(n)
        for b in marks:
            m.add_boco(b)
        m.reindex_boundaryfaces()
        check(m, desc, groups, names, before)


def case_mesh(rng, k, scratch):
    d = gen.any_mesh(rng, k, dims=(3, 3, 2), maxn=3)
    m = gen.build_mesh(d)
    m.make_face_connectivity()
    bf = m._faces['boundary']['face2node']
    f2c = np.asarray(m._faces['boundary']['face2cell'].conn)
    inner = gen.faces_of(m._faces['internal']['face2node'])
    innerc = None if m._faces['internal']['face2cell'].conn is None else np.array(m._faces['internal']['face2cell'].conn)
    desc = {i: (n, f2c[i].tolist()) for i, n in gen.faces_of(bf)}
    groups = split(rng, desc, rng.randint(1, 6))
    names = put_marks(rng, m, groups)
    before = {n: (b.name, b.geodim, b.type, b.properties['periodic_transform'], b.properties['extra']) for n, b in m._bocos.items()}
    m.reindex_boundaryfaces()
    check(m, desc, groups, names, before)
    eq(gen.faces_of(m._faces['internal']['face2node']), inner, 'internal faces changed')
    if innerc is not None:
        eq(np.asarray(m._faces['internal']['face2cell'].conn).tolist(), innerc.tolist(), 'internal cells changed')


def case_refuse(rng, k, scratch):
    m, desc = synthetic(rng, k)
    n = len(desc)
    bad = k % 3
    ids = list(desc)
    if bad == 0:  # overlap
        groups = split(rng, ids, rng.randint(1, 4), empty=False)
        i = rng.choice(ids)
        if rng.random() < 0.5 or len(groups) == 1:
            groups.append([i])
        else:
            g = next(g for g in groups if i not in g) if any(i not in g for g in groups) else groups[0]
            g.append(i)
    elif bad == 1:  # face 0 is left out
        if n < 2:
            return
        groups = split(rng, [i for i in ids if i != 0], rng.randint(1, 4), empty=False)
    else:  # a face beyond the marked ones: some face below the highest one is not marked
        if n < 2:
            return
        out = rng.randrange(1, n - 1) if n > 2 else None
        if out is None:
            groups = [[0, 7]]
        else:
            groups = split(rng, [i for i in ids if i != out], rng.randint(1, 4), empty=False)
    put_marks(rng, m, groups)
    must_raise(m.reindex_boundaryfaces, f'marks {groups} on {n} faces')


CASES = [(case_synthetic, 1200), (case_mesh, 200), (case_refuse, 600)]
