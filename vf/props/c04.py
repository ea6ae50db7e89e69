import numpy as np
from ..common import Fail, req, eq, arr_eq
from .. import gen


def random_faces(rng, k):
    sizes = [[4], [3, 4], [2], [1, 2, 3, 4], [3], [4, 3, 2]][k % 6]
    n = rng.choice([1, 2, 3, 5, 9]) if k < 60 else rng.choice([2, 7, 20, 300])
    hi = rng.choice([5, 300, 10**6])
    return [tuple(rng.randrange(hi) for _ in range(rng.choice(sizes))) for _ in range(n)]


def build(rng, faces, perm):
    """container with faces grouped by type in any type order, possibly split in several blocks; face p has index perm[p]"""
    from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
    c = elem_connectivity()
    sizes = list({len(f) for f in faces})
    rng.shuffle(sizes)
    blocks = []
    for s in sizes:
        pos = [p for p, f in enumerate(faces) if len(f) == s]
        if rng.random() < 0.5:
            rng.shuffle(pos)
        while pos:
            n = rng.randint(1, len(pos))
            blocks.append(pos[:n])
            pos = pos[n:]
    rng.shuffle(blocks)
    for b in blocks:
        idx = [perm[p] for p in b]
        arr = np.array([faces[p] for p in b])
        if all(y == x + 1 for x, y in zip(idx, idx[1:])) and rng.random() < 0.5:
            il = indexlist(irange=[idx[0], idx[-1]])
        else:
            il = indexlist(ilist=idx)
        c.add_elems(gen.FTYPE[arr.shape[1]], arr, il)
    return c


def case_export(rng, k, scratch):
    from cfdtools.meshbase._connectivity import elem_connectivity
    faces = random_faces(rng, k)
    perm = list(range(len(faces)))
    rng.shuffle(perm)
    c = build(rng, faces, perm)
    byindex = dict((perm[p], f) for p, f in enumerate(faces))
    before = gen.faces_of(c)
    z = c.exportto_compressedindex()
    off, val = np.asarray(z._index), np.asarray(z._value)
    want_val = [a for i in range(len(faces)) for a in byindex[i]]
    want_off = [0]
    for i in range(len(faces)):
        want_off.append(want_off[-1] + len(byindex[i]))
    eq(off.tolist(), want_off, 'offsets')
    eq(val.tolist(), want_val, 'nodes')
    eq(int(z.size), len(want_val), 'size')
    req(z.check(), 'check()')
    eq(gen.faces_of(c), before, 'export changed the container')
    d = elem_connectivity()
    d.importfrom_compressedindex(z)
    eq(sorted(gen.faces_of(d)), sorted(byindex.items()), 'import of export')
    for t, e in d.items():
        eq(gen.NNODE[t], e['elem2node'].shape[1], 'type of face size')
        req(all(isinstance(i, (int, np.integer)) for i in e['index'].list()), 'index list is not flat')
    eq(sorted(int(i) for i in d.all_index()), list(range(len(faces))), 'all_index')
    if d.nelem:
        sel = [i for i in range(len(faces)) if rng.random() < 0.5]
        eq(sorted(d.nodes_of_indexlist(sel)), sorted({a for i in sel for a in byindex[i]}), 'nodes of imported faces')


def case_import(rng, k, scratch):
    from cfdtools.meshbase._connectivity import elem_connectivity, compressed_listofindex
    faces = random_faces(rng, k)
    off = np.concatenate(([0], np.cumsum([len(f) for f in faces])))
    val = np.array([a for f in faces for a in f], dtype=[np.int64, np.int32][k % 2])
    z = compressed_listofindex(off, val)
    c = elem_connectivity()
    c.importfrom_compressedindex(z)
    eq(sorted(gen.faces_of(c)), list(enumerate(faces)), 'imported faces')
    eq(int(c.nelem), len(faces), 'nelem')
    z2 = c.exportto_compressedindex()
    eq(np.asarray(z2._index).tolist(), off.tolist(), 'offsets of export of import')
    eq(np.asarray(z2._value).tolist(), val.tolist(), 'nodes of export of import')
    eq((off.tolist(), val.tolist()), (np.asarray(z._index).tolist(), np.asarray(z._value).tolist()), 'source changed')


def case_grow(rng, k, scratch):
    """exports follow the additions"""
    from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
    faces = random_faces(rng, k % 60)
    c, n = elem_connectivity(), 0
    z = None
    while n < len(faces):
        m = n + 1
        while m < len(faces) and len(faces[m]) == len(faces[n]) and rng.random() < 0.7:
            m += 1
        c.add_elems(gen.FTYPE[len(faces[n])], np.array(faces[n:m]), indexlist(ilist=list(range(n, m))))
        n = m
        z2 = c.exportto_compressedindex()
        eq(np.asarray(z2._value).tolist(), [a for f in faces[:n] for a in f], 'nodes after an addition')
        eq(np.asarray(z2._index).tolist(), np.cumsum([0] + [len(f) for f in faces[:n]]).tolist(), 'offsets after an addition')
        if z is not None:
            eq((np.asarray(z._index).tolist(), np.asarray(z._value).tolist()), keep, 'a former export has changed')
        z, keep = z2, (np.asarray(z2._index).tolist(), np.asarray(z2._value).tolist())
        if rng.random() < 0.2:
            break


CASES = [(case_grow, 200), (case_export, 1500), (case_import, 800)]
