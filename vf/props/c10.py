import sys
import numpy as np
from ..common import Fail, req, eq
from .. import gen, ic3x


def case_roundtrip(rng, k, scratch):
    version = 2 + k % 2
    endian = [None, 'little', 'big', 'native'][(k // 2) % 4]
    desc, m, marks, part, e = ic3x.make(rng, k)
    fname = 'mesh.ic3'
    ic3x.write(m, version, endian, fname)
    r, got = ic3x.read(fname, **({'cIntegrity': True} if k % 5 == 0 else {}))
    eq(r.ic3_version, version, 'version')
    little = sys.byteorder == 'little' if endian in (None, 'native') else endian == 'little'
    eq(bool(r.byte_swap), little, 'byte order')
    part = part or (1, [0] * desc.ncell)
    ic3x.check_read(got, e, f'v{version} {endian}', partition=part)
    # once more, with the other version and byte order
    v2 = 2 + (k // 3) % 2
    e2 = ['big', 'little', 'native'][k % 3]
    ic3x.write(got, v2, e2, 'again.ic3')
    r2, got2 = ic3x.read('again.ic3')
    eq(r2.ic3_version, v2, 'version of second file')
    ic3x.check_read(got2, e, f'written again as v{v2} {e2}', partition=part)
    eq(ic3x.faces_state(got2), ic3x.faces_state(got), 'face order after writing again')


def case_box(rng, k, scratch):
    """boxes with their node marks, some dropped"""
    from cfdtools.meshbase.simple import Cube
    nx, ny, nz = (rng.randint(1, 5) for _ in range(3))
    m = Cube(nx, ny, nz).export_mesh()
    for n in list(m._bocos):
        if rng.random() < 0.2:
            m.remove_boco(n)
    cells = [('hexa8', tuple(int(a) for a in r)) for r in m._cell2node['hexa8']]
    desc = gen.Desc(m.nodescoord(ndarray=True), cells, 3).number(rng, 'range')
    marks = {}
    ref = Cube(nx, ny, nz).export_mesh()
    ref.make_face_connectivity()
    faces = [f for _, f in gen.faces_of(ref._faces['boundary']['face2node'])]
    for n, b in m._bocos.items():
        s = set(int(i) for i in b.index.list())
        marks[n] = ('boundary', [f for f in faces if s.issuperset(f)], None)
    e = ic3x.expect(ref, desc, marks)
    version, endian = 2 + k % 2, ['little', 'big', None][k % 3]
    ic3x.write(m, version, endian, 'box.ic3')
    r, got = ic3x.read('box.ic3')
    ic3x.check_read(got, e, f'box {nx}x{ny}x{nz} v{version}', partition=(1, [0] * desc.ncell))


def case_bytes(rng, k, scratch):
    """the file says the same to an independent reader"""
    import struct
    version, endian = 2 + k % 2, ['little', 'big'][(k // 2) % 2]
    desc, m, marks, part, e = ic3x.make(rng, k)
    ic3x.write(m, version, endian, 'b.ic3')
    en, ver, secs = ic3x.parse(open('b.ic3', 'rb').read())
    eq((en, ver), ('<' if endian == 'little' else '>', version), 'file header')
    one = {}
    for s in secs:
        one.setdefault(s.id, []).append(s)
    I = ic3x.IDS
    c = one[I['COUNTS']][0]
    nno, nfa, ncv, nnf = c.idata[:4]
    eq((nno, nfa, ncv), (desc.nnode, len(e['faces']), desc.ncell), 'counts')
    noofa = one[I['NOOFA']][0].payload
    sizes = struct.unpack(f'{en}{nfa}i', noofa[:4 * nfa])
    nodes = struct.unpack(f'{en}{nnf}i', noofa[4 * nfa:])
    cv = struct.unpack(f'{en}{2 * nfa}i', one[I['CVOFA']][0].payload)
    faces, p = [], 0
    for n in sizes:
        faces.append(tuple(nodes[p:p + n]))
        p += n
    eq(sorted(zip(faces, zip(cv[::2], cv[1::2]))), e['faces'], 'faces in file')
    x = np.frombuffer(one[I['X_NO']][0].payload, dtype=en + 'f8').reshape((-1, 3))
    eq(x.astype('f8').tobytes(), e['coords'].tobytes(), 'coordinates in file')
    zones, nxt = one[I['FA_ZONE']], 0
    eq([z.idata[0] for z in zones].count(6), 1, 'internal zones in file')
    for z in zones:
        first, last = z.idata[1:3]
        eq(first, nxt, f'first face of zone {z.name}')
        nxt = last + 1
        if z.idata[0] == 6:
            eq(sorted(faces[first:nxt]), e['internal'], 'internal zone in file')
        else:
            t, fs, per = e['marks'][z.name]
            eq((z.idata[0], sorted(faces[first:nxt])), (ic3x.KIND[t], fs), f'zone {z.name} in file')
            eq(list(z.rdata), list(per or []) + [0.0] * (16 - len(per or [])), f'periodic data of {z.name} in file')
    eq(nxt, nfa, 'end of zones')


CASES = [(case_roundtrip, 180), (case_box, 16), (case_bytes, 40)]
