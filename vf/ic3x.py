"""Helpers for the IC3 checks: meshes with marks, canonical form of a mesh with faces, independent section parser."""
import struct
import numpy as np
from .common import Fail, req, eq, arr_eq
from . import gen

MAGIC = 123581321
IDS = dict(COUNTS=10, I0=11, D0=12, FA_CHECK=20, NOOFA=21, CVOFA=22, FA_ZONE=23, FA_D1=24, FA_D3=25, NO_CHECK=30, X_NO=31,
           NO_D1=32, NO_D3=33, NO_II1=34, CV_CHECK=40, CV_PART=41, CV_D1=42, CV_D3=43, CV_D33=44, CV_II1=45, DATA=50, EOF=51)
KIND = {'boundary': 1, 'perio_cart': 2, 'perio_cylx': 3, 'perio_cyly': 4, 'perio_cylz': 5, 'internal': 6}


class Section:
    pass


def parse(raw):
    """independent reading of the sections of an IC3 v2/v3 file: (endian, version, [Section])"""
    req(len(raw) >= 8, 'file without header')
    for e in '<>':
        magic, version = struct.unpack(e + 'ii', raw[:8])
        if magic == MAGIC:
            break
    else:
        raise Fail('bad magic number')
    pos, out = 8, []
    while True:
        req(pos + 256 <= len(raw), f'file ends at {len(raw)} inside the section header at {pos}')
        s = Section()
        h = raw[pos:pos + 256]
        s.pos = pos
        s.name = h[:52].split(b'\0')[0].decode()
        s.id, s.skip = struct.unpack(e + 'iq', h[52:64])
        s.idata = struct.unpack(e + '8q', h[64:128])
        s.rdata = struct.unpack(e + '16d', h[128:256])
        req(s.skip >= 256, f'section {s.name!r} at {pos} announces {s.skip} bytes')
        req(pos + s.skip <= len(raw), f'section {s.name!r} at {pos} announces {s.skip} bytes but file has {len(raw) - pos} left')
        s.payload = raw[pos + 256:pos + s.skip]
        out.append(s)
        pos += s.skip
        if s.id == IDS['EOF']:
            req(pos == len(raw), f'{len(raw) - pos} bytes after the end-of-file section')
            return e, version, out


def faces_state(mesh):
    """list of (nodes, (cell0, cell1)) in face index order per set, as written"""
    out = []
    for key in ('mixed', 'boundary', 'internal'):
        if key in mesh._faces:
            f2n = dict(gen.faces_of(mesh._faces[key]['face2node']))
            f2c = np.asarray(mesh._faces[key]['face2cell'].conn)
            eq(sorted(f2n), list(range(len(f2n))), f'{key} face numbers')
            eq(f2c.shape, (len(f2n), 2), f'{key} face/cell shape')
            out += [(key, f2n[i], tuple(int(c) for c in f2c[i])) for i in range(len(f2n))]
    return out


def oracle_face_sets(desc):
    """independent boundary and internal faces: sorted nodes -> owners"""
    d = gen.oracle_faces(desc)
    return {k: v for k, v in d.items() if len(v) == 1}, {k: v for k, v in d.items() if len(v) == 2}


def expect(mesh, desc, marks, unmarked='unmarked'):
    """canonical description of mesh (faces built) before writing"""
    st = faces_state(mesh)
    e = {'coords': mesh.nodescoord(ndarray=True).copy(), 'faces': sorted((n, c) for _, n, c in st),
         'marks': {n: (t, sorted(f), per) for n, (t, f, per) in marks.items()}, 'ncell': desc.ncell}
    bnd, intn = oracle_face_sets(desc)
    e['internal'] = sorted(n for k, n, c in st if tuple(sorted(n)) in intn)
    missing = set(n for k, n, c in st if tuple(sorted(n)) in bnd) - {f for _, fs, _ in marks.values() for f in fs}
    if missing:
        e['marks'][unmarked] = ('boundary', sorted(missing), None)
    return e


def check_read(m, e, what, nper=16, partition=None, internal_name=True):
    """mesh m read from a file against description e"""
    eq(int(m.nnode), len(e['coords']), f'{what}: node count')
    eq(int(m.ncell), e['ncell'], f'{what}: cell count')
    xyz = m.nodescoord(ndarray=True)
    req(xyz.dtype == np.float64, f'{what}: coordinates type {xyz.dtype}')
    arr_eq(np.ascontiguousarray(xyz).view(np.int64), np.ascontiguousarray(e['coords']).view(np.int64), f'{what}: coordinates')
    st = faces_state(m)
    eq([k for k, *_ in st], ['mixed'] * len(st), f'{what}: face sets')
    eq(int(m.nface), len(e['faces']), f'{what}: face count')
    eq(sorted((n, c) for _, n, c in st), e['faces'], f'{what}: faces and their cells')
    names = [n for n, b in m._bocos.items() if b.type != 'internal']
    eq(sorted(names), sorted(e['marks']), f'{what}: mark names')
    for n in names:
        b = m._bocos[n]
        t, faces, per = e['marks'][n]
        eq((b.name, b.type), (n, t), f'{what}: name and type of mark {n}')
        req(b.facebased(), f'{what}: mark {n} is not face based ({b.geodim})')
        idx = [int(i) for i in b.index.list()]
        req(len(set(idx)) == len(idx), f'{what}: mark {n} repeats faces')
        req(all(0 <= i < len(st) for i in idx), f'{what}: mark {n} has faces {idx[:5]} out of range')
        eq(sorted(st[i][1] for i in idx), faces, f'{what}: faces of mark {n}')
        if nper:
            want = list(per or []) + [0.0] * (nper - len(per or []))
            got = b.properties.get('periodic_transform')
            got = [0.0] * nper if got is None else [float(x) for x in got]
            eq(got, want[:nper], f'{what}: periodic data of mark {n}')
    internal = [b for b in m._bocos.values() if b.type == 'internal']
    eq(len(internal), 1, f'{what}: number of internal zones')
    idx = [int(i) for i in internal[0].index.list()]
    eq(sorted(st[i][1] for i in idx if 0 <= i < len(st)), e['internal'], f'{what}: faces of the internal zone')
    eq(len(idx), len(e['internal']), f'{what}: size of the internal zone')
    if partition is not None:
        p = m._cellprop['partition']
        eq(int(p['npart']), partition[0], f'{what}: number of partitions')
        eq([int(i) for i in p['icvpart']], list(partition[1]), f'{what}: partition of cells')


def node_marks(rng, mesh, desc, nmark):
    """node based marks which share no face: returns dict name -> (type, faces, None)"""
    import cfdtools.meshbase._mesh as meshm
    import cfdtools.meshbase._connectivity as conn
    bf = [f for _, f in gen.faces_of(mesh._faces['boundary']['face2node'])]
    names, res, taken = gen.mark_names(rng, nmark), {}, set()
    for name in names:
        seedf = rng.sample(bf, min(len(bf), rng.randint(1, max(1, len(bf) // 2))))
        nodes = set(n for f in seedf for n in f)
        faces = [f for f in bf if nodes.issuperset(f)]
        if taken.intersection(faces):
            continue
        taken.update(faces)
        b = meshm.submeshmark(name)
        b.geodim = 'bdnode'
        b.type = 'boundary'
        b.properties['periodic_transform'] = None
        sel = list(nodes)
        rng.shuffle(sel)
        b.index = conn.indexlist(ilist=sel)
        mesh.add_boco(b)
        res[name] = ('boundary', faces, None)
    return res


def make(rng, k, dims=(3, 3, 2), maxn=3, types=None, nper=16):
    """mesh with faces, marks (face based / node based / none / complete / partial) and partition"""
    desc = gen.any_mesh(rng, k, dims=dims, maxn=maxn)
    m = gen.build_mesh(desc)
    m.make_face_connectivity()
    types = types or ['boundary', 'boundary', 'perio_cart', 'perio_cylx', 'perio_cyly', 'perio_cylz']
    mode = k % 5
    if mode == 0:
        marks = {}
    elif mode in (1, 2):
        marks = gen.set_marks(rng, m, desc, types=types, cover=mode == 1)
    elif mode == 3:
        marks = node_marks(rng, m, desc, rng.randint(1, 3))
    else:
        marks = gen.set_marks(rng, m, desc, nmark=rng.randint(1, 6), types=types, cover=rng.random() < 0.5, allow_empty=False)
    for n, (t, f, per) in marks.items():
        if per is not None:
            per = per[:nper]
            m._bocos[n].properties['periodic_transform'] = per
            marks[n] = (t, f, per)
    part = None
    if k % 3 == 0:
        npart = rng.randint(1, 5)
        part = (npart, [rng.randrange(npart) for _ in range(desc.ncell)])
        m.set_partition({'npart': npart, 'icvpart': np.array(part[1], dtype=np.int32)})
    # extreme coordinate values
    if k % 4 == 1:
        x = m._nodes['x'].copy()
        for i in range(len(x)):
            if rng.random() < 0.3:
                x[i] = rng.choice([1e-308, -0.0, 1e308, 5e-324, 1 / 3, -123456789.123])
        m._nodes['x'] = x
    if k % 7 == 2:  # faces not built beforehand: done by the writer from cells (same construction)
        pre = m
        e = expect(pre, desc, marks)
        if mode in (0, 3):
            pre._faces = {}
            pre.nface = 0
        return desc, m, marks, part, e
    return desc, m, marks, part, expect(m, desc, marks)


def writer_of(version):
    import cfdtools.ic3.writerV2 as w2
    import cfdtools.ic3.writerV3 as w3
    return {2: w2, 3: w3}[version].writer


def write(m, version, endian, fname):
    w = writer_of(version)(m, endian=endian) if endian else writer_of(version)(m)
    w.write_data(fname)


def read(fname, **kw):
    from cfdtools.ic3.reader_legacy import reader
    r = reader(fname, **kw)
    r.read_data()
    return r, r.export_mesh()
