import numpy as np
import h5py
from ..common import Fail, req, eq, arr_eq
from .. import gen

CG = {'bar2': 3, 'tri3': 5, 'quad4': 7, 'hexa8': 17}
BCTYPES = ['BCWall', 'FamilySpecified', 'BCInflow', 'Null', 'BCSymmetryPlane', 'BCOutflow']


def chars(s):
    return np.array([ord(c) for c in s], dtype='i1')


def node(parent, name, label, data=None):
    g = parent.create_group(name)
    g.attrs['name'] = np.bytes_(name)
    g.attrs['label'] = np.bytes_(label)
    g.attrs['type'] = np.bytes_('MT')
    if data is not None:
        g.create_dataset(' data', data=data)
    return g


def secnames(rng, n):
    pool = ['Hexa', 'GridElements', 'zz', 'A', 'Elem_10', 'Elem_9', 'quads', 'BCface', '1', 'Sec 2', 'M', 'b']
    rng.shuffle(pool)
    return pool[:n]


def sections(rng, blocks):
    """split blocks [(etype, nodes)] in sections with consecutive numbering in random order"""
    out = []
    for t, nodes in blocks:
        if len(nodes) > 1 and rng.random() < 0.3:
            a = rng.randrange(1, len(nodes))
            out += [(t, nodes[:a]), (t, nodes[a:])]
        else:
            out.append((t, nodes))
    rng.shuffle(out)
    return out


def build(rng, k, fname):
    dim = 3 if k % 2 else 2
    hi = 1 + min(3, k // 10)
    if dim == 3:
        d = gen.mesh3d(rng, rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi), 'hex', unused=rng.choice([0, 0, 1]))
    else:
        d = gen.mesh2d(rng, rng.randint(1, hi + 1), rng.randint(1, hi + 1), ['quad', 'mixed', 'tri'][k // 2 % 3], unused=rng.choice([0, 0, 1]))
    d.number(rng, 'range')
    cells = [(t, nodes) for t, _, nodes in d.blocks]
    own = gen.oracle_faces(d)
    bfaces = [f for _, f in gen.cell_faces(d) if len(own[tuple(sorted(f))]) == 1]
    rng.shuffle(bfaces)
    byt = {}
    for f in bfaces:
        byt.setdefault(gen.FTYPE[len(f)], []).append(f)
    mode = k // 3 % 3
    cs, fs = sections(rng, cells), sections(rng, list(byt.items()))
    order = cs + fs if mode == 0 else (fs + cs if mode == 1 else rng.sample(cs + fs, len(cs + fs)))
    g = h5py.File(fname, 'w')
    node(g, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', np.array([3.3], dtype='f4'))
    base = node(g, rng.choice(['Base', 'Base#1']), 'CGNSBase_t', np.array([dim, 3], dtype='i4'))
    node(base, 'Family', 'Family_t')
    zone = node(base, rng.choice(['Zone', 'blk-1', 'Zone 1']), 'Zone_t', np.array([[d.nnode], [d.ncell], [0]], dtype=rng.choice(['i4', 'i8'])))
    node(zone, 'ZoneType', 'ZoneType_t', chars('Unstructured'))
    gc = node(zone, 'GridCoordinates', 'GridCoordinates_t')
    for i, c in enumerate('XYZ'):
        node(gc, 'Coordinate' + c, 'DataArray_t', d.coords[:, i])
    elem, n = {}, 1
    cellnum = {}
    for name, (t, nodes) in zip(secnames(rng, len(order)), order):
        s = node(zone, name, 'Elements_t', np.array([CG[t], 0], dtype='i4'))
        node(s, 'ElementRange', 'IndexRange_t', np.array([n, n + len(nodes) - 1], dtype='i4'))
        node(s, 'ElementConnectivity', 'DataArray_t', np.array([x + 1 for c in nodes for x in c], dtype=rng.choice(['i4', 'i8'])))
        for c in nodes:
            elem[n] = (t, tuple(c))
            n += 1
    cellnum = {e: v for e, v in elem.items() if gen.DIM[v[0]] == dim}
    facenum = {e: v for e, v in elem.items() if gen.DIM[v[0]] == dim - 1}
    zbc = node(zone, 'ZoneBC', 'ZoneBC_t')
    zgc = node(zone, 'ZoneGridConnectivity', 'ZoneGridConnectivity_t')
    marks = {}
    for i in range(rng.randint(0, 6)):
        fam = rng.choice([None, f'Fam{i}', f'wall {i}'])
        name = rng.choice(['BC', 'bnd_', 'Z', 'a']) + str(i)
        conn = rng.random() < 0.15
        kind = rng.choice(['vertex', 'vertex0', 'face', 'face', 'ele', 'cell', 'allvertex', 'allcell'])
        b = node(zgc if conn else zbc, name, 'GridConnectivity_t' if conn else 'BC_t', chars(rng.choice(BCTYPES)))
        bt = ''.join(chr(x) for x in b[' data'][:])
        if fam:
            node(b, 'FamilyName', 'FamilyName_t', chars(fam))
        key = fam or name
        loc, lst, want = None, None, None
        geodim = 'node'
        if kind in ('vertex', 'vertex0', 'allvertex'):
            loc = 'Vertex' if kind != 'vertex0' else None
            if kind == 'allvertex':
                lst = list(range(1, d.nnode + 1))
                rng.shuffle(lst)
            else:
                lst = rng.sample(range(1, d.nnode + 1), rng.randint(1, d.nnode - 1))
                want = sorted(x - 1 for x in lst)
        elif kind in ('face', 'ele'):
            lst = rng.sample(sorted(facenum), rng.choice([rng.randint(1, len(facenum)), min(d.ncell, len(facenum))]))
            want = sorted({x for e in lst for x in facenum[e][1]})
            loc = 'FaceCenter'
        elif kind == 'cell':
            if d.ncell < 2:
                kind = 'allcell'
            else:
                lst = rng.sample(sorted(cellnum), rng.randint(1, d.ncell - 1))
                want = sorted(x - 1 for x in lst)
                loc, geodim = 'CellCenter', 'cell'
        if kind == 'allcell':
            lst = sorted(cellnum)
        data = np.array(lst, dtype='i4')
        if kind in ('ele', 'allcell'):
            node(b, 'ElementList', 'IndexArray_t', data.reshape(rng.choice([(1, -1), (-1,)])))
        else:
            node(b, 'PointList', 'IndexArray_t', data.reshape((1, -1)))
            if loc:
                node(b, 'GridLocation', 'GridLocation_t', chars(loc))
        if want is not None:
            marks[key] = (geodim, want, bt)
    g.close()
    return d, dim, cellnum, marks


def case_read(rng, k, scratch):
    from cfdtools.cgns.cgns import cgnsMesh
    d, dim, cells, marks = build(rng, k, 'a.cgns')
    r = cgnsMesh('a.cgns')
    r.read_data()
    m = r.export_mesh()
    m2 = r.export_mesh()  # exporting again gives the same
    r._file.close()
    for what, m in (('export', m), ('second export', m2)):
        eq((int(m.nnode), int(m.ncell), int(r.ncell)), (d.nnode, d.ncell, d.ncell), f'{what}: sizes')
        arr_eq(m.nodescoord(ndarray=True), d.coords, f'{what}: coordinates')
        got = {}
        for t, e in m._cell2node.items():
            for i, n in zip(e['index'].list(), e['elem2node'].tolist()):
                req(int(i) not in got, f'{what}: two cells number {i}')
                got[int(i)] = (t, tuple(int(x) for x in n))
        eq(got, {e - 1: v for e, v in cells.items()}, f'{what}: cells')
        eq(sorted(m._bocos), sorted(marks), f'{what}: mark names')
        for name, (geodim, want, bt) in marks.items():
            b = m._bocos[name]
            eq((b.name, b.type, b.properties.get('BCtype')), (name, 'boundary', bt), f'{what}: mark {name}')
            if geodim == 'cell':
                eq(b.geodim, 'cell', f'{what}: location of {name}')
            else:
                req(b.nodebased(), f'{what}: mark {name} is not node based')
            eq(sorted(set(int(i) for i in b.index.list())), want, f'{what}: content of mark {name}')


CASES = [(case_read, 160)]
