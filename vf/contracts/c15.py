"""C15: CGNS files.  A file is any tree of the stated shape with any content; the mesh read is the mesh it describes."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, eq, and_, or_, not_, seq_of, conc, concat
from ..pydv.values import divmod_sym
from ..pydv import io_models as IO, h5_models as H

CG = {'bar2': 3, 'tri3': 5, 'quad4': 7, 'hexa8': 17}
NN = {'bar2': 2, 'tri3': 3, 'quad4': 4, 'hexa8': 8}
DIM = {'bar2': 1, 'tri3': 2, 'quad4': 2, 'hexa8': 3}


def node(v, parent, name, label, data=None):
    g = parent.create_group(v.it, name)
    g.attrs.put('name', name.encode())
    g.attrs.put('label', label.encode())
    g.attrs.put('type', b'MT')
    if data is not None:
        g.create_dataset(v.it, ' data', data=data)
    return g


def chars(text):
    return SList([ord(c) for c in text])


class Section:
    def __init__(self, v, zone, k, name, etype, nnode):
        self.etype, self.nn, self.dim = etype, NN[etype], DIM[etype]
        self.n, self.first = v.int(f'n{k}', 1), v.int(f'first{k}', 1)
        self.nodes = v.fun(f'nodes{k}', z3.IntSort(), z3.IntSort(), z3.IntSort())      # (element, corner) from 0 -> node from 0
        con = SArr([self.n * self.nn], self.entry, 'i')
        e = v.ivar()
        v.assume(v.c.forall([e], z3.Implies(self.holds(e), z3.And(*[z3.And(self.node(e, c) >= 0, self.node(e, c) < lift(nnode)) for c in range(self.nn)])), [self.node(e, 0)]))
        s = node(v, zone, name, 'Elements_t', SList([CG[etype], 0]))
        node(v, s, 'ElementRange', 'IndexRange_t', SList([self.first, self.first + self.n - 1]))
        node(v, s, 'ElementConnectivity', 'DataArray_t', con)

    def holds(self, e):
        """element number (from 0) of this section"""
        return z3.And(lift(e) >= lift(self.first) - 1, lift(e) < lift(self.first) + lift(self.n) - 1)

    def node(self, e, c):
        """c-th node (from 0) of element number e"""
        return self.nodes(e, c)

    def entry(self, p):
        i, c = divmod_sym(p, self.nn)
        return self.nodes(self.first - 1 + i, c) + 1

    def index(self):
        return SSeq(self.n, lambda i: self.first - 1 + i)


NAMES = ['Hexa', 'GridElements', 'zz', 'A', 'Elem_10', 'Elem_9', 'quads', 'BCface', '1', 'Sec 2']


def cgns(v, types, dim, bcs):
    """file of a zone: sections of the given types (any numbers, sizes, connectivity), boundary conditions"""
    root = H.Group()
    node(v, root, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', SList([3.3]))
    base = node(v, root, 'Base#1', 'CGNSBase_t', SList([dim, 3]))
    node(v, base, 'Family', 'Family_t')
    nn, nc = v.int('nnode', 1), v.int('ncell', 1)
    zone = node(v, base, 'blk-1', 'Zone_t', SArr([3, 1], lambda i, j: z3.If(lift(i) == 0, nn, z3.If(lift(i) == 1, nc, 0)), 'i'))
    node(v, zone, 'ZoneType', 'ZoneType_t', chars('Unstructured'))
    gc = node(v, zone, 'GridCoordinates', 'GridCoordinates_t')
    xyz = [v.array('xyz'[c], [nn], 'f') for c in range(3)]
    for c in range(3):
        node(v, gc, 'Coordinate' + 'XYZ'[c], 'DataArray_t', xyz[c].copy())
    secs = [Section(v, zone, k, NAMES[(3 * k + len(types)) % len(NAMES)], t, nn) for k, t in enumerate(types)]
    for a in secs:
        for b in secs[:secs.index(a)]:
            v.assume(z3.Or(lift(a.first) + lift(a.n) <= lift(b.first), lift(b.first) + lift(b.n) <= lift(a.first)))
    v.assume(eq(nc, sum((s.n for s in secs if s.dim == dim), 0)))
    zbc = node(v, zone, 'ZoneBC', 'ZoneBC_t')
    zgc = node(v, zone, 'ZoneGridConnectivity', 'ZoneGridConnectivity_t')
    out = []
    for k, (kind, conn, family) in enumerate(bcs):
        name, bctype = f'{"bZa"[k % 3]}nd {k}', ['BCWall', 'FamilySpecified', 'Null'][k % 3]
        b = node(v, zgc if conn else zbc, name, 'GridConnectivity_t' if conn else 'BC_t', chars(bctype))
        if family:
            node(v, b, 'FamilyName', 'FamilyName_t', chars(family))
        n = v.int(f'size{k}', 1)
        zero = v.array(f'list{k}', [n])
        lst = SArr([n], lambda i, zero=zero: zero.get(i) + 1, 'i')
        if kind == 'ElementList' or kind == 'ElementList2':
            node(v, b, 'ElementList', 'IndexArray_t', lst.copy() if kind == 'ElementList' else SArr([1, n], lambda i, j, lst=lst: lst.get(j), 'i'))
        else:
            node(v, b, 'PointList', 'IndexArray_t', SArr([1, n], lambda i, j, lst=lst: lst.get(j), 'i'))
            if kind != 'none':
                node(v, b, 'GridLocation', 'GridLocation_t', chars(kind))
        out.append((family or name, kind, bctype, n, zero))
    p = IO.F_JOIN(v.text('folder'), IO.known_name(v.text('file')))
    IO.fs().write(IO.as_path(p), root)
    return p, nn, nc, xyz, secs, out


def read(v, p):
    from cfdtools.cgns.cgns import cgnsMesh
    r = v.call(cgnsMesh, p)
    v.meth(r, 'read_data')
    return r


def same_mesh(v, what, m, dim, nn, nc, xyz, secs):
    v.prove(f'{what}: sizes', and_(eq(v.attr(m, 'nnode'), nn), eq(v.attr(m, 'ncell'), nc)))
    pts = v.meth(m, 'nodescoord', ndarray=True)
    v.prove(f'{what}: number of points', and_(eq(pts.shape[0], nn), eq(pts.shape[1], 3)))
    v.prove_all(f'{what}: coordinates', nn, lambda i: and_(*[eq(pts.get(i, c), xyz[c].get(i)) for c in range(3)]))
    con = v.attr(m, '_cell2node')
    cells = [s for s in secs if s.dim == dim]
    got = seq_of(v.meth(con, 'index_elem_tuples'))
    v.prove(f'{what}: number of cells', eq(got.n, sum((s.n for s in cells), 0)))
    v.prove(f'{what}: types of the cells', sorted(seq_of(v.meth(con, 'elems')).lst) == sorted({s.etype for s in cells}))
    # cells, type by type
    for t in seq_of(v.meth(con, 'elems')).lst:
        mine = [s for s in cells if s.etype == t]
        arr = v.it.models.getitem(v.it, con, t)
        d = v.it.call_value(v.it.getattr(con, 'items'), [], {})
        e = [x for k, x in v.it.models.iterate(v.it, d).lst if k == t][0]
        index = seq_of(v.meth(v.it.models.getitem(v.it, e, 'index'), 'list'))
        n = sum((s.n for s in mine), 0)
        v.prove(f'{what}: number of {t}', and_(eq(arr.shape[0], n), eq(arr.shape[1], NN[t]), eq(index.n, n)))
        off = 0
        for s in mine:
            v.prove_all(f'{what}: {t} of section {secs.index(s)}', s.n, lambda i: and_(eq(index.get(off + i), s.first - 1 + i),
                        *[eq(arr.get(off + i, c), s.node(s.first - 1 + i, c)) for c in range(s.nn)]))
            off = off + s.n


PLANS = {'quads': (2, ('quad4', 'bar2')), 'mixed': (2, ('bar2', 'tri3', 'quad4')), 'faces first': (3, ('quad4', 'hexa8')), 'split': (3, ('hexa8', 'quad4', 'hexa8')),
         'hexa': (3, ('hexa8',))}


@contract('C15', bound='at most 3 sections', variants=list(PLANS))
def sections(v, plan):
    """cells and coordinates"""
    dim, types = PLANS[plan]
    p, nn, nc, xyz, secs, _ = cgns(v, types, dim, [])
    r = read(v, p)
    v.prove('number of cells of the reader', eq(v.attr(r, 'ncell'), nc))
    m = v.meth(r, 'export_mesh')
    same_mesh(v, 'mesh', m, dim, nn, nc, xyz, secs)
    v.prove('no mark', len(v.attr(m, '_bocos').d) == 0)
    m = v.meth(r, 'export_mesh')
    same_mesh(v, 'second export', m, dim, nn, nc, xyz, secs)


# kind of the list, in a ZoneGridConnectivity, family name, content
BCS = {'vertex': ('quads', [('Vertex', False, None, 'nodes')]), 'no location': ('quads', [('none', True, 'Fam', 'nodes')]),
       'face': ('quads', [('FaceCenter', False, 'wall 1', 'faces')]), 'face of two sections': ('mixed faces', [('FaceCenter', True, None, 'faces')]),
       'element': ('quads', [('ElementList', False, None, 'faces')]), 'element2': ('faces first', [('ElementList2', True, 'F', 'faces')]),
       'cell': ('mixed', [('CellCenter', False, None, 'cells')]), 'all cells': ('quads', [('ElementList', False, None, 'all cells')]),
       'all cells 2': ('split', [('ElementList2', True, 'F', 'all cells')]), 'all nodes': ('quads', [('Vertex', False, 'F', 'all nodes')]),
       'several': ('quads', [('Vertex', False, None, 'nodes'), ('CellCenter', False, 'Cells', 'cells'), ('Vertex', True, 'V', 'nodes')]),
       'several 2': ('quads', [('FaceCenter', False, 'F', 'faces'), ('none', False, None, 'all nodes'), ('Vertex', False, None, 'nodes')])}
PLANS['mixed faces'] = (3, ('quad4', 'hexa8', 'tri3'))


def content(v, secs, dim, nn, nc, n, lst, what):
    """the list is a list of distinct elements of the kind; section of the faces"""
    def rng(k, p):
        v.assume(v.forall(n, lambda i: p(lift(lst.get(i))), pats=lambda i: [lift(lst.get(i))]))
        v.assume(p(lift(lst.get(0))))
    inv = v.distinct(SSeq(n, lst.get))
    if what in ('nodes', 'all nodes'):
        rng(0, lambda x: z3.And(x >= 0, x < lift(nn)))
        v.assume(eq(n, nn) if what == 'all nodes' else lift(n) < lift(nn))
        return
    mine = [s for s in secs if s.dim == (dim - 1 if what == 'faces' else dim)]
    rng(0, lambda x: z3.Or([s.holds(x) for s in mine]))
    if what == 'all cells':
        # every cell is in the list
        v.assume(eq(n, nc))
        pos = v.fun('pos', z3.IntSort(), z3.IntSort())
        v.c.cache['of members'] = [lambda x: z3.Implies(z3.Or([s.holds(x) for s in mine]), z3.And(pos(x) >= 0, pos(x) < lift(n), lift(lst.get(pos(x))) == x))]


@contract('C15', bound='at most 3 boundary conditions', variants=list(BCS))
def marks(v, plan):
    """marks of the boundary conditions"""
    zone, bcs = BCS[plan]
    dim, types = PLANS[zone]
    p, nn, nc, xyz, secs, out = cgns(v, types, dim, [b[:3] for b in bcs])
    for (name, kind, bctype, n, lst), (*_, what) in zip(out, bcs):
        content(v, secs, dim, nn, nc, n, lst, what)
    r = read(v, p)
    m = v.meth(r, 'export_mesh')
    got = v.attr(m, '_bocos').d
    want = [(o, b[3]) for o, b in zip(out, bcs) if b[3] not in ('all nodes', 'all cells')]
    v.prove('names of the marks', sorted(got) == sorted(o[0] for o, _ in want))
    for (name, kind, bctype, n, lst), what in want:
        b = got[name]
        v.prove(f'{what}: name and type', v.attr(b, 'name') == name and v.attr(b, 'type') == 'boundary')
        v.prove(f'{what}: type of the condition', v.it.models.getitem(v.it, v.attr(b, 'properties'), 'BCtype') == bctype)
        if what == 'cells':
            v.prove('cells: location', v.attr(b, 'geodim') == 'cell')
        else:
            v.prove(f'{what}: location', v.meth(b, 'nodebased'))
        res = v.meth(v.attr(b, 'index'), 'list')
        s = seq_of(res)
        if what in ('nodes', 'cells'):
            v.prove_all(f'{what}: every one is listed', n, lambda i: v.it.models.contains(v.it, res, lst.get(i)))
            k, j = v.arbitrary(s.n), v.ivar()
            v.prove(f'{what}: nothing else', z3.Exists([j], z3.And(0 <= j, j < lift(n), lift(eq(s.get(k), lst.get(j))))))
            continue
        mine = [x for x in secs if x.dim == dim - 1]
        k = v.arbitrary(n)
        e = lst.get(k)
        for x in mine:
            for c in range(x.nn):
                v.prove(f'faces: node {c} of {x.etype}', z3.Implies(x.holds(e), lift(v.it.models.contains(v.it, res, x.node(e, c)))))
        k, j = v.arbitrary(s.n), v.ivar()
        v.prove('faces: nothing else', z3.Exists([j], z3.And(0 <= j, j < lift(n), z3.Or([z3.And(x.holds(lst.get(j)), lift(eq(x.node(lst.get(j), c), s.get(k))))
                                                                                           for x in mine for c in range(x.nn)]))))
