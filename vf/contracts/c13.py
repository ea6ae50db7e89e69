"""C13: IC3 version 4 files."""
from ..pydv.core import z3, lift, norm
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, SDict, eq, and_, or_, not_, seq_of, conc, concat
from ..pydv import io_models as IO, h5_models as H
from .ic3 import mesh_with_faces, range_marks, ZONE, preparation, PREPARATIONS

MESHES = ['quad4/quad4:1', 'tri3+quad4~/quad4~:2', 'tri3+quad4/quad4:2', 'quad4/tri3+quad4:0', 'bar2/bar2:3', 'tri3+quad4:2', 'quad4:1']


def path(v, name):
    return IO.F_JOIN(v.text(name + 'folder'), IO.known_name(v.text(name)))


def write(v, m, *paths):
    from cfdtools.ic3.writerV4 import writer
    w = v.call(writer, m)
    v.meth(w, 'write_data', *paths)
    return [c for _, _, c in IO.fs().written]


def data(tree, p):
    return tree.get(p).value()


@contract('C13', bound='at most 3 marks, 2 face types in a set', variants=MESHES)
def mesh_file(v, plan):
    """content of the mesh file as a function of the mesh"""
    shape, nm = plan.split(':')
    m, f, nn, nc, xyz, nb = mesh_with_faces(v, shape)
    marks = range_marks(v, m, int(nm), nb)
    if nm == '0':
        v.assume(eq(nb, 0))
    files = write(v, m, path(v, 'mesh'))
    v.prove('one file is written', len(files) == 1)
    t = files[0]
    v.prove('counts', and_(*[eq(t.attrs.d[k], x) for k, x in (('no_count', nn), ('fa_count', f.N), ('cv_count', nc))]))
    xyz2 = data(t, 'coordinates')
    v.prove('number of coordinates', xyz2.ndim == 1 and eq(xyz2.shape[0], 3 * nn))
    for c in range(3):
        v.prove_all(f'coordinate {c}', nn, lambda i: eq(xyz2.get(3 * i + c), xyz[c].get(i)))
    own = data(t, 'Connectivities/Face/cvofa')
    v.prove('number of owners', own.ndim == 1 and eq(own.shape[0], 2 * f.N))
    for c in range(2):
        v.prove_all(f'owner {c}', f.N, lambda w: eq(own.get(2 * w + c), f.conn.get(w, c)))
    ni, nv = data(t, 'Connectivities/Face/noofa_i'), data(t, 'Connectivities/Face/noofa_v')
    v.prove('number of node counts', eq(ni.shape[0], f.N))
    off = v.it.models.prefix_sum(lambda w: lift(ni.get(w)), f.N)
    v.prove('number of nodes of faces', eq(nv.shape[0], off(f.N)))
    for b, x in f:
        v.prove_all(f'{b.etype} face: node count', b.n, lambda i: eq(ni.get(x.get(i)), b.nn))
        v.prove_all(f'{b.etype} face: nodes', b.n, lambda i: and_(*[eq(nv.get(norm(off(lift(x.get(i))) + c)), b.arr.get(i, c)) for c in range(b.nn)]))
    o, k, l = [data(t, 'Boundaries/' + n) for n in ('offsets', 'kinds', 'labels')]
    l = [x.decode() for x in l.lst]
    v.prove('labels', sorted(l) == sorted([n for n, *_ in marks] + ['internal-domain']))
    v.prove('size of the table', and_(eq(o.shape[0], len(l) + 1), eq(k.shape[0], len(l))))
    v.prove('first and last offset', and_(eq(o.get(0), 0), eq(o.get(len(l)), f.N)))
    v.prove('increasing offsets', and_(*[lift(o.get(i)) <= lift(o.get(i + 1)) for i in range(len(l))]))
    for n, ty, a, b, tr in marks:
        i = l.index(n)
        v.prove(f'zone {n}', and_(eq(k.get(i), ZONE[ty]), eq(o.get(i), a), eq(o.get(i + 1), b)))
        v.prove(f'transformation of {n}', (t.walk(f'Boundaries/{n}/periodic_transform') is not None) == (tr is not None))
        if tr is not None:
            per = data(t, f'Boundaries/{n}/periodic_transform')
            v.prove(f'values of the transformation of {n}', and_(eq(per.shape[0], 3), *[eq(per.get(c), tr.get(c)) for c in range(3)]))
    i = l.index('internal-domain')
    v.prove('internal zone', and_(eq(k.get(i), ZONE['internal']), eq(o.get(i), nb), eq(o.get(i + 1), f.N)))


NAMES = ['inlet', 'mark two', 'x3']


def ghost_file(v, nm, sizes=(2, 3, 4), internal='any'):
    """a valid version 4 mesh file: any faces of these sizes, any owners, nm zones and the internal one in any order"""
    p = path(v, 'mesh')
    t = H.Group()
    nn, nc, n = v.int('nnode', 1), v.int('ncell', 1), v.int('nface', 1)
    for k, x in (('no_count', nn), ('fa_count', n), ('cv_count', nc), ('ic3_format_version', 4)):
        t.attrs.put(k, x)
    xyz = v.array('xyz', [3 * nn], 'f')
    sz = v.fun('sz', z3.IntSort(), z3.IntSort())
    v.assume(v.forall(n, lambda i: z3.Or([sz(i) == k for k in sizes]), pats=lambda i: [sz(i)]))
    off = v.it.models.prefix_sum(sz, n)
    val = v.array('val', [off(n)], 'i')
    own = v.array('own', [2 * n], 'i')
    v.assume(v.forall(2 * n, lambda i: lift(own.get(i)) < nc, pats=lambda i: [lift(own.get(i))]))
    last = v.arbitrary(2 * n)
    v.assume(own.get(last) == nc - 1)
    t.create_dataset(v.it, 'coordinates', data=xyz.copy())
    t.create_dataset(v.it, '/Connectivities/Face/noofa_i', data=SArr([n], lambda i: sz(lift(i)), 'i'))
    t.create_dataset(v.it, '/Connectivities/Face/noofa_v', data=val.copy())
    t.create_dataset(v.it, '/Connectivities/Face/cvofa', data=own.copy())
    zones = [(NAMES[k], ['boundary', 'perio_cart', 'perio_cylx'][k % 3]) for k in range(nm)]
    pos = v.choose(*range(nm + 1)) if internal == 'any' else nm
    zones.insert(pos, ('internal-domain', 'internal'))
    cuts = [0] + [v.int(f'cut{k}', 0) for k in range(nm)] + [n]
    for a, b, (_, ty) in zip(cuts, cuts[1:], zones):
        v.assume(lift(a) <= lift(b) if ty == 'internal' else lift(a) < lift(b))
    t.create_dataset(v.it, 'Boundaries/offsets', data=SList(cuts))
    t.create_dataset(v.it, 'Boundaries/kinds', data=SList([ZONE[ty] for _, ty in zones]))
    t.kids['Boundaries'].add('labels', H.Dataset('/Boundaries/labels', SSeq(lst=[z.encode() for z, _ in zones])))
    trs = {}
    for z, ty in zones:
        if ty == 'perio_cart':
            trs[z] = v.array('tr', [3], 'f')
            t.create_dataset(v.it, f'Boundaries/{z}/periodic_transform', data=trs[z].copy())
    IO.fs().write(IO.as_path(p), t)
    return p, t, nn, nc, n, xyz, sz, off, val, own, zones, cuts, trs


@contract('C13', bound='at most 2 zones beside the internal one; faces of 2, 3 or 4 nodes', variants=['2,3,4:0', '3,4:1', '4:2', '2:1'])
def mesh_read(v, plan):
    """what the reader gives as a function of the content of a file"""
    from cfdtools.ic3.readerV4 import reader
    sizes, nm = plan.split(':')
    p, t, nn, nc, n, xyz, sz, off, val, own, zones, cuts, trs = ghost_file(v, int(nm), [int(x) for x in sizes.split(',')], 'last' if ',' in sizes else 'any')
    r = v.call(reader, p)
    v.meth(r, 'read_data')
    v.prove('number of cells announced', eq(v.attr(r, 'ncell'), nc))
    m = v.meth(r, 'export_mesh')
    v.prove('sizes', and_(eq(v.attr(m, 'nnode'), nn), eq(v.attr(m, 'ncell'), nc), eq(v.attr(m, 'nface'), n)))
    got = seq_of(v.meth(m, 'nodescoord'))
    for c in range(3):
        v.prove(f'coordinate {c}: number', eq(got.get(c).shape[0], nn))
        v.prove_all(f'coordinate {c}', nn, lambda i: eq(got.get(c).get(i), xyz.get(3 * i + c)))
    faces = v.attr(m, '_faces')
    v.prove('one set of faces', list(seq_of(faces).lst) == ['mixed'])
    f = v.item(faces, 'mixed')
    con, own2 = v.item(f, 'face2node'), v.attr(v.item(f, 'face2cell'), 'conn')
    v.prove('number of owners', own2.ndim == 2 and and_(eq(own2.shape[0], n), eq(own2.shape[1], 2)))
    v.prove_all('owners', n, lambda w: and_(*[eq(own2.get(w, c), own.get(2 * w + c)) for c in range(2)]))
    v.prove('number of faces', eq(v.attr(con, 'nelem'), n))
    every = v.meth(con, 'all_index')
    q = v.ivar('p')
    v.lemma('size of the face', z3.Implies(z3.And(0 <= q, q < n), sz(q) >= 2))
    v.prove('every face is there', z3.Implies(z3.And(0 <= q, q < n), lift(v.it.models.contains(v.it, every, q))))
    tuples = seq_of(v.meth(con, 'index_elem_tuples'))
    q = v.arbitrary(tuples.n)
    i, nodes = tuples.get(q)
    nodes = seq_of(nodes)
    v.prove('number of a face', and_(lift(i) >= 0, lift(i) < n))
    v.prove('node count', eq(nodes.n, sz(i)))
    c = v.int('c', 0)
    v.assume(c < lift(nodes.n))
    v.prove('nodes in order', eq(nodes.get(c), val.get(off(i) + c)))
    bocos = v.attr(m, '_bocos')
    v.prove('names of the marks', list(seq_of(bocos).lst) == [z for z, _ in zones])
    for k, (z, ty) in enumerate(zones):
        b = v.item(bocos, z)
        v.prove(f'kind of {z}', v.attr(b, 'name') == z and v.attr(b, 'type') == ty and v.attr(b, 'geodim') in (('intface',) if ty == 'internal' else ('face', 'bdface')))
        s = seq_of(v.meth(v.attr(b, 'index'), 'list'))
        v.prove(f'size of {z}', eq(s.n, cuts[k + 1] - cuts[k]))
        v.prove_all(f'faces of {z}', s.n, lambda i: eq(s.get(i), cuts[k] + i))
        pr = v.attr(b, 'properties')
        has = v.it.models.contains(v.it, pr, 'periodic_transform')
        v.prove(f'transformation of {z}', has == (z in trs))
        if z in trs:
            tr = v.item(pr, 'periodic_transform')
            v.prove(f'values of the transformation of {z}', and_(eq(tr.shape[0], 3), *[eq(tr.get(c), trs[z].get(c)) for c in range(3)]))
    v.prove('no data', [len(seq_of(v.meth(v.attr(m, a), 'keys')).lst) for a in ('_celldata', '_nodedata')] == [0, 0])


FIELDS = {'RHO': 1, 'RHOU': 3, 'RHOE': 1}
STATS = {'P_AVG': 1, 'U_RMS': 3, 'U_REY': 3, 'TAU_AVG': 6}
STATE = {'step': 'i', 'time': 'f', 'rho_wgt': 'f', 'u_avg_wgt': 'f'}


def field(v, name, nc, k):
    return v.array(name, [nc] if k == 1 else [nc, k], 'f')


@contract('C13', bound='solutions of 3 conservative fields, 4 statistics fields, 2 weights', variants=['fields', 'stats'])
def solution_file(v, plan):
    from cfdtools.data import DataSet
    m, f, nn, nc, xyz, nb = mesh_with_faces(v, 'quad4')
    range_marks(v, m, 1, nb)
    cd = v.call(DataSet, 'cellaverage')
    names = dict(FIELDS, **(STATS if plan == 'stats' else {}))
    want = {}
    for n in (list(names) if v.choose(True, False) else list(reversed(names))):
        want[n] = field(v, n, nc, names[n])
        v.meth(cd, 'add_data', n, want[n].copy())
    v.meth(m, 'set_celldata', cd)
    state = {k: v.int(k) if t == 'i' else v.real(k) for k, t in STATE.items() if plan == 'stats' or not k.endswith('_wgt')}
    v.meth(m, 'update_params', SDict(dict(state)))
    t = write(v, m, path(v, 'mesh'), path(v, 'sol'))
    v.prove('two files are written', len(t) == 2)
    t = t[1]
    groups = {n: 'VolumeStats/' + n.lower() if n in STATS else n.lower() for n in names}
    for n, k in names.items():
        d = t.walk(groups[n])
        v.prove(f'{n} is written', d is not None and d.data.ndim == 1)
        v.prove(f'{n}: size', eq(d.data.shape[0], k * nc))
        v.prove_all(f'{n}: values', nc, lambda i: and_(*[eq(d.data.get(k * i + c), want[n].get(i, *([c] if k > 1 else []))) for c in range(k)]))
    v.prove('members', sorted(t.kids) == sorted([n.lower() for n in FIELDS] + (['VolumeStats'] if plan == 'stats' else [])))
    for k, x in state.items():
        at = t.kids['VolumeStats'].attrs if k.endswith('_wgt') else t.attrs
        v.prove(f'{k} is written', k in at.d and eq(at.d[k], x))
    if plan == 'stats':
        v.prove('members of the statistics', sorted(t.kids['VolumeStats'].kids) == sorted(n.lower() for n in STATS))


@contract('C13', bound='solutions of 3 conservative fields, 4 statistics fields, 2 weights', variants=['fields', 'stats'])
def solution_read(v, plan):
    from cfdtools.ic3.readerV4 import reader
    p, t, nn, nc, n, *_ = ghost_file(v, 0, (4,), 'last')
    sp = path(v, 'sol')
    s = H.Group()
    names = dict(FIELDS, **(STATS if plan == 'stats' else {}))
    want = {}
    for f, k in names.items():
        want[f] = v.array(f, [k * nc], 'f')
        s.create_dataset(v.it, f.lower() if f in FIELDS else 'VolumeStats/' + f.lower(), data=want[f].copy())
    state = {k: v.int(k) if ty == 'i' else v.real(k) for k, ty in STATE.items() if plan == 'stats' or not k.endswith('_wgt')}
    for k, x in state.items():
        (s.kids['VolumeStats'] if k.endswith('_wgt') else s).attrs.put(k, x)
    IO.fs().write(IO.as_path(sp), s)
    v.assume(z3.Not(lift(and_(eq(IO.as_path(p).folder, IO.as_path(sp).folder), eq(IO.as_path(p).name, IO.as_path(sp).name)))))
    r = v.call(reader, p, sp)
    v.meth(r, 'read_data')
    m = v.meth(r, 'export_mesh')
    d = v.attr(m, '_celldata')
    v.prove('fields', sorted(seq_of(v.meth(d, 'keys')).lst) == sorted(names))
    for f, k in names.items():
        a = v.item(d, f)
        v.prove(f'{f}: shape', and_(a.ndim == (1 if k == 1 else 2), eq(a.shape[0], nc), *([eq(a.shape[1], k)] if k > 1 else [])))
        v.prove_all(f'{f}: values', nc, lambda i: and_(*[eq(a.get(i, *([c] if k > 1 else [])), want[f].get(k * i + c)) for c in range(k)]))
    pr = v.attr(m, '_params')
    for k, x in state.items():
        v.prove(f'parameter {k}', eq(v.item(pr, k), x))
    v.prove('sizes', and_(eq(v.attr(m, 'nnode'), nn), eq(v.attr(m, 'ncell'), nc)))


@contract('C13', bound='at most 3 marks; faces of one type', variants=PREPARATIONS)
def prepared(v, plan):
    from cfdtools.ic3.writerV4 import writer
    preparation(v, writer, plan)
