"""Shared by C10-C13: meshes with numbered faces and marks that are contiguous ranges, as the IC3 writers prepare them."""
from ..pydv.core import z3, lift, norm
from ..pydv.values import SSeq, SList, SArr, SDict, eq, and_, or_, not_, seq_of, conc, concat
from .c02 import Block, container
from .c06 import mark

ZONE = {'boundary': 1, 'perio_cart': 2, 'perio_cylx': 3, 'perio_cyly': 4, 'perio_cylz': 5, 'internal': 6}


class Faces:
    """faces numbered 0..N-1: blocks of one type with their numbers, owners per number"""

    def __init__(self, v, blocks, numbers, N, conn):
        self.v, self.blocks, self.numbers, self.N, self.conn = v, blocks, numbers, N, conn

    def __iter__(self):
        return iter(zip(self.blocks, self.numbers))


def numbered(v, tag, plan):
    """container of faces of the given types numbered by a permutation of 0..N-1 (~: ranges)"""
    from cfdtools.meshbase._connectivity import indexindirection
    explicit = plan[-1] != '~'
    blocks = [Block(v, t, tag + str(k)) for k, t in enumerate(plan.rstrip('~').split('+'))]
    con, content = container(v, blocks, [explicit] * len(blocks))
    N = sum((b.n for b in blocks), 0)
    if explicit:
        v.distinct(concat([x for _, x in content]))
        for b, x in content:
            v.assume(v.forall(b.n, lambda i: z3.And(lift(x.get(i)) >= 0, lift(x.get(i)) < lift(N)), pats=lambda i: [lift(x.get(i))]))
    conn = v.array('f2c' + tag, [N, 2], 'i')
    return con, v.call(indexindirection, conn), Faces(v, [b for b, _ in content], [x for _, x in content], N, conn.copy())


def mesh_with_faces(v, plan):
    """plan: types of boundary faces '/' types of internal faces, or types of mixed faces. Gives mesh, faces, node coordinates, nb"""
    from cfdtools.meshbase._mesh import Mesh
    nn, nc = v.int('nnode', 1), v.int('ncell', 1)
    m = v.call(Mesh, nc, nn)
    xyz = [v.array(c, [nn], 'f') for c in 'xyz']
    v.meth(m, 'set_nodescoord_xyz', *[a.copy() for a in xyz])
    if '/' in plan:
        b, i = plan.split('/')
        c1, o1, f1 = numbered(v, 'b', b)
        c2, o2, f2 = numbered(v, 'i', i)
        v.meth(m, 'add_faces', 'boundary', c1, o1)
        v.meth(m, 'add_faces', 'internal', c2, o2)
        nb = f1.N
        N = f1.N + f2.N
        both = lambda c: lambda w, *k: z3.If(lift(w) < lift(nb), lift(f1.conn.get(w, *k)), lift(f2.conn.get(norm(lift(w) - lift(nb)), *k)))
        conn = SArr([N, 2], both(0), 'i')
        f = Faces(v, f1.blocks + f2.blocks, f1.numbers + [x.map(lambda y: y + nb) for x in f2.numbers], N, conn)
    else:
        c1, o1, f = numbered(v, 'm', plan)
        v.meth(m, 'add_faces', 'mixed', c1, o1)
        nb = v.int('nb', 0)
        v.assume(lift(nb) <= lift(f.N))
    v.assume(lift(f.N) >= 1)
    return m, f, nn, nc, xyz, nb


def orders(k):
    import itertools
    return list(itertools.permutations(range(k)))


def range_marks(v, m, nm, nb, transforms=True, perms=None, width=3):
    """nm non empty marks covering 0..nb-1 by consecutive ranges, stored in any order: list of (name, type, first, last, transform) as stored"""
    sizes = [v.int(f'size{k}', 1) for k in range(nm)]
    v.assume(eq(sum(sizes, 0), nb))
    perm = v.choose(*[p for p in orders(nm) if perms is None or perms(p)]) if nm > 1 else (0,) * nm
    start, ranges = 0, {}
    for k in perm:
        ranges[k] = (start, start + sizes[k])
        start = start + sizes[k]
    out = []
    for k in range(nm):
        a, b = ranges[k]
        ty = ['boundary', 'perio_cart', 'perio_cylz'][k % 3]
        mk = mark(v, f'm{k}', None, ['bdface', 'face'][k % 2], ty, rng=[a, b - 1])
        tr = None
        if transforms and ty == 'perio_cart':
            tr = v.array(f'tr{k}', [width], 'f')
            v.it.models.setitem(v.it, v.attr(mk, 'properties'), 'periodic_transform', tr.copy())
        elif k % 3 == 2:
            v.it.models.setitem(v.it, v.attr(mk, 'properties'), 'periodic_transform', None)
        v.meth(m, 'add_boco', mk)
        out.append((f'm{k}', ty, a, b, tr))
    return out


MARKSETS = {'nodes': [('bdnode', 'list')], 'faces': [('bdface', 'list')], 'mixed kinds': [('face', 'list'), ('node', 'list'), ('bdface', 'range')],
            'ranges': [('bdface', 'range'), ('face', 'range')], 'none': []}


def preparation(v, writer, plan):
    """set_mesh against the contracts of the operations it uses (C03, C06, C07): complete face based marks which are ranges, faces built"""
    from cfdtools.meshbase._mesh import Mesh, submeshmark
    from cfdtools.meshbase._connectivity import indexlist
    marks, built = plan.split('/')
    M = v.it.models
    nn, nc = v.int('nnode', 1), v.int('ncell', 1)
    m = v.call(Mesh, nc, nn)
    xyz = [v.array(c, [nn], 'f') for c in 'xyz']
    v.meth(m, 'set_nodescoord_xyz', *[a.copy() for a in xyz])
    calls, state = [], {}

    def faces(tag):
        c1, o1, f1 = numbered(v, 'b' + tag, 'quad4')
        c2, o2, f2 = numbered(v, 'i' + tag, 'quad4')
        v.meth(m, 'add_faces', 'boundary', c1, o1)
        v.meth(m, 'add_faces', 'internal', c2, o2)
        v.assume(lift(f1.N) >= 1)
        state['faces'] = (f1, f2)

    def fresh_list(b, tag, kind):
        v.setattr(b, 'geodim', kind)
        v.setattr(b, 'index', v.call(indexlist, ilist=v.list(tag, v.int('n' + tag, 1))))

    def bocos():
        return [v.item(v.attr(m, '_bocos'), n) for n in seq_of(v.attr(m, '_bocos')).lst]

    def make_faces(it, args, kw):
        v.prove('faces are built once', 'faces' not in state)
        calls.append('faces')
        faces('new')

    def to_faces(it, args, kw):
        v.prove('node marks are converted when the faces exist', 'faces' in state)
        calls.append('convert')
        for k, b in enumerate(bocos()):
            if v.attr(b, 'geodim') in ('node', 'bdnode', 'intnode'):
                fresh_list(b, f'converted{k}', 'bdface')

    def complete(it, args, kw):
        name = args[1] if len(args) > 1 else kw.get('name', 'unmarked_faces')
        v.prove('marks are completed when they are face based', all(v.attr(b, 'geodim') in ('face', 'bdface') for b in bocos()))
        v.prove('the added mark has a new name', name not in [v.attr(b, 'name') for b in bocos()])
        calls.append('complete')
        state['missing'] = v.choose(False, True)
        if not state['missing']:
            return SList([])
        b = v.call(submeshmark, name)
        fresh_list(b, 'missing', 'bdface')
        v.setattr(b, 'type', 'boundary')
        v.meth(m, 'add_boco', b)
        return v.meth(v.attr(b, 'index'), 'list')

    def reindex(it, args, kw):
        v.prove('faces are renumbered when the marks are complete and face based', 'complete' in calls and all(v.attr(b, 'geodim') in ('face', 'bdface') for b in bocos()))
        calls.append('reindex')
        start = 0
        for k, b in enumerate(bocos()):
            n = v.int(f'final{k}', 1)
            v.setattr(b, 'index', v.call(indexlist, irange=[start, start + n - 1]))
            start = start + n
        faces('renumbered')
        v.assume(eq(start, state['faces'][0].N))
    ov = v.it.overrides
    q = 'cfdtools.meshbase._mesh.Mesh.'
    ov.update({q + 'make_face_connectivity': make_faces, q + 'bocomarks_set_node_to_face': to_faces, q + 'make_unmarked_BC': complete, q + 'reindex_boundaryfaces': reindex})
    names = []
    for k, (kind, form) in enumerate(MARKSETS[marks]):
        b = v.call(submeshmark, f'm{k}')
        v.setattr(b, 'geodim', kind)
        v.setattr(b, 'type', ['boundary', 'perio_cart', 'boundary'][k])
        v.setattr(b, 'index', v.call(indexlist, ilist=v.list(f'l{k}', v.int(f'n{k}', 1))) if form == 'list' else v.call(indexlist, irange=[v.int(f'a{k}', 0), v.int(f'b{k}', 0)]))
        v.meth(m, 'add_boco', b)
        names.append(f'm{k}')
    if built == 'faces':
        faces('given')
    w = v.call(writer, m)
    v.prove('the faces are built if and only if they are absent', ('faces' in calls) == (built != 'faces'))
    v.prove('marks are completed', calls.count('complete') == 1)
    got = bocos()
    v.prove('names of the marks', [v.attr(b, 'name') for b in got] == names + (['unmarked'] if state['missing'] else []))
    v.prove('marks are face based', all(v.attr(b, 'geodim') in ('face', 'bdface') for b in got))
    v.prove('marks are ranges', all(v.attr(v.attr(b, 'index'), 'type') == 'range' for b in got))
    v.prove('marks written', list(seq_of(v.attr(w, 'bocos')).lst) == [v.attr(b, 'name') for b in got if v.attr(b, 'type') != 'internal'])
    f1, f2 = state['faces']
    N, nb = f1.N + f2.N, f1.N
    own = v.attr(w, 'f2e')
    v.prove('number of owners', and_(eq(own.shape[0], N), eq(own.shape[1], 2)))
    v.prove_all('owners of the boundary faces', nb, lambda i: and_(*[eq(own.get(i, c), f1.conn.get(i, c)) for c in range(2)]))
    v.prove_all('owners of the internal faces', f2.N, lambda i: and_(*[eq(own.get(nb + i, c), f2.conn.get(i, c)) for c in range(2)]))
    ni, nv = v.item(v.attr(w, 'f2v'), 'noofa'), v.item(v.attr(w, 'f2v'), 'noofa_v')
    v.prove('sizes of the faces', eq(ni.shape[0], N))
    v.prove_all('node counts', N, lambda i: eq(ni.get(i), 4))
    for f, d in ((f1, 0), (f2, nb)):
        for b, x in f:
            v.prove_all('nodes of the faces', b.n, lambda i: and_(*[eq(nv.get(4 * (d + x.get(i)) + c), b.arr.get(i, c)) for c in range(4)]))
    pr = v.attr(w, 'params')
    v.prove('counts', and_(eq(v.item(pr, 'no_count'), nn), eq(v.item(pr, 'fa_count'), N), eq(v.item(pr, 'cv_count'), nc)))
    co = v.attr(w, 'coordinates')
    v.prove('number of coordinates', and_(eq(co.shape[0], nn), eq(co.shape[1], 3)))
    v.prove_all('coordinates', nn, lambda i: and_(*[eq(co.get(i, c), xyz[c].get(i)) for c in range(3)]))


PREPARATIONS = [f'{m}/{b}' for m in MARKSETS for b in ('faces', 'cells') if (m, b) != ('ranges', 'cells')]
