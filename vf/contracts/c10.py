"""C10: mesh in IC3 version 2 and 3 files."""
from ..pydv.core import z3, lift, norm
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, SDict, eq, and_, or_, not_, seq_of, conc, concat
from ..pydv import io_models as IO, bin_models as B
from .c06 import mark
from .ic3 import mesh_with_faces, range_marks, ZONE, preparation, PREPARATIONS
from .ic3bin import ORDERS, ID, path, written, walk, find, writer_class, GhostMesh

MESHES = ['tri3+quad4/quad4:2:native:2', 'quad4/tri3+quad4:0:little:2:partition', 'tri3+quad4:2:big:3', 'quad4:1:big:2:partition', 'bar2/bar2:3a:big:3', 'bar2/bar2:3b:big:3', 'bar2/bar2:3c:little:2',
          'quad4/quad4:1:little:3:partition', 'quad4/bar2:1:native:3', 'tri3+quad4~/quad4~:2:big:2', 'quad4+tri3~:1:little:3']


@contract('C10', bound='at most 3 marks, 2 face types in a set', variants=MESHES)
def mesh_file(v, plan):
    """content of the file as a function of the mesh"""
    shape, nm, endian, version, *part = plan.split(':')
    m, f, nn, nc, xyz, nb = mesh_with_faces(v, shape)
    if part:
        icv, npart = v.array('icv', [nc], 'i'), v.int('npart', 1)
        v.meth(m, 'set_partition', SDict({'npart': npart, 'icvpart': icv.copy()}))
    read = '/' not in shape         # a mesh which was read: 16 periodic values, the internal zone is a mark
    marks = range_marks(v, m, int(nm[0]), nb, width=16 if read else 3, perms=None if nm[1:] == '' else lambda p: p[0] == 'abc'.index(nm[1]))
    if read:
        v.meth(m, 'add_boco', mark(v, 'internal-domain', None, 'intface', 'internal', rng=[nb, norm(lift(f.N) - 1)]))
    if nm == '0':
        v.assume(eq(nb, 0))
    S = walk(v, written(v, m, version, endian), ORDERS[endian], version)
    s = find(v, S, 'counts')
    v.prove('counts', and_(eq(s.idata[0], nn), eq(s.idata[1], f.N), eq(s.idata[2], nc)))
    nv = s.idata[3]
    s = find(v, S, 'NOOFA')
    v.prove('sizes of the faces', and_(eq(s.idata[0], f.N), eq(s.idata[1], nv)))
    sz, val = s.values(('i', f.N), ('i', nv))
    off = v.it.models.prefix_sum(lambda w: lift(sz.get(w)), f.N)
    v.prove('number of nodes of faces', eq(nv, off(f.N)))
    for b, x in f:
        v.prove_all(f'{b.etype} face: node count', b.n, lambda i: eq(sz.get(x.get(i)), b.nn))
        v.prove_all(f'{b.etype} face: nodes', b.n, lambda i: and_(*[eq(val.get(norm(off(lift(x.get(i))) + c)), b.arr.get(i, c)) for c in range(b.nn)]))
    s = find(v, S, 'CVOFA')
    v.prove('number of owners', and_(eq(s.idata[0], f.N), eq(s.idata[1], 2)))
    own = s.values(('i', norm(2 * lift(f.N))))
    for c in range(2):
        v.prove_all(f'owner {c}', f.N, lambda w: eq(own.get(norm(2 * lift(w) + c)), f.conn.get(w, c)))
    zones = [s for s in S if s.id == ID['FA_ZONE']]
    v.prove('zones', [s.name for s in zones] == [n for n, *_ in marks] + ['internal-domain'])
    for s, (n, ty, a, b, tr) in zip(zones, marks):
        v.prove(f'zone {n}', and_(eq(s.idata[0], ZONE[ty]), eq(s.idata[1], a), eq(s.idata[2], norm(lift(b) - 1))))
        v.prove(f'transformation of {n}', and_(*[eq(s.rdata[c], tr.get(c) if tr is not None and c < tr.shape[0] else 0) for c in range(16)]))
    s = zones[-1]
    v.prove('internal zone', and_(eq(s.idata[0], ZONE['internal']), eq(s.idata[1], nb), eq(s.idata[2], norm(lift(f.N) - 1)), *[eq(x, 0) for x in s.rdata]))
    v.prove('zones follow the connectivity', [s.id for s in S[S.index(zones[0]):]][:len(zones)] == [ID['FA_ZONE']] * len(zones) and S.index(zones[0]) > S.index(find(v, S, 'CVOFA')))
    s = find(v, S, 'CV_PART')
    v.prove('partition: sizes', and_(eq(s.idata[0], nc), eq(s.idata[1], npart if part else 1)))
    p = s.values(('i', nc))
    v.prove_all('partition', nc, lambda i: eq(p.get(i), icv.get(i) if part else 0))
    s = find(v, S, 'X_NO')
    v.prove('number of coordinates', and_(eq(s.idata[0], nn), eq(s.idata[1], 3)))
    x = s.values(('d', norm(3 * lift(nn))))
    for c in range(3):
        v.prove_all(f'coordinate {c}', nn, lambda i: eq(x.get(norm(3 * lift(i) + c)), xyz[c].get(i)))


@contract('C10', bound='at most 2 zones beside the internal one; faces of 2, 3 or 4 nodes', variants=['3,4:0:big:2', '2,4:1:little:3', '4:2:big:3', '2:1:little:2', '4:1:little:2:check', '4:1:big:3:no internal'])
def mesh_read(v, plan):
    """what the reader gives as a function of the content of a file, whatever its byte order and version"""
    from cfdtools.ic3.reader_legacy import reader
    sizes, nm, endian, version, *opt = plan.split(':')
    g = GhostMesh(v, version, '>' if endian == 'big' else '<', [int(x) for x in sizes.split(',')], int(nm), opt)
    p = g.store()
    r = v.call(reader, p, opt == ['check'])
    v.meth(r, 'read_data')
    v.prove('number of cells announced', eq(v.attr(r, 'ncell'), g.nc))
    v.prove('version', eq(v.attr(r, 'ic3_version'), int(version)))
    m = v.meth(r, 'export_mesh')
    g.same_mesh(m)


@contract('C10', bound='at most 3 marks; faces of one type', variants=[f'{p}/{w}' for p, w in zip(PREPARATIONS, '232323232')])
def prepared(v, plan):
    plan, version = plan.rsplit('/', 1)
    preparation(v, writer_class(version), plan)
