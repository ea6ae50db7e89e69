"""C05: element tables.  The tables are finite: the postcondition of the module that builds them is evaluated on every entry."""
from ..pydv.core import z3
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, eq, and_, seq_of, conc
from .. import gen

CORNER = {'quad9': 4, 'quad4': 4, 'tri3': 3, 'bar2': 2}
VOLUME = ('tetra4', 'pyra5', 'prism6', 'hexa8', 'hexa27')
SURFACE = ('tri3', 'quad4')


def edges(f):
    return [(f[i], f[(i + 1) % len(f)]) for i in range(len(f))]


def tables():
    import cfdtools.meshbase._elements as el
    return {'cgns': el.cgns_elem2faces, 'gmsh': el.gmsh_elem2faces, 'default': el.elem2faces}


@contract('C05', variants=['cgns', 'gmsh', 'default'])
def faces_of_volumes(v, conv):
    import cfdtools.meshbase._elements as el
    tab = tables()[conv]
    v.prove('volume types of the table', sorted(set(tab) - set(SURFACE)) == sorted(VOLUME))
    for t in VOLUME:
        faces = [(ft, [int(a) for a in f]) for ft, fl in tab[t].items() for f in fl]
        corner = [f[:CORNER[ft]] for ft, f in faces]
        ed = [e for f in corner for e in edges(f)]
        base = {'hexa27': 'hexa8'}.get(t, t)
        for ft, f in faces:
            v.prove(f'{t} {f}: distinct nodes, as many as the face type has', len(set(f)) == len(f) == {'quad9': 9}.get(ft, el.nnode_elem.get(ft)))
            v.prove(f'{t} {f}: type of the face', ft == ('quad9' if t == 'hexa27' else gen.FTYPE[len(f)]))
        for a, b in ed:
            v.prove(f'{t}: edge {a}-{b} is traversed once', ed.count((a, b)) == 1)
            v.prove(f'{t}: edge {a}-{b} is traversed once backwards', ed.count((b, a)) == 1)
        for n in range(gen.NNODE[base]):
            v.prove(f'{t}: node {n} is used', any(n in f for f in corner))
        v.prove(f'{t}: no other corner', all(0 <= n < gen.NNODE[base] for f in corner for n in f))
        got = [gen.rot_canon(f) for f in corner]
        for f in gen.STD_FACES[base]:
            v.prove(f'{t}: standard face {f} is listed reversed, once', got.count(gen.rot_canon(tuple(reversed(f)))) == 1)
        v.prove(f'{t}: number of faces', len(got) == len(gen.STD_FACES[base]))


@contract('C05', variants=['cgns', 'gmsh', 'default'])
def edges_of_surfaces(v, conv):
    tab = tables()[conv]
    for t in SURFACE:
        v.prove(f'{t}: only edges', list(tab[t]) == ['bar2'])
        v.prove(f'{t}: edges', sorted(tuple(f) for f in tab[t]['bar2']) == sorted(gen.STD_FACES[t]))


# CGNS SIDS, HEXA_27, 1-based: mid-edge and mid-face nodes.  GMSH: MSH documentation, hexahedron27
CG_EDGE = {(1, 2): 9, (2, 3): 10, (3, 4): 11, (1, 4): 12, (1, 5): 13, (2, 6): 14, (3, 7): 15, (4, 8): 16,
           (5, 6): 17, (6, 7): 18, (7, 8): 19, (5, 8): 20}
CG_FACE = {(1, 2, 3, 4): 21, (1, 2, 5, 6): 22, (2, 3, 6, 7): 23, (3, 4, 7, 8): 24, (1, 4, 5, 8): 25, (5, 6, 7, 8): 26}


@contract('C05')
def second_order_hexahedron(v):
    import cfdtools.meshbase._elements as el
    for f in el.cgns_elem2faces['hexa27']['quad9']:
        g = [a + 1 for a in f]
        es = {tuple(sorted(e)) for e in edges(g[:4])}
        v.prove(f'mid-edge nodes of {f}', sorted(g[4:8]) == sorted(CG_EDGE[e] for e in es))
        v.prove(f'mid-face node of {f}', g[8] == CG_FACE[tuple(sorted(g[:4]))])


@contract('C05')
def properties(v):
    """node counts, dimensions, face types, extruded types"""
    import cfdtools.meshbase._elements as el
    for t, n in gen.NNODE.items():
        v.prove(f'node count of {t}', el.nnode_elem.get(t) == n)
        v.prove(f'dimension of {t}', el.dim_elem.get(t) == gen.DIM[t])
    v.prove('declared types', set(el.nnode_elem) == set(el.dim_elem))
    v.prove('face type by node count', dict(el.face_from_nnode) == gen.FTYPE)
    for e, x in el.extruded_face.items():
        v.prove(f'extruded {e} is declared, with twice the nodes and one more dimension',
                x in el.nnode_elem and el.nnode_elem[x] == 2 * el.nnode_elem[e] and el.dim_elem[x] == el.dim_elem[e] + 1)
    v.prove('extruded types', dict(el.extruded_face) == {'node1': 'bar2', 'bar2': 'quad4', 'tri3': 'prism6', 'quad4': 'hexa8'})


@contract('C05')
def cross_references(v):
    import cfdtools.meshbase._elements as el
    from cfdtools.gmsh._gmsh import gmshtype_elem
    import cfdtools.vtk._vtk as vtkm
    import cfdtools.cgns.cgns as cg
    from cfdtools.ic3._ic3 import nodes_per_cell, type2zonekind, zonekind2type
    for i, t in {1: 'bar2', 2: 'tri3', 3: 'quad4', 4: 'tetra4', 5: 'hexa8', 6: 'prism6', 7: 'pyra5', 15: 'node1'}.items():
        v.prove(f'gmsh type {i}', gmshtype_elem.get(i) == t)
    vt = {'bar2': 3, 'tri3': 5, 'quad4': 9, 'tetra4': 10, 'pyra5': 14, 'prism6': 13, 'hexa8': 12}
    v.prove('vtk types', {t: int(i) for t, i in vtkm.vtktype_ele.items()} == vt)
    v.prove('types of vtk numbers', {int(i): t for i, t in vtkm.ele_vtktype.items()} == {i: t for t, i in vt.items()})
    xd = {5: 'Triangle', 9: 'Quadrilateral', 12: 'Hexahedron', 10: 'Tetrahedron', 14: 'Pyramid', 13: 'Prism'}
    got = {int(i): n for i, n in vtkm.PYVISTA2XDMF.items()}
    for i, n in xd.items():
        if i in got:
            v.prove(f'xdmf name of vtk type {i}', got[i] == n)
    v.prove('xdmf names of triangles, quadrangles and hexahedra', all(i in got for i in (5, 9, 12)))
    cgt = {2: 'node1', 3: 'bar2', 5: 'tri3', 7: 'quad4', 10: 'tetra4', 12: 'pyra5', 14: 'prism6', 17: 'hexa8'}
    for i, t in cg.ele_cgns2local.items():
        v.prove(f'cgns type {i}', t == cgt.get(i))
    for i in (2, 3, 5, 7, 17):
        v.prove(f'cgns type {i} is known', i in cg.ele_cgns2local)
    for a, n in {'bi': 2, 'tri': 3, 'qua': 4, 'tet': 4, 'hex': 8, 'pri': 6, 'pyr': 5}.items():
        v.prove(f'ic3 node count of {a}', nodes_per_cell.get(a) == n)
    kinds = {'boundary': 1, 'perio_cart': 2, 'perio_cylx': 3, 'perio_cyly': 4, 'perio_cylz': 5, 'internal': 6}
    v.prove('ic3 zone kinds', dict(type2zonekind) == kinds)
    v.prove('types of the ic3 zone kinds', {zonekind2type[i]: i for i in zonekind2type} == kinds)


def face(v, tag, n, k):
    return SSeq(lst=[v.int(f'{tag}{i}', 0) for i in range(k)])


@contract('C05', bound='faces of 3 or 4 nodes, in any number')
def helpers(v):
    """the functions that build the tables, on any faces"""
    import cfdtools.meshbase._elements as el
    n = v.int('n', 0)
    k = v.choose(3, 4)
    f = [v.fun(f'f{c}', z3.IntSort(), z3.IntSort()) for c in range(k)]
    faces = SList(SSeq(n, lambda i: SList([f[c](i) for c in range(k)])))
    r = seq_of(v.call(el.set_inward_normal, faces))
    v.prove('number of faces', eq(r.n, n))
    v.prove_all('reversed face', n, lambda i: and_(eq(seq_of(r.get(i)).n, k), *[eq(seq_of(r.get(i)).get(c), f[-c % k](i)) for c in range(k)]))
    g = v.call(el.group_faces_by_type, faces)
    for t, kk in (('tri3', 3), ('quad4', 4)):
        s = seq_of(v.item(g, t))
        v.prove(f'faces of type {t}', eq(s.n, n if k == kk else 0))
        if k == kk:
            v.prove_all(f'{t} in order', n, lambda i: and_(*[eq(seq_of(s.get(i)).get(c), f[c](i)) for c in range(k)]))


@contract('C05', bound='faces of 3 or 4 nodes, in any number; elements of 4 to 8 nodes')
def cgns2gmsh(v):
    import cfdtools.meshbase._elements as el
    n = v.int('n', 0)
    k = v.choose(3, 4)
    m = v.choose(4, 6, 8)
    f = [v.fun(f'f{c}', z3.IntSort(), z3.IntSort()) for c in range(k)]
    for c in range(k):
        v.assume(v.forall(n, lambda i: z3.And(f[c](i) >= 0, f[c](i) < m), pats=lambda i: [f[c](i)]))
    perm = v.seq('perm', m)
    r = seq_of(v.call(el.cgns2gmsh, SList(perm), SList(SSeq(n, lambda i: SList([f[c](i) for c in range(k)])))))
    v.prove('number of faces', eq(r.n, n))
    v.prove_all('renumbered face', n, lambda i: and_(eq(seq_of(r.get(i)).n, k), *[eq(seq_of(r.get(i)).get(c), perm.get(f[c](i)) - 1) for c in range(k)]))
