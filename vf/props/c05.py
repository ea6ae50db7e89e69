"""Everything here is finite: the tables are enumerated completely on every run."""
from ..common import Fail, req, eq
from .. import gen

# quadratic elements kept in the tables: corner count of each face
CORNER = {'quad9': 4, 'quad4': 4, 'tri3': 3, 'bar2': 2}


def _edges(f):
    return [(f[i], f[(i + 1) % len(f)]) for i in range(len(f))]


def case_tables(rng, k, scratch):
    import cfdtools.meshbase._elements as el
    tabs = {'cgns': el.cgns_elem2faces, 'gmsh': el.gmsh_elem2faces}
    eq(el.elem2faces is el.cgns_elem2faces or el.elem2faces == el.cgns_elem2faces, True, 'default convention')
    for conv, tab in tabs.items():
        for t in ('tetra4', 'pyra5', 'prism6', 'hexa8', 'tri3', 'quad4'):
            req(t in tab, f'{conv}: no faces for {t}')
        for t, groups in tab.items():
            faces = [(ft, list(f)) for ft, fl in groups.items() for f in fl]
            if t in gen.DIM and gen.DIM[t] == 2:
                eq(sorted(tuple(f) for _, f in faces), sorted(gen.STD_FACES[t]), f'{conv} edges of {t}')
                eq(list(groups), ['bar2'], f'{conv} edge type of {t}')
                continue
            corner = []
            for ft, f in faces:
                nc = CORNER[ft]
                if ft in el.nnode_elem:
                    eq(len(f), el.nnode_elem[ft], f'{conv} {t} face {f} of type {ft}')
                    eq(el.dim_elem[ft], 2, f'{conv} {t} face dimension')
                else:
                    eq(len(f), 9, f'{conv} {t} face {f}')
                eq(len(set(f)), len(f), f'{conv} {t} repeated node in face {f}')
                corner.append(f[:nc])
            edges = [e for f in corner for e in _edges(f)]
            eq(len(set(edges)), len(edges), f'{conv} {t}: an edge is traversed twice in the same direction')
            for a, b in edges:
                req((b, a) in edges, f'{conv} {t}: edge {a}-{b} is not traversed in both directions')
            ncorner = {'hexa27': 8}.get(t) or el.nnode_elem[t]
            eq(sorted({a for f in corner for a in f}), list(range(ncorner)), f'{conv} {t}: nodes used')
            base = {'hexa27': 'hexa8'}.get(t, t)
            # inward: every face is a standard face reversed (as oriented cycle)
            std = sorted(gen.rot_canon(tuple(reversed(f))) for f in gen.STD_FACES[base])
            eq(sorted(gen.rot_canon(f) for f in corner), std, f'{conv} {t}: faces are not the reversed standard faces')
            if t in el.nnode_elem:
                for ft, f in faces:
                    eq(ft, gen.FTYPE[len(f)], f'{conv} {t} face type')


def case_hexa27(rng, k, scratch):
    """second order hexahedron: mid-edge and mid-face nodes are those of the corners, in both formats"""
    import cfdtools.meshbase._elements as el
    # CGNS SIDS numbering (1-based): edges 9..20, faces 21..26 in face order F1..F6
    cg_edge = {(1, 2): 9, (2, 3): 10, (3, 4): 11, (1, 4): 12, (1, 5): 13, (2, 6): 14, (3, 7): 15, (4, 8): 16,
               (5, 6): 17, (6, 7): 18, (7, 8): 19, (5, 8): 20}
    cg_face = {(1, 2, 3, 4): 21, (1, 2, 5, 6): 22, (2, 3, 6, 7): 23, (3, 4, 7, 8): 24, (1, 4, 5, 8): 25, (5, 6, 7, 8): 26}
    for f in el.cgns_elem2faces['hexa27']['quad9']:
        g = [a + 1 for a in f]
        edges = {tuple(sorted(e)) for e in _edges(g[:4])}
        eq(sorted(g[4:8]), sorted(cg_edge[e] for e in edges), f'cgns hexa27 mid-edge nodes of {f}')
        eq(g[8], cg_face[tuple(sorted(g[:4]))], f'cgns hexa27 mid-face node of {f}')


def case_cross(rng, k, scratch):
    import cfdtools.meshbase._elements as el
    from cfdtools.gmsh._gmsh import gmshtype_elem
    import cfdtools.vtk._vtk as vtkm
    import cfdtools.cgns.cgns as cg
    import pyvista as pv
    eq({t: el.nnode_elem[t] for t in gen.NNODE}, gen.NNODE, 'node counts')
    eq({t: el.dim_elem[t] for t in gen.DIM}, gen.DIM, 'dimensions')
    eq(set(el.nnode_elem), set(el.dim_elem), 'declared types')
    eq(dict(el.face_from_nnode), gen.FTYPE, 'face type by node count')
    for e, x in el.extruded_face.items():
        req(x in el.nnode_elem, f'extruded type {x} of {e} is not declared')
        eq(el.nnode_elem[x], 2 * el.nnode_elem[e], f'nodes of extruded {e}')
        eq(el.dim_elem[x], el.dim_elem[e] + 1, f'dimension of extruded {e}')
    eq(dict(el.extruded_face), {'node1': 'bar2', 'bar2': 'quad4', 'tri3': 'prism6', 'quad4': 'hexa8'}, 'extruded types')
    linear = {1: 'bar2', 2: 'tri3', 3: 'quad4', 4: 'tetra4', 5: 'hexa8', 6: 'prism6', 7: 'pyra5', 15: 'node1'}
    eq({i: gmshtype_elem.get(i) for i in linear}, linear, 'gmsh types')
    vt = {'bar2': 3, 'tri3': 5, 'quad4': 9, 'tetra4': 10, 'pyra5': 14, 'prism6': 13, 'hexa8': 12}
    eq({t: int(v) for t, v in vtkm.vtktype_ele.items()}, vt, 'vtk types')
    eq({int(v): t for v, t in vtkm.ele_vtktype.items()}, {v: t for t, v in vt.items()}, 'inverse vtk types')
    xd = {5: 'Triangle', 9: 'Quadrilateral', 12: 'Hexahedron', 10: 'Tetrahedron', 14: 'Pyramid', 13: 'Prism'}
    eq({int(v): n for v, n in vtkm.PYVISTA2XDMF.items() if int(v) in xd}, xd, 'xdmf names')
    cgt = {2: 'node1', 3: 'bar2', 5: 'tri3', 7: 'quad4', 10: 'tetra4', 12: 'pyra5', 14: 'prism6', 17: 'hexa8'}
    for i, t in cg.ele_cgns2local.items():
        eq(t, cgt.get(i), f'cgns type {i}')
    for i in (2, 3, 5, 7, 17):
        req(i in cg.ele_cgns2local, f'cgns type {i} is missing')
    n_ic3 = {'bi': 2, 'tri': 3, 'qua': 4, 'tet': 4, 'hex': 8, 'pri': 6, 'pyr': 5}
    from cfdtools.ic3._ic3 import nodes_per_cell, type2zonekind, zonekind2type
    eq({a: nodes_per_cell.get(a) for a in n_ic3}, n_ic3, 'ic3 node counts')
    eq(dict(type2zonekind), {'boundary': 1, 'perio_cart': 2, 'perio_cylx': 3, 'perio_cyly': 4, 'perio_cylz': 5, 'internal': 6}, 'zone kinds')
    eq({zonekind2type[i]: i for i in zonekind2type}, dict(type2zonekind), 'inverse zone kinds')


def case_conversion(rng, k, scratch):
    """cgns2gmsh applied with the identity and with any renumbering maps the nodes as documented"""
    import cfdtools.meshbase._elements as el
    n = rng.randint(4, 9)
    p = list(range(1, n + 1))
    rng.shuffle(p)
    faces = [[rng.randrange(n) for _ in range(rng.randint(3, 4))] for _ in range(4)]
    eq(el.cgns2gmsh(p, faces), [[p[a] - 1 for a in f] for f in faces], 'cgns2gmsh')


CASES = [(case_tables, 1), (case_hexa27, 1), (case_cross, 1), (case_conversion, 50)]
