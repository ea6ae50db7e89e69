"""C09: Cartesian boxes, for all nx, ny, nz >= 1."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, eq, and_, or_, seq_of, conc

CORNERS = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


def box(v):
    from cfdtools.meshbase.simple import Cube
    n = [v.int(c, 1) for c in ('nx', 'ny', 'nz')]
    c = v.call(Cube, *n)
    return n, v.meth(c, 'export_mesh')


def cellijk(v, n):
    return [v.arbitrary(m) for m in n]


@contract('C09')
def nodes(v):
    n, m = box(v)
    nn = (n[0] + 1) * (n[1] + 1) * (n[2] + 1)
    v.prove('number of nodes', eq(v.attr(m, 'nnode'), nn))
    xyz = seq_of(v.meth(m, 'nodescoord'))
    for c in range(3):
        v.prove(f'number of coordinates {c}', eq(v.it.models.b_len(v.it, xyz.get(c)), nn))
    i, j, k = [v.arbitrary(a + 1) for a in n]
    g = k + (n[2] + 1) * (j + (n[1] + 1) * i)
    for c, (a, b) in enumerate(zip((i, j, k), n)):
        v.prove(f'coordinate {c} of node ijk', eq(xyz.get(c).get(g), z3.ToReal(a) / z3.ToReal(b)))


@contract('C09')
def cells(v):
    n, m = box(v)
    nc = n[0] * n[1] * n[2]
    v.prove('number of cells', eq(v.attr(m, 'ncell'), nc))
    con = v.attr(m, '_cell2node')
    v.prove('only hexahedra', list(seq_of(v.meth(con, 'elems')).lst) == ['hexa8'])
    idx = seq_of(v.meth(con, 'all_index'))
    v.prove('number of indices', eq(idx.n, nc))
    v.prove_all('cells are numbered in order', nc, lambda p: eq(idx.get(p), p))
    i, j, k = cellijk(v, n)
    e = k + n[2] * (j + n[1] * i)
    pairs = seq_of(v.meth(con, 'index_elem_tuples'))
    ind, nodes = pairs.get(e)
    nodes = seq_of(nodes)
    v.prove('index of cell ijk', eq(ind, e))
    v.prove('eight nodes', eq(nodes.n, 8))
    for c, (di, dj, dk) in enumerate(CORNERS):
        v.prove(f'corner {c} of cell ijk', eq(nodes.get(c), (k + dk) + (n[2] + 1) * ((j + dj) + (n[1] + 1) * (i + di))))


@contract('C09')
def volumes(v):
    """positive volume: edges from corner 0 to 1, 3, 4 form a direct basis along the axes"""
    n, m = box(v)
    con = v.attr(m, '_cell2node')
    xyz = [seq_of(v.meth(m, 'nodescoord')).get(c) for c in range(3)]
    i, j, k = cellijk(v, n)
    nodes = [(k + dk) + (n[2] + 1) * ((j + dj) + (n[1] + 1) * (i + di)) for di, dj, dk in CORNERS]
    for c, (di, dj, dk) in enumerate(CORNERS):
        for a, d in enumerate((di, dj, dk)):
            v.prove(f'corner {c} is at offset {d} along {"xyz"[a]}', eq(xyz[a].get(nodes[c]) - xyz[a].get(nodes[0]), z3.ToReal(z3.IntVal(d)) / z3.ToReal(n[a])))


SIDES = {'imin': (0, 0), 'imax': (0, 1), 'jmin': (1, 0), 'jmax': (1, 1), 'kmin': (2, 0), 'kmax': (2, 1)}


@contract('C09', variants=list(SIDES))
def marks(v, name):
    n, m = box(v)
    bocos = v.attr(m, '_bocos')
    v.prove('marks', sorted(seq_of(bocos).lst) == sorted(SIDES))
    b = v.item(bocos, name)
    v.prove('name, type', v.attr(b, 'name') == name and v.attr(b, 'type') == 'boundary')
    v.prove('node mark', v.attr(b, 'geodim') in ('node', 'bdnode'))
    ax, end = SIDES[name]
    lst = v.meth(v.attr(b, 'index'), 'list')
    s = seq_of(lst)
    # exactly: every node of the side is listed, every listed node is one
    o = [a for a in range(3) if a != ax]
    v.prove('number of nodes of the side', eq(s.n, (n[o[0]] + 1) * (n[o[1]] + 1)))
    ijk = [None] * 3
    for a in o:
        ijk[a] = v.arbitrary(n[a] + 1)
    ijk[ax] = n[ax] * end
    g = ijk[2] + (n[2] + 1) * (ijk[1] + (n[1] + 1) * ijk[0])
    p = ijk[o[1]] + (n[o[1]] + 1) * ijk[o[0]]
    v.prove('the nodes of the side, once each', eq(s.get(p), g))
