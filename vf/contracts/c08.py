"""C08: extrusion, for any number of planes, nodes, cells, marks of any size."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, eq, and_, or_, seq_of, conc, concat
from .c02 import Block, container, shows

ORDER = {'node1': [0], 'bar2': [1, 0], 'tri3': [0, 1, 2], 'quad4': [0, 1, 2, 3]}    # last nodes of the extruded cell
PLANS = ['quad4', 'tri3', 'bar2', 'tri3+quad4', 'bar2+bar2', 'quad4+tri3+quad4']
EXT = {'bar2': 'quad4', 'tri3': 'prism6', 'quad4': 'hexa8'}


def stacked(v, what, con, content, p, nn, total):
    """con is the stack of p - 1 layers of the content"""
    types = []
    for b, _ in content:
        if b.etype not in types:
            types.append(b.etype)
    v.prove(what + ': types', list(seq_of(v.meth(con, 'elems')).lst) == [EXT[t] for t in types])
    v.prove(what + ': number of cells', eq(v.attr(con, 'nelem'), (p - 1) * total))
    pairs = seq_of(v.meth(con, 'index_elem_tuples'))
    v.prove(what + ': number of pairs', eq(pairs.n, (p - 1) * total))
    k = v.arbitrary(p - 1)
    base = 0
    for t in types:
        group = [(b, x) for b, x in content if b.etype == t]
        size = sum((b.n for b, _ in group), 0)
        off = 0
        for b, x in group:
            nf = len(v.c.facts)
            if conc(b.n) != 0:
                j = v.ivar('j')
                v.c.assume(z3.And(0 <= j, j < lift(b.n)))
                ind, nodes = pairs.get(base + k * size + off + j)
                nodes = seq_of(nodes)
                v.prove(f'{what}: index of cell j of layer k ({t})', eq(ind, lift(x.get(j)) + k * total))
                v.prove(f'{what}: node count ({t})', eq(nodes.n, 2 * b.nn))
                for c in range(b.nn):
                    v.prove(f'{what}: node {c} in plane k ({t})', eq(nodes.get(c), b.arr.get(j, c) + k * nn))
                    v.prove(f'{what}: node {c} in plane k+1 ({t})', eq(nodes.get(b.nn + c), b.arr.get(j, ORDER[t][c]) + (k + 1) * nn))
            off = off + b.n
            del v.c.facts[nf:]
        base = base + (p - 1) * size


@contract('C08', variants=PLANS)
def extrude_connectivity(v, plan):
    blocks = [Block(v, t, str(k)) for k, t in enumerate(plan.split('+'))]
    ex = v.choose(True, False)
    con, content = container(v, blocks, [ex] * len(blocks))
    p = v.int('planes', 2)
    nn = v.int('nnode', 1)
    total = sum((b.n for b in blocks), 0)
    new = v.meth(con, 'extrude', p, nn)
    stacked(v, 'extruded', new, content, p, nn, total)
    shows(v, 'original', con, content)


def mesh(v, plan, nmark=1):
    from cfdtools.meshbase._mesh import Mesh, submeshmark
    from cfdtools.meshbase._connectivity import indexlist
    nn = v.int('nnode', 1)
    blocks = [Block(v, t, str(k)) for k, t in enumerate(plan.split('+'))]
    con, content = container(v, blocks, [True] * len(blocks))
    m = v.call(Mesh, sum((b.n for b in blocks), 0), nn)
    xyz = [v.array(c, [nn], 'f') for c in 'xyz']
    v.meth(m, 'set_nodescoord_xyz', *xyz)
    v.setattr(m, '_cell2node', con)
    marks = []
    for k in range(nmark):
        mk = v.call(submeshmark, f'mark{k}')
        v.setattr(mk, 'geodim', ['bdnode', 'node', 'intnode'][k % 3])
        v.setattr(mk, 'type', ['boundary', 'internal', 'perio_cart'][k % 3])
        s = v.seq(f'mark{k}', v.int(f'nmark{k}', 0))
        v.setattr(mk, 'index', v.call(indexlist, ilist=SList(s)))
        v.meth(m, 'add_boco', mk)
        marks.append((f'mark{k}', v.attr(mk, 'geodim'), v.attr(mk, 'type'), s))
    return m, con, content, nn, xyz, marks


def planes(v):
    p = v.int('planes', 2)
    z = v.array('z', [p], 'f')
    d = [v.real('d') for _ in range(3)]
    return p, z, d


@contract('C08', variants=['quad4', 'tri3+quad4'])
def mesh_nodes_and_cells(v, plan):
    m, con, content, nn, xyz, marks = mesh(v, plan, 1)
    p, z, d = planes(v)
    new = v.meth(m, 'export_extruded', direction=SArr([3], lambda i: SSeq(lst=d).get(i), 'f'), extrude=z.tolist())
    v.prove('number of nodes', eq(v.attr(new, 'nnode'), nn * p))
    got = seq_of(v.meth(new, 'nodescoord'))
    k, i = v.arbitrary(p), v.arbitrary(nn)
    for c in range(3):
        v.prove(f'coordinate {c} of node i of plane k', eq(got.get(c).get(k * nn + i), xyz[c].get(i) + z.get(k) * d[c]))
    stacked(v, 'extruded', v.attr(new, '_cell2node'), content, p, nn, sum((b.n for b, _ in content), 0))
    v.prove('number of cells', eq(v.attr(new, 'ncell'), (p - 1) * sum((b.n for b, _ in content), 0)))
    old = seq_of(v.meth(m, 'nodescoord'))
    for c in range(3):
        v.prove(f'original coordinate {c} is untouched', eq(old.get(c).get(i), xyz[c].get(i)))
    shows(v, 'original', con, content)


@contract('C08', bound='0, 1 or 2 marks (of any size)', variants=[0, 1, 2])
def mesh_marks(v, nmark):
    m, con, content, nn, xyz, marks = mesh(v, 'quad4', nmark)
    p, z, d = planes(v)
    dom = v.choose(None, 'inside')
    a = dict(direction=SArr([3], lambda i: SSeq(lst=d).get(i), 'f'), extrude=z.tolist())
    if dom:
        a['domain'] = dom
    new = v.meth(m, 'export_extruded', **a)
    dom = dom or 'fluid'
    bocos = v.attr(new, '_bocos')
    v.prove('names of the marks', sorted(seq_of(bocos).lst) == sorted([n for n, *_ in marks] + [dom + '0', dom + '1']))
    k = v.arbitrary(p)
    for name, gd, ty, s in marks:
        b = v.item(bocos, name)
        v.prove(f'kind and type of {name}', v.attr(b, 'geodim') == gd and v.attr(b, 'type') == ty and v.attr(b, 'name') == name)
        r = seq_of(v.meth(v.attr(b, 'index'), 'list'))
        v.prove(f'size of {name}', eq(r.n, s.n * p))
        v.prove_all(f'{name} in plane k', s.n, lambda j: eq(r.get(k * s.n + j), s.get(j) + k * nn))
        old = v.item(v.attr(m, '_bocos'), name)
        v.seq_eq(f'original {name}', v.meth(v.attr(old, 'index'), 'list'), s)
    v.prove('original marks', list(seq_of(v.attr(m, '_bocos')).lst) == [n for n, *_ in marks])
    blk = content[0][0]
    lists = []
    for e, shift in (('0', 0), ('1', (p - 1) * nn)):
        b = v.item(bocos, dom + e)
        v.prove(f'kind and type of {dom}{e}', v.attr(b, 'geodim') in ('bdnode', 'node') and v.attr(b, 'type') == 'boundary' and v.attr(b, 'name') == dom + e)
        res = v.meth(v.attr(b, 'index'), 'list')
        s = seq_of(res)
        q = v.arbitrary(s.n)
        lists.append((s, shift))
    (s0, _), (s1, sh) = lists
    v.prove('both ends have as many nodes', eq(s0.n, s1.n))
    v.prove_all('the end is the start in the last plane', s0.n, lambda q: eq(s1.get(q), lift(s0.get(q)) + sh))
    i = v.ivar()
    q = v.arbitrary(s0.n)
    x = s0.get(q)
    v.prove('every node of the start belongs to a cell', z3.Exists([i], z3.Or([z3.And(0 <= i, i < lift(blk.n), lift(eq(blk.arr.get(i, c), x))) for c in range(blk.nn)])))
    for c in range(blk.nn):
        v.prove_all(f'node {c} of every cell is in the start', blk.n, lambda i: v.it.models.contains(v.it, SList(s0), blk.arr.get(i, c)))


@contract('C08')
def default_direction(v):
    """two planes z = 0 and z = 1 by default"""
    m, con, content, nn, xyz, marks = mesh(v, 'quad4', 0)
    new = v.meth(m, 'export_extruded')
    v.prove('number of nodes', eq(v.attr(new, 'nnode'), nn * 2))
    got = seq_of(v.meth(new, 'nodescoord'))
    i = v.arbitrary(nn)
    for k in range(2):
        for c in range(3):
            v.prove(f'coordinate {c} of plane {k}', eq(got.get(c).get(k * nn + i), xyz[c].get(i) + (k if c == 2 else 0)))
