"""C14: GMSH files of format 2 and 4.1.  A file is a sequence of lines of words; the mesh read is the mesh it describes.
Node blocks and element blocks have any length, any coordinates, any node numbers; their number and kinds are those of the plans."""
from ..pydv.core import z3, lift, norm
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, eq, and_, or_, not_, seq_of, concat
from ..pydv import io_models as IO
from ..pydv.text_models import Word, Line, Text

GM = {'bar2': 1, 'tri3': 2, 'quad4': 3, 'tetra4': 4, 'hexa8': 5, 'prism6': 6, 'pyra5': 7, 'node1': 15}
NN = {'bar2': 2, 'tri3': 3, 'quad4': 4, 'tetra4': 4, 'hexa8': 8, 'prism6': 6, 'pyra5': 5, 'node1': 1}
DIM = {'node1': 0, 'bar2': 1, 'tri3': 2, 'quad4': 2, 'tetra4': 3, 'hexa8': 3, 'prism6': 3, 'pyra5': 3}


def text(s):
    return Line(s.split())


def lines(*a):
    return SSeq(lst=[text(x) for x in a])


class Nodes:
    """nodes numbered from 1 in any order, in blocks"""

    def __init__(self, v, sizes=(1,)):
        """sizes: least numbers of nodes of the blocks, 'one' for exactly one"""
        I, R = z3.IntSort(), z3.RealSort()
        self.sizes = [1 if least == 'one' else v.int(f'nodes{k}', least) for k, least in enumerate(sizes)]
        self.n = sum(self.sizes[1:], self.sizes[0])
        self.num = [v.fun(f'num{k}', I, I) for k in range(len(sizes))]                                     # position in the block -> number
        self.x = [[v.fun('xyz'[c] + str(k), I, R) for c in range(3)] for k in range(len(sizes))]           # position in the block -> coordinates
        where, block = v.fun('where', I, I), v.fun('block', I, I)
        for k, n in enumerate(self.sizes):
            num = self.num[k]
            v.assume(v.forall(n, lambda i: z3.And(num(i) >= 1, num(i) <= lift(self.n), where(num(i)) == i, block(num(i)) == k), pats=lambda i: [num(i)]))
        if len(sizes) > 1:
            # the numbers 1 .. n are all used
            v.c.cache['of written'] = [lambda q: z3.Implies(z3.And(q >= 0, q < lift(self.n)), z3.Or(*[
                z3.And(block(q + 1) == k, where(q + 1) >= 0, where(q + 1) < lift(n), self.num[k](where(q + 1)) == q + 1) for k, n in enumerate(self.sizes)]))]

    def v2(self):
        num, x = self.num[0], self.x[0]
        line = lambda i: Line([Word(num(i))] + [Word(f(i), True) for f in x])
        return concat([lines('$Nodes'), SSeq(lst=[Line([Word(self.n)])]), SSeq(self.n, line), lines('$EndNodes')])

    def v4(self):
        out = [lines('$Nodes'), SSeq(lst=[Line([str(len(self.sizes)), Word(self.n), '1', Word(self.n)])])]
        for k, n in enumerate(self.sizes):
            out += [SSeq(lst=[Line([str(k % 3), str(k + 1), '0', Word(n) if not isinstance(n, int) else str(n)])]),
                    SSeq(n, lambda i, f=self.num[k]: Line([Word(f(i))])),
                    SSeq(n, lambda i, x=self.x[k]: Line([Word(f(i), True) for f in x]))]
        return concat(out + [lines('$EndNodes')])


class Block:
    """elements of one type in one entity"""

    def __init__(self, v, k, etype, tag, phys, nodes, extra=()):
        self.etype, self.tag, self.phys, self.extra = etype, tag, phys, extra
        self.dim, self.nn = DIM[etype], NN[etype]
        self.n = v.int(f'size{k}', 1)
        self.fname = f'node{k}'
        self.node = v.fun(f'node{k}', z3.IntSort(), z3.IntSort(), z3.IntSort())        # (element, corner) -> node number from 1
        self.label = v.fun(f'label{k}', z3.IntSort(), z3.IntSort())
        v.assume(v.forall(self.n, lambda i: z3.And(*[z3.And(self.node(i, c) >= 1, self.node(i, c) <= lift(nodes.n)) for c in range(self.nn)]), pats=lambda i: [self.node(i, 0)]))
        v.c.cuts.append((self.n, [1]))

    def words(self, i):
        return [Word(self.node(i, c)) for c in range(self.nn)]

    def v2(self):
        tags = [str(self.phys), str(self.tag), *map(str, self.extra)]
        return SSeq(self.n, lambda i: Line([Word(self.label(i)), str(GM[self.etype]), str(len(tags)), *tags, *self.words(i)]))

    def v4(self):
        return concat([SSeq(lst=[Line([str(self.dim), str(self.tag), str(GM[self.etype]), Word(self.n)])]),
                       SSeq(self.n, lambda i: Line([Word(self.label(i)), *self.words(i)]))])


def names_section(names):
    if names is None:
        return lines()
    return lines('$PhysicalNames', str(len(names)), *[f'{d} {p} "{t}"' for (d, p), t in names.items()], '$EndPhysicalNames')


def all_elements(v, blocks):
    """number of elements; loops on all the elements are cut at the first element of each block and after it"""
    total, at = 0, []
    for b in blocks:
        at += [total, total + 1]
        total = total + b.n
    if len(blocks) > 1:
        v.c.cuts.append((total, at[1:]))
    return total


def file_v2(v, version, names, nodes, blocks):
    total = all_elements(v, blocks)
    return concat([lines('$MeshFormat', f'{version} 0 8', '$EndMeshFormat'), names_section(names), nodes.v2(),
                   lines('$Elements'), SSeq(lst=[Line([Word(total)])]), *[b.v2() for b in blocks], lines('$EndElements')])


def entities(blocks, others):
    ents = {}
    for b in blocks:
        ents[b.dim, b.tag] = b.phys
    ents.update(others)
    out = [' '.join(str(sum(d == k for d, _ in ents)) for k in range(4))]
    for d in range(4):
        for (dd, t), p in ents.items():
            if dd == d:
                box = '0 0.5 -1e-07' if d == 0 else '0 0 0 1 1 -1e-07'
                out.append(f'{t} {box} ' + (f'1 {p}' if p else '0') + (' 2 3 -7' if d else ''))
    return lines('$Entities', *out, '$EndEntities')


def file_v4(v, names, nodes, blocks, others):
    total = all_elements(v, blocks)
    return concat([lines('$MeshFormat', '4.1 0 8', '$EndMeshFormat'), names_section(names), entities(blocks, others), nodes.v4(),
                   lines('$Elements'), SSeq(lst=[Line([str(len(blocks)), Word(total), '1', Word(total)])]), *[b.v4() for b in blocks], lines('$EndElements')])


def read(v, content):
    from cfdtools.gmsh.reader import reader
    p = IO.F_JOIN(v.text('folder'), IO.known_name(v.text('file')))
    IO.fs().write(IO.as_path(p), Text(content))
    r = v.call(reader, p)
    v.meth(r, 'read_data')
    return r


def found(v, block, p):
    """ranks of the node at position p of the lists of the block: in their sorted distinct values, in the union of such lists, ..
    (instances of the property of np.unique)"""
    ranks, sizes = [], [0]
    for _, u, m, rk, s in [g for g in v.c.ghosts if g[0] == 'unique']:
        form = str(s.get(z3.Int('canon!un')))
        if '%' in form:        # values of a raveled array
            at = [p] if f'%{block.nn}' in form and block.fname + '!' in form else []
        else:
            at = [norm(lift(o) + r) for o in sizes for r in ranks]
        for q in map(lift, at):
            v.c.assume(z3.Implies(z3.And(0 <= q, q < lift(s.n)), z3.And(0 <= rk(q), rk(q) < m, u(rk(q)) == lift(s.get(q)))))
        ranks = ranks + [rk(lift(q)) for q in at]
        sizes.append(m)


def described(v, m, dim, names, nodes, blocks):
    """the mesh is the one of the file"""
    v.prove('number of nodes', eq(v.attr(m, 'nnode'), nodes.n))
    xyz = seq_of(v.meth(m, 'nodescoord'))
    for k, n in enumerate(nodes.sizes):
        for c in range(3):
            v.prove_all(f'coordinate {"xyz"[c]} of the nodes of block {k}', n, lambda i: eq(xyz.get(c).get(nodes.num[k](i) - 1), nodes.x[k][c](lift(i))))
    cells = [b for b in blocks if b.dim == dim]
    con = v.attr(m, '_cell2node')
    v.prove('types of the cells', sorted(seq_of(v.meth(con, 'elems')).lst) == sorted({b.etype for b in cells}))
    v.prove('number of cells', eq(v.attr(m, 'ncell'), sum((b.n for b in cells), 0)))
    for t in seq_of(v.meth(con, 'elems')).lst:
        mine = [b for b in cells if b.etype == t]
        arr = v.it.models.getitem(v.it, con, t)
        v.prove(f'shape of {t}', and_(eq(arr.shape[0], sum((b.n for b in mine), 0)), eq(arr.shape[1], NN[t])))
        off = 0
        for b in mine:
            v.prove_all(f'{t} of block {blocks.index(b)}', b.n, lambda i: and_(*[eq(arr.get(off + i, c), b.node(i, c) - 1) for c in range(b.nn)]))
            off = off + b.n
    if names is None:
        return
    # marks
    bocos = v.attr(m, '_bocos').d
    expected = {}
    for b in blocks:
        name = names.get((dim - 1, b.phys))
        if b.dim == dim - 1 and name is not None and name != 'fluid':
            expected.setdefault(name, []).append(b)
    v.prove('names of the marks', sorted(bocos) == sorted(expected))
    for name, mine in expected.items():
        if name not in bocos:
            continue
        mark = bocos[name]
        v.prove(f'{name}: nodes mark', v.attr(mark, 'geodim') == 'bdnode' and v.attr(mark, 'name') == name)
        index = seq_of(v.meth(v.attr(mark, 'index'), 'list'))
        member = v.it.models.set_of_seq(index).member
        for b in mine:
            same = [x for x in mine if (x.tag, x.etype) == (b.tag, b.etype)]
            off = sum((x.n for x in same[:same.index(b)]), 0)

            def there(i):
                for c in range(b.nn):
                    found(v, b, norm((off + i) * b.nn + c))
                return and_(*[member(b.node(i, c) - 1) for c in range(b.nn)])
            v.prove_all(f'{name}: has the nodes of block {blocks.index(b)}', b.n, there)
        from ..pydv.values import SSet
        have = SSet(concat([SSeq(b.n, lambda i, b=b, c=c: b.node(i, c) - 1) for b in mine for c in range(b.nn)]))
        v.prove_all(f'{name}: has no other node', index.n, lambda q: have.member(index.get(q)))


# dimension, physical names, element blocks (type, entity tag, physical tag, further tags of format 2), entities without elements
PLANS = {
    'quads': (2, {(1, 1): 'wall', (2, 2): 'fluid'}, [('bar2', 1, 1), ('quad4', 1, 2)], {}),
    'two walls': (2, {(1, 3): 'wall', (1, 1): 'out let', (2, 2): 'fluid'}, [('quad4', 1, 2), ('bar2', 1, 3), ('bar2', 2, 1)], {(0, 1): 3}),
    'one name': (2, {(1, 3): 'wall'}, [('tri3', 4, 0), ('bar2', 7, 3), ('bar2', 2, 3)], {(0, 7): 0, (0, 2): 3, (2, 7): 1}),
    'mixed': (2, {(1, 1): 'a', (0, 1): 'b', (2, 1): 'c'}, [('node1', 1, 1), ('quad4', 1, 1), ('bar2', 1, 1), ('tri3', 1, 1)], {}),
    'no names': (2, None, [('bar2', 1, 0), ('quad4', 1, 0)], {}),
    'no physical tag': (2, {(1, 5): 'wall'}, [('bar2', 1, 0), ('bar2', 5, 5), ('quad4', 1, 0)], {}),
    'hexa': (3, {(2, 1): 'wall', (3, 1): 'volume', (1, 1): 'edge'}, [('bar2', 1, 1), ('quad4', 1, 1), ('hexa8', 1, 1)], {(0, 1): 0}),
    'prisms': (3, {(2, 1): 'wall', (3, 7): 'fluid'}, [('prism6', 1, 7, (2, 1, -3)), ('quad4', 6, 1, (1, 4)), ('tri3', 6, 1), ('prism6', 2, 0)], {(1, 6): 2}),
    'tetra': (3, {(2, 4): 'fluid', (2, 6): 'inlet'}, [('tri3', 2, 4), ('tetra4', 2, 4), ('tri3', 3, 6), ('pyra5', 1, 4)], {(1, 3): 4}),
}


@contract('C14', bound='at most 4 element blocks', variants=[f'{p} {f}' for p in PLANS for f in ('2.2', '4.1')])
def files(v, variant):
    plan, fmt = variant.rsplit(' ', 1)
    v.c.quick = True
    dim, names, kinds, others = PLANS[plan]
    nodes = Nodes(v, (1,) if fmt == '2.2' else (1, 0, 'one') if plan in ('quads', 'hexa') else ('one', 1))
    blocks = [Block(v, k, e, t, p, nodes, *extra) for k, (e, t, p, *extra) in enumerate(kinds)]
    content = file_v2(v, fmt, names, nodes, blocks) if fmt == '2.2' else file_v4(v, names, nodes, blocks, others)
    m = v.meth(read(v, content), 'export_mesh')
    described(v, m, dim, names, nodes, blocks)
