"""C02: element containers.  Abstract value: the sequence of (index, node list) pairs, type by type."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, SSet, eq, and_, or_, seq_of, conc, concat


class Block:
    """n elements of a type: index sequence and node array"""

    def __init__(self, v, etype, tag, nn=None, n=None):
        from cfdtools.meshbase._elements import nnode_elem
        self.etype, self.nn = etype, nn or nnode_elem[etype]
        self.n = v.int('n' + tag, 0) if n is None else n
        self.arr = v.array('e' + tag, [self.n, self.nn])
        self.index = v.seq('x' + tag, self.n)

    def pairs(self, index=None):
        index = index or self.index
        return SSeq(self.n, lambda i: (index.get(i), SList(SSeq(self.nn, lambda c: self.arr.get(i, c)))))

    def ilist(self, v):
        from cfdtools.meshbase._connectivity import indexlist
        return v.call(indexlist, ilist=SList(self.index))


def container(v, blocks, explicit):
    """container built by adding the blocks; list of (block, index sequence)"""
    from cfdtools.meshbase._connectivity import elem_connectivity
    con = v.call(elem_connectivity)
    cnt = 0
    out = []
    for b, ex in zip(blocks, explicit):
        add(v, con, b, ex)
        out.append((b, b.index if ex else SSeq(b.n, lambda i, cnt=cnt: cnt + i)))
        cnt = cnt + b.n
    return con, out


def add(v, con, b, explicit):
    if explicit:
        v.meth(con, 'add_elems', b.etype, b.arr, b.ilist(v))
    else:
        v.meth(con, 'add_elems', b.etype, b.arr)


def grouped(content):
    """type by type, in order of first addition"""
    types = []
    for b, _ in content:
        if b.etype not in types:
            types.append(b.etype)
    return [(b, x) for t in types for b, x in content if b.etype == t]


def shows(v, what, con, content):
    g = grouped(content)
    v.seq_eq(what + ': (index, nodes) pairs', v.meth(con, 'index_elem_tuples'), concat([b.pairs(x) for b, x in g]))
    v.seq_eq(what + ': all indices', v.meth(con, 'all_index'), concat([x for _, x in g]))
    v.prove(what + ': number of elements', eq(v.attr(con, 'nelem'), sum((b.n for b, _ in content), 0)))
    types = []
    for b, _ in g:
        if b.etype not in types:
            types.append(b.etype)
    v.prove(what + ': types', list(seq_of(v.meth(con, 'elems')).lst) == types)
    for t in types:
        want = concat([b.arr.rows() for b, _ in g if b.etype == t])
        got = v.it.models.getitem(v.it, con, t)
        v.prove(what + f': shape of {t}', and_(eq(got.shape[0], want.n), eq(got.shape[1], [b.nn for b, _ in g if b.etype == t][0])))


# types of the blocks: nothing before, same type, other type, same again, three kinds
PLANS = {'first': ('tri3',), 'same': ('tri3', 'tri3'), 'other': ('hexa8', 'prism6'), 'mixed': ('tri3', 'quad4', 'tri3'), 'three': ('tetra4', 'pyra5', 'hexa8')}


@contract('C02', variants=list(PLANS))
def add_elems(v, plan):
    """every addition (with or without index) keeps what is there and numbers the block from the number of elements present"""
    types = PLANS[plan]
    blocks = [Block(v, t, str(k)) for k, t in enumerate(types)]
    explicit = [v.choose(False, True) for _ in types]
    con, content = container(v, blocks, explicit)
    shows(v, 'container', con, content)
    shows(v, 'container read again', con, content)


@contract('C02', bound='at most 3 containers of 2 types', variants=['a+b', 'a+a', 'ab+a', 'a+b+a', 'a+ba', 'a', 'ab', 'a>a', 'a>b', 'ab>b+a'])
def merge(v, plan):
    from cfdtools.meshbase._connectivity import elem_connectivity
    T = {'a': 'tri3', 'b': 'quad4'}
    cons, want, shift = [], [], 0
    ex = v.choose(False, True)
    there, plan = plan.split('>') if '>' in plan else ('', plan)
    m = v.call(elem_connectivity)
    for k, t in enumerate(there):   # elements that the target already holds
        b = Block(v, T[t], f'T{k}')
        add(v, m, b, True)
        want.append((b, b.index))
    held = sum((b.n for b, _ in want), 0)
    for i, part in enumerate(plan.split('+')):
        blocks = [Block(v, T[t], f'{i}{k}') for k, t in enumerate(part)]
        con, content = container(v, blocks, [ex] * len(blocks))
        cons.append((con, content))
        for b, x in content:
            want.append((b, x.map(lambda y, shift=shift: y + shift)))
        shift = shift + sum((b.n for b in blocks), 0)
    v.meth(m, 'importfrom_merge', tuple(c for c, _ in cons))
    shows(v, 'merged', m, want)
    for i, (c, content) in enumerate(cons):
        shows(v, f'source {i}', c, content)
    # growth of the result leaves the sources alone
    extra = Block(v, 'tri3', 'E')
    add(v, m, extra, False)
    shows(v, 'merged and grown', m, want + [(extra, SSeq(extra.n, lambda i: held + shift + i))])
    for i, (c, content) in enumerate(cons):
        shows(v, f'source {i} after growth of the result', c, content)


@contract('C02', variants=['one', 'two'])
def nodes_of_elements(v, plan):
    """nodes of a list of elements: exactly the nodes of the elements of these indices (distinct indices)"""
    blocks = [Block(v, t, str(k)) for k, t in enumerate(('tri3', 'quad4')[:1 if plan == 'one' else 2])]
    con, content = container(v, blocks, [True] * len(blocks))
    allx = concat([x for _, x in content])
    v.distinct(allx)
    m = v.int('m', 0)
    req = v.seq('req', m)
    pos = v.fun('pos', z3.IntSort(), z3.IntSort())
    v.assume(v.forall(m, lambda k: and_(pos(k) >= 0, pos(k) < lift(allx.n), lift(eq(allx.get(pos(k)), req.get(k)))), pats=lambda k: [req.get(k)]))
    res = v.meth(con, 'nodes_of_indexlist', SList(req))
    s = seq_of(res)
    pairs = concat([b.pairs(x) for b, x in content])
    # every node of a requested element is listed
    k = v.arbitrary(m)
    off = 0
    for b, _ in content:
        p = pos(k)
        inb = z3.And(p >= lift(off), p < lift(off + b.n))
        for c in range(b.nn):
            mem = v.it.models.contains(v.it, res, b.arr.get(p - off, c))
            v.prove(f'node {c} of a requested {b.etype} is listed', z3.Implies(inb, lift(mem)))
        off = off + b.n
    # every listed node belongs to a requested element
    q = v.arbitrary(s.n)
    x = s.get(q)
    kk = v.ivar('kk')
    alts = []
    off = 0
    for b, _ in content:
        for c in range(b.nn):
            p = pos(kk)
            alts.append(z3.And(p >= lift(off), p < lift(off + b.n), lift(eq(b.arr.get(p - off, c), x))))
        off = off + b.n
    v.prove('every listed node belongs to a requested element', z3.Exists([kk], z3.And(0 <= kk, kk < lift(m), z3.Or(alts))))
    v.prove('no node is listed twice', v.forall([s.n, s.n], lambda a, b: z3.Implies(a != b, z3.Not(lift(eq(s.get(a), s.get(b)))))))


@contract('C02', variants=['one', 'two'])
def all_nodes(v, plan):
    blocks = [Block(v, t, str(k)) for k, t in enumerate(('tri3', 'quad4')[:1 if plan == 'one' else 2])]
    con, content = container(v, blocks, [False] * len(blocks))
    res = v.meth(con, 'nodelist')
    s = seq_of(res)
    for b in blocks:
        for c in range(b.nn):
            v.prove_all(f'node {c} of {b.etype} is listed', b.n, lambda i: v.it.models.contains(v.it, res, b.arr.get(i, c)))
    q = v.arbitrary(s.n)
    x = s.get(q)
    i, = [v.ivar()]
    v.prove('every listed node belongs to an element', z3.Exists([i], z3.Or([z3.And(0 <= i, i < lift(b.n), lift(eq(b.arr.get(i, c), x))) for b in blocks for c in range(b.nn)])))
    v.prove('no node is listed twice', v.forall([s.n, s.n], lambda a, b: z3.Implies(a != b, z3.Not(lift(eq(s.get(a), s.get(b)))))))
