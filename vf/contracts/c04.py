"""C04: compressed (CSR) face connectivity."""
from ..pydv.core import z3, lift, norm
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, eq, and_, or_, seq_of, conc, concat
from .c02 import Block, container, shows

FACES = ('bar2', 'tri3', 'quad4')


@contract('C04', bound='face types bar2, tri3, quad4 (every type with a face node count)')
def import_compressed(v):
    """every face gets its position as index, its nodes in order, under the face type of its node count"""
    from cfdtools.meshbase._connectivity import compressed_listofindex, elem_connectivity
    n = v.int('n', 0)
    sz = v.fun('sz', z3.IntSort(), z3.IntSort())
    v.assume(v.forall(n, lambda i: z3.Or([sz(i) == k for k in (2, 3, 4)]), pats=lambda i: [sz(i)]))
    off = v.it.models.prefix_sum(sz, n)
    index = SArr([n + 1], lambda i: off(i), 'i')
    tot = v.int('tot', 0)
    v.assume(tot == off(n))
    val = v.array('val', [tot], 'i')
    z = v.call(compressed_listofindex, index, val)
    con = v.call(elem_connectivity)
    v.meth(con, 'importfrom_compressedindex', z)
    v.prove('number of faces', eq(v.attr(con, 'nelem'), n))
    every = v.meth(con, 'all_index')
    p = v.ivar('p')
    v.lemma('size of the face', z3.Implies(z3.And(0 <= p, p < n), sz(p) >= 2))
    v.prove('every face is imported', z3.Implies(z3.And(0 <= p, p < n), lift(v.it.models.contains(v.it, every, p))))
    tuples = seq_of(v.meth(con, 'index_elem_tuples'))
    q = v.arbitrary(tuples.n)
    i, nodes = tuples.get(q)
    nodes = seq_of(nodes)
    v.prove('index is a position', and_(lift(i) >= 0, lift(i) < n))
    v.prove('node count', eq(nodes.n, sz(i)))
    c = v.int('c', 0)
    v.assume(c < lift(nodes.n))
    v.prove('nodes in order', eq(nodes.get(c), val.get(off(i) + c)))


def ranges(v, blocks, order):
    """blocks numbered by ranges that follow each other in the given order"""
    from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
    first, n = {}, 0
    for k in order:
        first[k], n = n, n + blocks[k].n
    con = v.call(elem_connectivity)
    content = []
    for k, b in enumerate(blocks):
        v.meth(con, 'add_elems', b.etype, b.arr, v.call(indexlist, irange=SList([first[k], norm(lift(first[k]) + b.n - 1)])))
        content.append((b, SSeq(b.n, lambda i, o=first[k]: norm(lift(o) + lift(i)))))
    return con, content


@contract('C04', bound='at most three blocks of two face types', variants=['quad4', 'tri3+quad4', 'quad4+tri3', 'tri3+tri3', 'tri3+quad4:01', 'quad4+tri3:10', 'tri3+quad4:default', 'tri3+quad4+tri3:120'])
def export_compressed(v, plan):
    """faces numbered 0..N-1 in any storage order: face x has its nodes at offsets index[x]..index[x+1]"""
    plan, _, how = plan.partition(':')
    blocks = [Block(v, t, str(k)) for k, t in enumerate(plan.split('+'))]
    if how in ('', 'default'):
        con, content = container(v, blocks, [not how] * len(blocks))
    else:
        con, content = ranges(v, blocks, [int(k) for k in how])
    allx = concat([x for _, x in content])
    N = allx.n
    inv = v.distinct(allx)
    for b, x in content:
        v.assume(v.forall(b.n, lambda i: z3.And(lift(x.get(i)) >= 0, lift(x.get(i)) < lift(N)), pats=lambda i: [lift(x.get(i))]))
    z = v.meth(con, 'exportto_compressedindex')
    index, value = v.attr(z, '_index'), v.attr(z, '_value')
    v.prove('number of offsets', eq(index.shape[0], N + 1))
    v.prove('first offset', eq(index.get(0), 0))
    v.prove('last offset', eq(index.get(N), value.shape[0]))
    for b, x in content:
        def face(i):
            p = x.get(i)
            return [eq(index.get(p + 1), index.get(p) + b.nn)] + [eq(value.get(index.get(p) + c), b.arr.get(i, c)) for c in range(b.nn)]
        v.prove_all(f'nodes of the faces of {b.etype}', b.n, face)
    shows(v, 'container after export', con, content)


@contract('C04', bound='face types bar2, tri3, quad4')
def import_then_export(v):
    from cfdtools.meshbase._connectivity import compressed_listofindex, elem_connectivity
    n = v.int('n', 1)
    sz = v.fun('sz', z3.IntSort(), z3.IntSort())
    v.assume(v.forall(n, lambda i: z3.Or([sz(i) == k for k in (2, 3, 4)]), pats=lambda i: [sz(i)]))
    off = v.it.models.prefix_sum(sz, n)
    index = SArr([n + 1], lambda i: off(i), 'i')
    tot = v.int('tot', 0)
    v.assume(tot == off(n))
    val = v.array('val', [tot], 'i')
    con = v.call(elem_connectivity)
    v.meth(con, 'importfrom_compressedindex', v.call(compressed_listofindex, index, val))
    z = v.meth(con, 'exportto_compressedindex')
    index2, value2 = v.attr(z, '_index'), v.attr(z, '_value')
    v.prove('number of offsets', eq(index2.shape[0], n + 1))
    v.prove('first offset', eq(index2.get(0), 0))
    v.prove_all('offsets', n, lambda i: eq(norm(lift(index2.get(i + 1)) - lift(index2.get(i))), sz(i)))
    v.prove('number of values', eq(value2.shape[0], index2.get(n)))
    for c in range(4):
        v.prove_all(f'value {c} of every face', n, lambda i: z3.Implies(sz(i) > c, lift(eq(value2.get(norm(lift(index2.get(i)) + c)), val.get(off(i) + c)))))
