"""C06: renumbering of the boundary faces by marks."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, eq, and_, or_, not_, seq_of, conc, concat
from .c02 import Block, container

KINDS = ('bdface', 'face')


def mark(v, name, s, kind='bdface', mtype='boundary', rng=None):
    from cfdtools.meshbase._mesh import submeshmark
    from cfdtools.meshbase._connectivity import indexlist
    mk = v.call(submeshmark, name)
    v.setattr(mk, 'geodim', kind)
    v.setattr(mk, 'type', mtype)
    v.setattr(mk, 'index', v.call(indexlist, ilist=SList(s)) if rng is None else v.call(indexlist, irange=rng))
    return mk


def boundary(v, plan):
    """mesh with boundary faces of the given types, any index (~: ranges), any owners"""
    from cfdtools.meshbase._mesh import Mesh
    from cfdtools.meshbase._connectivity import indexindirection
    blocks = [Block(v, t, str(k)) for k, t in enumerate(plan.rstrip('~').split('+'))]
    con, content = container(v, blocks, [plan[-1] != '~'] * len(blocks))
    N = sum((b.n for b in blocks), 0)
    conn = v.array('f2c', [N, 2], 'i')
    m = v.call(Mesh, 0, 0)
    v.meth(m, 'add_faces', 'boundary', con, v.call(indexindirection, conn))
    return m, con, content, N, conn.copy()


@contract('C06', bound='at most 3 marks (of any size), at most 2 face types', variants=['tri3:1', 'tri3+quad4:1', 'quad4:2', 'tri3+quad4:2', 'quad4+tri3:3', 'quad4~:1', 'tri3+quad4~:2'])
def renumbering(v, plan):
    types, nm = plan.split(':')
    m, con, content, N, conn = boundary(v, types)
    v.assume(lift(N) >= 1)
    # the marks are a partition of 0..N-1
    sizes = [v.int(f'nm{k}', 0) for k in range(int(nm))]
    seqs = [v.seq(f'mark{k}', n) for k, n in enumerate(sizes)]
    old = concat(seqs)
    v.assume(eq(old.n, N))
    v.distinct(old)
    for s in seqs:
        v.assume(v.forall(s.n, lambda p: z3.And(s.get(p) >= 0, s.get(p) < lift(N)), pats=lambda p: [s.get(p)]))
    for b, x in content:
        v.assume(v.forall(b.n, lambda i: z3.And(lift(x.get(i)) >= 0, lift(x.get(i)) < lift(N)), pats=lambda i: [lift(x.get(i))]))
    kinds = [KINDS[k % 2] for k in range(len(seqs))]
    types_ = [['boundary', 'perio_cart', 'internal'][k % 3] for k in range(len(seqs))]
    for k, s in enumerate(seqs):
        v.meth(m, 'add_boco', mark(v, f'm{k}', s, kinds[k], types_[k]))
    v.meth(m, 'reindex_boundaryfaces')
    bocos = v.attr(m, '_bocos')
    v.prove('marks', list(seq_of(bocos).lst) == [f'm{k}' for k in range(len(seqs))])
    start = 0
    for k, s in enumerate(seqs):
        b = v.item(bocos, f'm{k}')
        v.prove(f'mark {k}: name, kind and type', (v.attr(b, 'name'), v.attr(b, 'geodim'), v.attr(b, 'type')) == (f'm{k}', kinds[k], types_[k]))
        idx = v.attr(b, 'index')
        v.prove(f'mark {k} is a range', v.attr(idx, 'type') == 'range')
        r = seq_of(v.meth(idx, 'list'))
        v.prove(f'size of mark {k}', eq(r.n, s.n))
        v.prove_all(f'mark {k} follows the previous ones', s.n, lambda p: eq(r.get(p), start + p))
        start = start + s.n
    faces = v.item(v.attr(m, '_faces'), 'boundary')
    new = v.item(faces, 'face2node')
    conn2 = v.attr(v.item(faces, 'face2cell'), 'conn')
    v.prove('number of owners', eq(conn2.shape[0], N))
    pairs = seq_of(v.meth(new, 'index_elem_tuples'))
    v.prove('number of faces', eq(pairs.n, N))
    off = 0
    for b, x in content:
        def face(i):
            w, nodes = pairs.get(off + i)
            nodes = seq_of(nodes)
            return [lift(w) >= 0, lift(w) < lift(N), eq(old.get(w), x.get(i)), eq(nodes.n, b.nn),
                    *[eq(nodes.get(c), b.arr.get(i, c)) for c in range(b.nn)],
                    *[eq(conn2.get(w, c), conn.get(x.get(i), c)) for c in range(2)]]
        v.prove_all(f'every {b.etype} face keeps its mark position, nodes and owner', b.n, face)
        off = off + b.n
    v.prove_all('new owners', N, lambda w: and_(*[eq(conn2.get(w, c), conn.get(old.get(w), c)) for c in range(2)]))


@contract('C06', bound='at most 2 marks (of any size)', variants=[1, 2])
def refusal(v, nm):
    """accepted marks are distinct faces, 0 included, none beyond the number of marked faces"""
    m, con, content, N, conn = boundary(v, 'quad4')
    v.assume(lift(N) >= 1)
    sizes = [v.int(f'nm{k}', nm - 1) for k in range(nm)]     # empty marks: with one mark only
    seqs = [v.seq(f'mark{k}', n) for k, n in enumerate(sizes)]
    old = concat(seqs)
    for s in seqs:
        v.assume(v.forall(s.n, lambda p: s.get(p) >= 0, pats=lambda p: [s.get(p)]))
    v.assume(lift(old.n) <= lift(N))
    for b, x in content:     # every face exists: what is refused is because of the marks
        v.assume(v.forall(b.n, lambda i: z3.And(lift(x.get(i)) >= 0, lift(x.get(i)) < lift(old.n)), pats=lambda i: [lift(x.get(i))]))
    for k, s in enumerate(seqs):
        v.meth(m, 'add_boco', mark(v, f'm{k}', s))
    if v.raises(lambda: v.meth(m, 'reindex_boundaryfaces'), BaseException) is not None:
        v.prove('refused', True)
        return
    for s in seqs:
        v.prove_all('no face beyond the marked ones', s.n, lambda p: lift(s.get(p)) < lift(old.n))
    q = v.ivar()
    v.prove('face 0 is marked', z3.Exists([q], z3.And(0 <= q, q < lift(old.n), lift(eq(old.get(q), 0)))))
    for k, s in enumerate(seqs):
        v.prove_all(f'no face is marked twice by mark {k}', [s.n, s.n], lambda p, q: z3.Implies(p != q, lift(not_(eq(s.get(p), s.get(q))))))
        for t in seqs[:k]:
            v.prove_all('no face is marked by two marks', [s.n, t.n], lambda p, q: not_(eq(s.get(p), t.get(q))))


@contract('C06', variants=['bdnode', 'node', 'cell'])
def refusal_of_other_marks(v, kind):
    """only marks of faces can be renumbered"""
    m, con, content, N, conn = boundary(v, 'quad4')
    s = v.seq('mark', N)
    v.meth(m, 'add_boco', mark(v, 'm', s, kind))
    e = v.raises(lambda: v.meth(m, 'reindex_boundaryfaces'), BaseException)
    v.prove('refused', e is not None)
