"""C03: faces extracted from cells."""
from ..pydv.core import z3, lift, ckey
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, eq, and_, or_, not_, seq_of, conc, concat, subst
from ..pydv import models as M
from .c02 import Block, container, shows, grouped


def entries(v, content, tables):
    """for each face type, the faces of the cells in order: (nodes reversed, cell index)"""
    out = {}
    for b, x in grouped(content):
        for ft, faces in tables[b.etype].items():
            for f in faces:
                rev = list(reversed(f))
                out.setdefault(ft, []).append(SSeq(b.n, lambda i, b=b, x=x, rev=rev: (tuple(b.arr.get(i, c) for c in rev), x.get(i))))
    return out


def same(a, b):
    """the two faces have the same nodes"""
    lt = lambda x, y: M.lex_lt(x, y)
    return and_(*[eq(x, y) for x, y in zip(M.sort_network(list(a), lt), M.sort_network(list(b), lt))])


PLANS = ['tri3', 'quad4', 'tri3+quad4', 'tetra4', 'hexa8', 'prism6', 'pyra5', 'hexa8+prism6', 'tetra4+pyra5', 'quad4~', 'hexa8+prism6~']


@contract('C03', bound='at most 2 cell types, any number of cells', variants=PLANS,
          assumes=['the precondition "no face is shared by more than two cells" is given by a bit that tells apart the two cells of a face'])
def faces(v, plan):
    from cfdtools.meshbase._mesh import Mesh
    from cfdtools.meshbase import _elements as el
    types = plan.rstrip('~').split('+')       # ~: cells numbered by ranges
    blocks = [Block(v, t, str(k)) for k, t in enumerate(types)]
    con, content = container(v, blocks, [plan[-1] != '~'] * len(blocks))
    m = v.call(Mesh, 0, 0)
    v.setattr(m, '_cell2node', con)
    ents = entries(v, content, el.elem2faces)
    spec = {}
    for ft, parts in ents.items():
        E = concat(parts)
        N = M.named(E.map(lambda e: (tuple(M.sort_network(list(e[0]), lambda x, y: M.lex_lt(x, y))), e)), True)
        n = lift(E.n)
        B = z3.BoolSort()
        slot, alone, tw = v.fun('slot', z3.IntSort(), B), v.fun('alone', z3.IntSort(), B), v.fun('twin', z3.IntSort(), z3.IntSort())
        key = lambda p, N=N: N.get(p)[0]
        samekey = lambda p, q, key=key: z3.And(*[lift(eq(a, b)) for a, b in zip(key(p), key(q))])
        k0 = lambda p, key=key: lift(key(p)[0])
        p, q = z3.Ints('sp sq')
        both = z3.And(0 <= p, p < n, 0 <= q, q < n, p != q, samekey(p, q))
        # at most two cells have the same face: they are told apart by a bit
        v.assume(v.c.forall([p, q], z3.Implies(both, slot(p) != slot(q)), [z3.MultiPattern(k0(p), k0(q))]))
        # definition of alone, twin
        v.assume(v.c.forall([p, q], z3.Implies(both, z3.Not(alone(p))), [z3.MultiPattern(alone(p), k0(q))]))
        v.assume(v.c.forall([p], z3.Implies(z3.And(0 <= p, p < n, z3.Not(alone(p))), z3.And(0 <= tw(p), tw(p) < n, tw(p) != p, samekey(p, tw(p)))), [alone(p)]))
        spec[ft] = (parts, N, alone, tw, n)
    v.meth(m, 'make_face_connectivity')
    # helps (proved): what the groups of the code are
    groups = {ft: [g for g in v.c.ghosts if g[0] == 'group' and ckey(lift(g[1].pairs.n)) == ckey(spec[ft][4])] for ft in spec}
    for ft, (parts, N, alone, tw, n) in spec.items():
        for _, G, grp, item, cnt, rank in groups[ft]:
            g1 = lambda p: cnt(grp(p)) == 1
            p = v.ivar('p')
            v.hint(f'{ft}: groups of one', n, lambda p: alone(p) == (cnt(grp(p)) == 1), [[grp(p)], [alone(p)]], p)
            v.hint(f'{ft}: groups of two', n, lambda p: z3.Implies(z3.Not(alone(p)), z3.And(cnt(grp(p)) == 2, grp(tw(p)) == grp(p),
                   z3.Or(z3.And(item(grp(p), 0) == p, item(grp(p), 1) == tw(p)), z3.And(item(grp(p), 1) == p, item(grp(p), 0) == tw(p))))), [[grp(p)], [alone(p)]], p)

    def places(ft, nb, p):
        """where the faces may be in the result"""
        fl = [f for f in v.c.ghosts if f[0] == 'filter']
        fl = [f for f in fl if ckey(f[3]) == ckey(lift(nb))] or fl
        return [f[2](g[2](p)) for f in fl for g in groups[ft]]

    def sources(ft, nb, b):
        fl = [f for f in v.c.ghosts if f[0] == 'filter']
        fl = [f for f in fl if ckey(f[3]) == ckey(lift(nb))] or fl
        return [g[3](f[1](b), 0) for f in fl for g in groups[ft]]

    def some(x, cands, body):
        """there is an x with body(x): one of the candidates, if there are any"""
        return or_(*[body(t) for t in cands]) if cands else z3.Exists([x], body(x))
    fs = v.attr(m, '_faces')
    v.prove('two sets of faces', list(seq_of(fs).lst) == ['internal', 'boundary'] or sorted(seq_of(fs).lst) == ['boundary', 'internal'])
    for what in ('boundary', 'internal'):
        d = v.item(fs, what)
        fcon, f2c = v.item(d, 'face2node'), v.attr(v.item(d, 'face2cell'), 'conn')
        got = {ft: v.it.models.getitem(v.it, fcon, ft) for ft in seq_of(v.meth(fcon, 'elems')).lst}
        off = 0
        for ft in got:
            parts, N, alone, tw, n = spec[ft]
            nodes = got[ft]
            nb = nodes.shape[0]

            def row(b, off=off, nodes=nodes):
                return [nodes.get(b, c) for c in range(conc(nodes.shape[1]))], f2c.get(lift(off) + b, 0), f2c.get(lift(off) + b, 1)

            def is_bnd(p, b):
                nd, c0, c1 = row(b)
                e = N.get(p)[1]
                return and_(*[eq(x, y) for x, y in zip(nd, e[0])], eq(c0, e[1]), eq(c1, -1))

            def is_int(p, p2, b):
                nd, c0, c1 = row(b)
                e, e2 = N.get(p)[1], N.get(p2)[1]
                return and_(*[eq(x, y) for x, y in zip(nd, e[0])], eq(c0, e[1]), eq(c1, e2[1]))
            b = v.ivar('b')
            pp = v.ivar('p')
            if what == 'boundary':
                v.prove_all(f'{what} {ft}: every face that only one cell has is there with its cell', n,
                            lambda p: z3.Implies(alone(p), some(b, places(ft, nb, p), lambda b: z3.And(0 <= b, b < lift(nb), lift(is_bnd(p, b))))))
                v.prove_all(f'{what} {ft}: every face listed is the face of exactly one cell', nb,
                            lambda b: some(pp, sources(ft, nb, b), lambda pp: z3.And(0 <= pp, pp < n, alone(pp), lift(is_bnd(pp, b)))))
            else:
                v.prove_all(f'{what} {ft}: every face that two cells have is there with its cells', n,
                            lambda p: z3.Implies(z3.Not(alone(p)), some(b, places(ft, nb, p), lambda b: z3.And(0 <= b, b < lift(nb), z3.Or(lift(is_int(p, tw(p), b)), lift(is_int(tw(p), p, b)))))))
                v.prove_all(f'{what} {ft}: every face listed is the face of exactly two cells', nb,
                            lambda b: some(pp, sources(ft, nb, b), lambda pp: z3.And(0 <= pp, pp < n, z3.Not(alone(pp)), lift(is_int(pp, tw(pp), b)))))
            v.prove_all(f'{what} {ft}: no face is listed twice', [nb, nb], lambda a, b: z3.Implies(a != b, lift(not_(same(row(a)[0], row(b)[0])))))
            off = off + nb
        if got:
            v.prove(f'{what}: one pair of cells for each face', [eq(f2c.shape[0], off), eq(f2c.shape[1], 2)])
        else:
            v.prove(f'{what}: no face', [eq(v.attr(fcon, 'nelem'), 0)] + [lift(spec[ft][4]) == 0 for ft in spec])
        v.seq_eq(f'{what}: numbering of the faces', v.meth(fcon, 'all_index'), SSeq(off, lambda i: i))
    shows(v, 'cells', con, content)
