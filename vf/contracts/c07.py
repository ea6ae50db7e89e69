"""C07: node marks to face marks, completion of the marks."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, SSet, eq, and_, or_, not_, seq_of, conc, concat
from .c02 import Block, container, shows
from .c06 import boundary, mark


def among(v, s, x):
    """term: x is an item of the sequence"""
    p = v.ivar('p')
    return z3.Or([z3.Exists([p], z3.And(0 <= p, p < lift(q.n), lift(eq(q.get(p), x)))) if q.lst is None else z3.Or([lift(eq(y, x)) for y in q.lst])
                  for _, q in s.segments()])


def untouched(v, m, name, kind, mtype, s, extra=None):
    b = v.item(v.attr(m, '_bocos'), name)
    v.prove(f'{name}: name, kind, type', (v.attr(b, 'name'), v.attr(b, 'geodim'), v.attr(b, 'type')) == (name, kind, mtype))
    v.seq_eq(f'{name}: content', v.meth(v.attr(b, 'index'), 'list'), s)
    pr = v.attr(b, 'properties')
    if extra:
        for k, x in extra.items():
            v.prove(f'{name}: property {k}', v.it.models.getitem(v.it, pr, k) == x)


@contract('C07', bound='at most 2 face types, a node mark and at most one face mark, of any size', variants=['quad4', 'bar2+bar2', 'tri3+quad4', 'bar2~', 'quad4+tri3~'])
def node_marks(v, types):
    m, con, content, N, conn = boundary(v, types)
    kind = v.choose('bdnode', 'node', 'intnode')
    ns = v.seq('nodes', v.int('nn', 0))
    mk = mark(v, 'bynode', ns, kind, 'perio_cart')
    v.it.models.setitem(v.it, v.attr(mk, 'properties'), 'user', 42)
    nf = v.int('nf', 0)
    fs = v.seq('faces', nf) if '~' not in types else SSeq(nf, lambda i: 3 + i)
    v.meth(m, 'add_boco', mark(v, 'byface', fs, 'bdface', 'internal') if '~' not in types else mark(v, 'byface', None, 'bdface', 'internal', rng=SList([3, nf + 2])))
    v.meth(m, 'add_boco', mk)
    v.meth(m, 'bocomarks_set_node_to_face')
    v.prove('marks', list(seq_of(v.attr(m, '_bocos')).lst) == ['byface', 'bynode'])
    untouched(v, m, 'byface', 'bdface', 'internal', fs)
    b = v.item(v.attr(m, '_bocos'), 'bynode')
    v.prove('bynode: name, kind, type', (v.attr(b, 'name'), v.attr(b, 'type')) == ('bynode', 'perio_cart') and v.attr(b, 'geodim') in ('face', 'bdface'))
    v.prove('bynode: property', v.it.models.getitem(v.it, v.attr(b, 'properties'), 'user') == 42)
    r = seq_of(v.meth(v.attr(b, 'index'), 'list'))
    for blk, x in content:
        def complete(i):
            allin = and_(*[among(v, ns, blk.arr.get(i, c)) for c in range(blk.nn)])
            return z3.Implies(lift(allin), lift(v.it.models.contains(v.it, SList(r), x.get(i))))
        v.prove_all(f'every {blk.etype} face with all its nodes in the mark is listed', blk.n, complete)
    q = v.arbitrary(r.n)
    i = v.ivar()
    alts = [z3.Exists([i], z3.And(0 <= i, i < lift(blk.n), lift(eq(x.get(i), r.get(q))), *[among(v, ns, blk.arr.get(i, c)) for c in range(blk.nn)])) for blk, x in content]
    v.prove('every listed face has all its nodes in the mark', z3.Or(alts))
    shows(v, 'faces', con, content)


@contract('C07', bound='at most 2 face types, at most 2 marks of any size', variants=['quad4:0', 'quad4:1', 'tri3+quad4:1', 'quad4:2', 'quad4~:1'])
def completion(v, plan):
    types, nm = plan.split(':')
    m, con, content, N, conn = boundary(v, types)
    seqs = [v.seq(f'mark{k}', v.int(f'nm{k}', 0)) for k in range(int(nm))]
    for k, s in enumerate(seqs):
        v.meth(m, 'add_boco', mark(v, f'm{k}', s, ['face', 'bdface'][k % 2], ['internal', 'boundary'][k % 2]))
    name = v.choose(None, 'rest of the boundary')
    res = v.meth(m, 'make_unmarked_BC', name) if name else v.meth(m, 'make_unmarked_BC')
    name = name or 'unmarked_faces'
    for k, s in enumerate(seqs):
        untouched(v, m, f'm{k}', ['face', 'bdface'][k % 2], ['internal', 'boundary'][k % 2], s)
    got = list(seq_of(v.attr(m, '_bocos')).lst)
    allx = concat([x for _, x in content])
    marked = concat(seqs)
    miss = seq_of(res)
    if name in got:
        v.prove('marks', got == [f'm{k}' for k in range(len(seqs))] + [name])
        b = v.item(v.attr(m, '_bocos'), name)
        v.prove('kind, type, name', v.attr(b, 'geodim') in ('face', 'bdface') and v.attr(b, 'type') == 'boundary' and v.attr(b, 'name') == name)
        r = seq_of(v.meth(v.attr(b, 'index'), 'list'))
        v.seq_eq('reported faces', res, r)
        v.prove('some face is missing', lift(r.n) > 0)
        v.prove_all('no face is listed twice', [r.n, r.n], lambda p, q: z3.Implies(p != q, lift(not_(eq(r.get(p), r.get(q))))))
        q = v.arbitrary(r.n)
        v.prove('a listed face belongs to the boundary', among(v, allx, r.get(q)))
        v.prove('a listed face is in no mark', z3.Not(among(v, marked, r.get(q))))
        for blk, x in content:
            v.prove_all(f'{blk.etype}: a face in no mark is listed', blk.n,
                        lambda i: z3.Or(among(v, marked, x.get(i)), lift(v.it.models.contains(v.it, SList(r), x.get(i)))))
    else:
        v.prove('marks', got == [f'm{k}' for k in range(len(seqs))])
        v.prove('nothing is reported', eq(miss.n, 0))
        for blk, x in content:
            v.prove_all(f'{blk.etype}: every face is in a mark', blk.n, lambda i: among(v, marked, x.get(i)))
    shows(v, 'faces', con, content)


@contract('C07', variants=['bdnode', 'cell'])
def completion_needs_face_marks(v, kind):
    m, con, content, N, conn = boundary(v, 'quad4')
    v.meth(m, 'add_boco', mark(v, 'm', v.seq('s', v.int('n', 0)), kind))
    v.prove('refused', v.raises(lambda: v.meth(m, 'make_unmarked_BC'), BaseException) is not None)
