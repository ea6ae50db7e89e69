"""C01: index lists.  The abstract value of an index list is the sequence it was built from."""
from ..pydv.core import z3
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, eq, and_, seq_of, conc
from ..pydv.core import lift


def build(v, form, tag=''):
    """an index list in one of the construction forms and the sequence it denotes"""
    from cfdtools.meshbase._connectivity import indexlist
    if form == 'range':
        a, b = v.int('a' + tag), v.int('b' + tag)
        v.assume(b >= a - 1)
        return v.call(indexlist, irange=SList([a, b])), SSeq(b - a + 1, lambda i: a + i)
    if form == 'range array':
        a, b = v.int('a' + tag), v.int('b' + tag)
        v.assume(b >= a - 1)
        arr = SArr([2], lambda i: SSeq(lst=[a, b]).get(i), 'i')
        return v.call(indexlist, irange=arr), SSeq(b - a + 1, lambda i: a + i)
    n = v.int('n' + tag, 0)
    s = v.seq('s' + tag, n)
    if form == 'list':
        return v.call(indexlist, ilist=SList(s)), s
    return v.call(indexlist, ilist=SArr([n], lambda i: s.get(i), 'i')), s


FORMS = ('range', 'range array', 'list', 'array')


def denotes(v, what, il, s):
    v.seq_eq(what + ': list()', v.meth(il, 'list'), s)
    v.prove(what + ': size', eq(v.attr(il, 'size'), s.n))


@contract('C01', variants=FORMS)
def construction(v, form):
    il, s = build(v, form)
    denotes(v, 'new', il, s)
    v.prove('type', v.attr(il, 'type') == ('range' if form.startswith('range') else 'list'))
    i = v.int('i')
    v.assume(z3.And(0 <= i, i < lift(s.n)))
    v.prove('item', eq(v.item(il, i), s.get(i)))
    denotes(v, 'after reads', il, s)


@contract('C01', variants=FORMS)
def shift(v, form):
    il, s = build(v, form)
    d = v.int('d')
    r = v.meth(il, 'shift', d)
    denotes(v, 'shifted', r, s.map(lambda x: x + d))
    denotes(v, 'operand', il, s)
    v.meth(r, 'append', SList([7]))
    denotes(v, 'operand after growth of the result', il, s)


@contract('C01', variants=FORMS)
def compress(v, form):
    il, s = build(v, form)
    v.meth(il, 'compress')
    denotes(v, 'compressed', il, s)
    i = z3.Int('i')
    run = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(s.n) - 1), lift(eq(s.get(i + 1), s.get(i) + 1))))
    if v.attr(il, 'type') == 'range':
        v.prove('range form only of a run of consecutive integers', run)
    else:
        v.induct(s.n, lambda j: lift(eq(s.get(j), s.get(z3.IntVal(0)) + j)))
        v.prove('a run of consecutive integers is left in range form', z3.Not(run))


@contract('C01', variants=[f'{a}+{b}' for a in ('range', 'list') for b in ('range', 'list')])
def concatenation(v, form):
    fa, fb = form.split('+')
    a, sa = build(v, fa, 'A')
    b, sb = build(v, fb, 'B')
    from ..pydv.values import concat
    r = v.it.models.binop(v.it, 'Add', a, b)
    denotes(v, 'sum', r, concat([sa, sb]))
    denotes(v, 'left operand', a, sa)
    denotes(v, 'right operand', b, sb)
    v.meth(r, 'append', SList([7]))
    denotes(v, 'left operand after growth of the result', a, sa)
    denotes(v, 'right operand after growth of the result', b, sb)


@contract('C01', variants=FORMS)
def append(v, form):
    from ..pydv.values import concat
    il, s = build(v, form)
    m = v.int('m', 0)
    t = v.seq('t', m)
    v.meth(il, 'append', SList(t))
    denotes(v, 'appended', il, concat([s, t]))


@contract('C01', variants=('list', 'array'))
def shared(v, form):
    """two index lists built from the same list or array, and a list given to append: growth of one leaves the others alone"""
    from cfdtools.meshbase._connectivity import indexlist
    from ..pydv.values import concat
    n = v.int('n', 0)
    s = v.seq('s', n)
    src = SList(s) if form == 'list' else SArr([n], lambda i: s.get(i), 'i')
    a, b = v.call(indexlist, ilist=src), v.call(indexlist, ilist=src)
    m = v.int('m', 0)
    t = v.seq('t', m)
    tl = SList(t)
    c = v.call(indexlist, ilist=tl)
    v.meth(a, 'append', tl)
    denotes(v, 'grown', a, concat([s, t]))
    denotes(v, 'built from the same values', b, s)
    v.meth(a, 'append', SList([3]))
    denotes(v, 'grown twice', a, concat([s, t, SSeq(lst=[3])]))
    denotes(v, 'built from the same values, after two', b, s)
    denotes(v, 'built from the appended list', c, t)
    v.meth(b, 'compress')
    denotes(v, 'first after compression of the other', a, concat([s, t, SSeq(lst=[3])]))
    v.seq_eq('appended list', tl, t)


@contract('C01')
def sequence_of_operations(v):
    """representation changes in the middle of a history: compress, shift, append, compress"""
    from ..pydv.values import concat
    il, s = build(v, 'list')
    v.meth(il, 'compress')
    d = v.int('d')
    r = v.meth(il, 'shift', d)
    m = v.int('m', 0)
    t = v.seq('t', m)
    v.meth(r, 'append', SList(t))
    v.meth(r, 'compress')
    denotes(v, 'result', r, concat([s.map(lambda x: x + d), t]))
    denotes(v, 'operand', il, s)
