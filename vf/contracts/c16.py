"""C16: series of VTK files aligned with the cells of the first one."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract, Done
from ..pydv.values import SSeq, SList, SArr, eq, and_, or_, not_, seq_of, conc, is_term
from ..pydv import io_models as IO, vtk_models as VM, lib_models as LM
from .c02 import Block
from .c20 import VTK, opened


def some_grid(v, name, plan, fields, time):
    """a file with any cells, centres and values"""
    blocks = [Block(v, t, f'{name}{k}') for k, t in enumerate(plan.split('+'))]
    nn = v.int('nnode', 1)
    g = VM.Grid([(VTK[b.etype], b.arr.copy()) for b in blocks], v.array('xyz', [nn, 3], 'f'))
    v.assume(lift(g.n_cells) >= 1)
    for f, sh in fields.items():
        g.data['cell_data'].d[f] = v.array(f'{f}_{name}', [g.n_cells] + list(sh), 'f')
    if time:
        g.data['field_data'].d['TimeValue'] = v.array('time', [1], 'f')
    IO.fs().write(IO.as_path(name), g)
    return g


FIELDS = {'p': (), 'u': (3,), 'q': ()}
OTHER = {'p': (), 'w': (), 'u': (3,)}
PLANS = ['hexa8', 'tri3+quad4']


BOUND = 'two files (the reference and another one, which may have other fields); scalar fields and a vector; any number of cells, any positions, any values'


@contract('C16', variants=PLANS, bound=BOUND)
def read(v, plan):
    read_series(v, plan, *v.choose((('f0.vtu',), (True,), None), (('f0.vtu', 'f1.vtu'), (True, False), None), (('f0.vtu', 'f1.vtu'), (False, True), ('u', 'p'))))


@contract('C16', variants=PLANS, bound=BOUND)
def dump(v, plan):
    names, times, sel = ('f0.vtu', 'f1.vtu'), (True, False), ('u', 'p')
    lst, data, grids, want, nfile = read_series(v, plan, names, times, sel, False)
    path = v.text('path')
    over = v.choose(False, True)
    nw = len(IO.fs().written)
    name = v.meth(lst, 'dumphdf', path, overwrite=over)
    v.prove('one file is written', len(IO.fs().written) == nw + 1)
    fo, na, _ = IO.fs().written[-1]
    p, q = IO.as_path(path), IO.as_path(name)
    v.prove('the name returned is the file written', and_(eq(fo, q.folder), eq(na, q.name)))
    if over:
        v.prove('the requested file is written', and_(eq(fo, p.folder), eq(na, p.name)))
    else:
        v.prove('no existing file is written', z3.Not(IO.F_EXISTS(IO.ltext(fo), IO.ltext(na))))
    f = opened(v, name)
    h = v.attr(f, '_h5file')
    v.prove('data type of the file', v.attr(f, 'datatype') == 'datalist')
    v.prove('groups of the file', sorted(h.kids) == ['datalist', 'mesh'])
    dl = h.kids['datalist']
    v.prove('one group for each file, in order', sorted(dl.kids) == [f'i{k:06}' for k in range(nfile)])
    for k in range(nfile):
        grp = dl.kids[f'i{k:06}']
        v.prove(f'file {k}: fields written', sorted(grp.kids) == sorted(want))
        v.prove(f'file {k}: attributes written', sorted(grp.attrs.d) == (['time'] if times[k] else []))
        if times[k]:
            v.prove(f'file {k}: time written', eq(grp.attrs.d['time'].get(0), grids[k].data['field_data'].d['TimeValue'].get(0)))
        for m in want:
            a, b = grp.kids[m].data, data[k].d[m]
            v.prove(f'file {k}: shape of {m} written', len(a.shape) == len(b.shape) and and_(*[eq(x, y) for x, y in zip(a.shape, b.shape)]))
            v.prove_all(f'file {k}: {m} written', b.shape[0], lambda c: and_(*[eq(a.get(c, *x), b.get(c, *x)) for x in ([()] if b.ndim == 1 else [(0,), (1,), (2,)])]))
    hm = h.kids['mesh']
    g = grids[0]
    pts = hm.kids['nodes'].data
    v.prove('number of nodes written', and_(eq(pts.shape[0], g.points.shape[0]), eq(pts.shape[1], 3)))
    v.prove_all('nodes written', pts.shape[0], lambda i: and_(*[eq(pts.get(i, j), g.points.get(i, j)) for j in range(3)]))
    cells = hm.kids['cells']
    v.prove('types written', sorted(cells.kids) == sorted({t for t in plan.split('+')}))
    for code, arr in g.blocks:
        t = next(t for t in VTK if VTK[t] == code)
        a = cells.kids[t].data
        v.prove(f'number of {t} written', and_(eq(a.shape[0], arr.shape[0]), eq(a.shape[1], arr.shape[1])))
        v.prove_all(f'{t} written', arr.shape[0], lambda i: and_(*[eq(a.get(i, j), arr.get(i, j)) for j in range(conc(arr.shape[1]))]))


def read_series(v, plan, names, times, sel, check=True):
    from cfdtools.vtk import vtkList
    nfile = len(names)
    held = [FIELDS if k == 0 else OTHER for k in range(nfile)]
    grids = [some_grid(v, n, plan, f, t) for n, t, f in zip(names, times, held)]
    tol = v.real('tol')
    v.assume(tol >= 0)
    lst = v.call(vtkList, SList(list(names)))
    keep = SList(list(sel)) if sel else None
    e = v.raises(lambda: v.meth(lst, 'read', filterdata=keep, tol=tol))
    ref = grids[0].cell_centers()
    at = lambda a, i: [a.get(i, j) for j in range(3)]
    near = lambda k, j, c: LM.dist_term(at(grids[k].cell_centers(), j), at(ref, c)) <= tol
    if e is not None:
        if check:
            v.prove('a single file is read', nfile > 1)
        raise Done()
    data = seq_of(v.attr(v.attr(lst, '_data'), '_datalist')).lst
    v.prove('one set of data for each file', len(data) == nfile)
    if not check:
        return lst, data, grids, list(sel), nfile
    for k in range(nfile):
        g, d = grids[k], data[k].d
        want = list(sel or held[k])
        v.prove(f'file {k}: number of cells', eq(g.n_cells, ref.shape[0]))
        v.prove(f'file {k}: fields', set(d) - {'time'} == set(want))
        v.prove(f'file {k}: time', ('time' in d) == times[k] and (not times[k] or eq(d['time'].get(0), g.data['field_data'].d['TimeValue'].get(0))))
        for f in want:
            src, got = g.data['cell_data'].d[f], d[f]
            v.prove(f'file {k}: shape of {f}', len(got.shape) == len(src.shape) and and_(*[eq(a, b) for a, b in zip(got.shape, src.shape)]))

            def aligned(c, k=k, src=src, got=got):
                same = lambda j: z3.And(0 <= lift(j), lift(j) < lift(g.n_cells), lift(near(k, j, c)),
                                        *[lift(eq(got.get(c, *m), src.get(j, *m))) for m in ([()] if len(src.shape) == 1 else [(0,), (1,), (2,)])])
                j = v.ivar()
                return z3.Or(same(c), *[same(gh[1](c)) for gh in v.c.ghosts if gh[0] == 'inverse'], z3.Exists([j], same(j)))
            v.prove_all(f'file {k}: {f} of the cell at the place of the reference cell', ref.shape[0], aligned)


@contract('C16', bound='two files, field p; any number of cells, any positions farther from each other than the tolerance, any order of the cells in the second file')
def accepts_any_order(v):
    from cfdtools.vtk import vtkList
    g0, g1 = [some_grid(v, n, 'hexa8', {'p': ()}, False) for n in ('f0.vtu', 'f1.vtu')]
    tol = v.real('tol')
    v.assume(tol >= 0)
    n, I = lift(g0.n_cells), z3.IntSort()
    c0 = g0.cell_centers()
    at = lambda a, i: [a.get(i, j) for j in range(3)]
    sig, inv = v.fun('sigma', I, I), v.fun('sigma_inv', I, I)
    i, j = v.ivar(), v.ivar()
    v.assume(lift(g1.n_cells) == n)
    v.assume(v.c.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= sig(i), sig(i) < n, inv(sig(i)) == i)), [sig(i)]))
    c1 = g1.centers = SArr([g1.n_cells, 3], lambda i, k: c0.get(sig(lift(i)), k), 'f')
    v.assume(v.c.forall([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), LM.dist_term(at(c0, i), at(c0, j)) > tol),
             [z3.MultiPattern(lift(c0.get(i, 0)), lift(c0.get(j, 0)))]))
    IO.fs().write(IO.as_path('f1.vtu'), g1)
    lst = v.call(vtkList, SList(['f0.vtu', 'f1.vtu']))
    e = v.raises(lambda: v.meth(lst, 'read', tol=tol))
    for gh in [gh for gh in v.c.ghosts if gh[0] == 'nearest']:
        ix = gh[1]
        v.hint('the nearest cell is at the same place', n, lambda i: LM.dist_term(at(c1, i), at(c0, ix(i))) <= 0, [[ix(i)]], i)
        v.hint('the nearest cell', n, lambda i: ix(i) == sig(i), [[ix(i)]], i)
    v.prove('the series is accepted', e is None)
