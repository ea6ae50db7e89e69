"""C17: extraction of cells and averages of planes of VTK grids."""
from ..pydv.core import z3, lift, norm
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, SDict, eq, and_, or_, not_, seq_of, conc
from ..pydv import vtk_models as VM, models as M, np_models as N, num_models as NM, lib_models as LM
from ..pydv.models import Model
from ..pydv.core import Unsupported


class Source:
    """any grid of cells of 2 to 8 nodes"""

    def __init__(self, v):
        self.v = v
        self.nc, self.nn = v.int('ncell', 1), v.int('nnode', 1)
        self.size, self.node = v.fun('size', z3.IntSort(), z3.IntSort()), v.fun('node', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.types = v.array('type', [self.nc])
        self.points = v.array('point', [self.nn, 3], 'f')
        i, j = v.ivar(), v.ivar()
        v.assume(v.c.forall([i], z3.Implies(z3.And(0 <= i, i < self.nc), z3.And(self.size(i) >= 2, self.size(i) <= 8)), [self.size(i)]))
        v.assume(v.c.forall([i], z3.Implies(z3.And(0 <= i, i < self.nc), z3.And(self.types.get(i) >= 3, self.types.get(i) <= 14)), [self.types.get(i)]))
        v.assume(v.c.forall([i, j], z3.Implies(z3.And(0 <= i, i < self.nc, 0 <= j, j < self.size(i)), z3.And(self.node(i, j) >= 0, self.node(i, j) < self.nn)), [self.node(i, j)]))
        cell = lambda c: SSeq(norm(self.size(lift(c)) + 1), lambda k: norm(z3.If(lift(k) == 0, self.size(lift(c)), self.node(lift(c), lift(k) - 1))))
        self.rows = SSeq(self.nc, cell)
        flat = M.flatten(self.rows)
        self.start = M.prefix_sum(lambda c: norm(self.size(lift(c)) + 1), self.nc)
        self.cells = SArr([flat.n], lambda i: flat.get(i), 'i')
        self.offset = SArr([self.nc + 1], lambda i: norm(lift(self.start(i)) - lift(i)), 'i')
        self.grid = VM.Raw(self.cells.copy(), self.types.copy(), self.points.copy(), self.offset.copy())


def used(v, what, points, n, size, node):
    """every point is a node of some cell"""
    # the nodes of the cells, one after the other: place q, of the cell row(q)
    flat = M.flatten(SSeq(n, lambda k: SSeq(norm(size(k)), lambda c: node(k, c))))
    row = flat.ghost['ragged'][2]
    p, q = v.arbitrary(points.shape[0]), v.ivar()
    x = v.real('x')
    v.assume(x == points.get(p, 0))      # names the point
    v.prove(what, z3.Not(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lift(flat.n)), lift(flat.get(q)) != p), patterns=[row(q)])))


@contract('C17', variants=['list', 'array'])
def extract(v, kind):
    """any selection of cells, repeated or not, in any order"""
    from cfdtools.vtk import vtkMesh
    s = Source(v)
    ns = v.int('nselected', 1)
    sel = v.array('selected', [ns])
    i = v.ivar()
    v.assume(v.c.forall([i], z3.Implies(z3.And(0 <= i, i < ns), z3.And(sel.get(i) >= 0, sel.get(i) < s.nc)), [sel.get(i)]))
    g = v.call(vtkMesh, pvmesh=s.grid)
    r = v.meth(g, 'vtk_extract_cells', sel.copy() if kind == 'array' else SList(sel.rows()))
    o = v.attr(r, 'pyvista_grid')
    size = lambda k: s.size(lift(sel.get(k)))
    at = M.prefix_sum(lambda k: norm(size(k) + 1), ns)
    v.prove('number of cells', and_(eq(o.types.shape[0], ns), eq(v.attr(r, 'ncell'), ns)))
    v.prove_all('types', ns, lambda k: eq(o.types.get(k), s.types.get(sel.get(k))))
    v.prove('size of the cells', eq(o.cells.shape[0], at(ns)))
    v.prove_all('numbers of nodes', ns, lambda k: eq(o.cells.get(at(k)), size(k)))
    k, c = v.ivar(), v.ivar()
    inside = lambda k, c: z3.And(0 <= k, k < ns, 0 <= c, c < size(k))
    new = lambda k, c: lift(o.cells.get(norm(lift(at(k)) + 1 + c)))
    n = lift(o.points.shape[0])
    v.prove('nodes are points', z3.ForAll([k, c], z3.Implies(inside(k, c), z3.And(new(k, c) >= 0, new(k, c) < n))))
    for x in range(3):
        v.prove(f'coordinate {x} of the nodes', z3.ForAll([k, c], z3.Implies(inside(k, c), lift(o.points.get(new(k, c), x)) == lift(s.points.get(s.node(sel.get(k), c), x)))))
    used(v, 'no unused point', o.points, ns, size, new)
    v.prove_all('source: nodes of the cells', s.cells.shape[0], lambda i: eq(s.grid.cells.get(i), s.cells.get(i)))
    v.prove_all('source: points', s.nn, lambda i: and_(*[eq(s.grid.points.get(i, x), s.points.get(i, x)) for x in range(3)]))
    v.prove_all('source: types', s.nc, lambda i: eq(s.grid.types.get(i), s.types.get(i)))


OPTIONS = {'default': {}, 'everything': dict(rms=True, phase=True, snapshot=True, nmode=1), 'modes': dict(nmode=2, phase=True), 'modes without phase': dict(nmode=1, snapshot=True)}
DEFAULT = dict(avg=True, rms=False, phase=False, nmode=0, snapshot=False)
SELECT = {'one': ({}, {'U': 'rms'}), 'list': (dict(snapshot=True), {'U': ['no_avg', {'nmode': 1}, 'phase'], 'P': 'no_avg'}), 'options and dict': (dict(rms=True, nmode=1), {'P': ['phase', {'nmode': 0}], 'U': ['snapshot']}),
          'none': ({}, {}), 'unknown': ({}, {'P': 'avg', 'V': 'avg'})}


def outputs(name, o):
    """names of the outputs and their function of the values of the planes"""
    out = {}
    if o['snapshot']:
        out[name] = lambda vs: vs[0]
    if o['avg']:
        out[f'{name}_avg'] = mean
    if o['rms']:
        out[f'{name}_rms'] = lambda vs: NM.SQRT(mean([(x - mean(vs)) * (x - mean(vs)) for x in vs]))
    for q in range(1, o['nmode'] + 1):
        out[f'{name}_k{q}'] = lambda vs, q=q: NM.values_transform(vs)(q)[0]
        if o['phase']:
            out[f'{name}_k{q}_phase'] = lambda vs, q=q: NM.values_transform(vs)(q)[3]
    return out


def mean(vs):
    return sum(vs[1:], vs[0]) / len(vs)


def asked(case):
    """options given, selection given, options of each variable"""
    if case in OPTIONS:
        return OPTIONS[case], None, {m: {**DEFAULT, **OPTIONS[case]} for m in ('U', 'P')}
    glob, sel = SELECT[case]
    want = {}
    for m, items in sel.items():
        o = want[m] = {**DEFAULT, **glob}
        for w in [items] if isinstance(items, str) else items:
            o.update(w if isinstance(w, dict) else {'avg': False} if w == 'no_avg' else {w: True})
    return glob, sel, want


PLANS = [f'{p} planes, {o}, {s}' for p, o, s in ((2, 'default', 'z'), (3, 'default', 'function'), (2, 'everything', 'function'), (3, 'everything', 'z'), (3, 'modes', 'z'), (2, 'modes without phase', 'z'),
                                                (2, 'one', 'z'), (3, 'list', 'function'), (2, 'options and dict', 'z'), (2, 'none', 'z'), (2, 'unknown', 'z'))]


@contract('C17', variants=PLANS, bound='2 and 3 planes, two variables (a scalar, a vector)')
def planes(v, plan):
    """any arrangement of cells: the result is a set of lines of cells that match within the tolerance, or a refusal"""
    from cfdtools.vtk import vtkMesh
    np_, case, split = plan.split(', ')
    np_ = int(np_[0])
    c = v.c
    nc = v.int('ncell', 1)
    none = SArr([0], lambda i: 0, 'i')
    grid = VM.Raw(none, v.array('type', [nc]), v.array('point', [v.int('nnode', 1), 3], 'f'), none)
    vals = {'U': v.array('U', [nc], 'f'), 'P': v.array('P', [nc, 3], 'f')}
    for m, a in vals.items():
        grid.data['cell_data'].d[m] = a.copy()
    centers = grid.cell_centers()
    kw, sel, want = asked(case)
    kw = dict(kw)
    if sel is not None:
        kw['select'] = v.it.from_native(sel)
    if split == 'z':
        xy, z = (lambda i, x: centers.get(i, x)), (lambda i: centers.get(i, 2))
    else:
        ax, az = v.array('inplane', [nc, 2], 'f'), v.array('position', [nc], 'f')
        kw['splitcoords'] = Model(lambda x: (ax.copy(), az.copy()), 'splitcoords')
        xy, z = ax.get, az.get
    if split == 'function' or case == 'everything':
        tol = kw['tol'] = v.real('tol')
        v.assume(tol >= 0)
    else:
        tol = z3.RealVal('1e-6')
    cut = {}

    def extracted(it, args, kwargs):
        ids = N.as_arr(it, args[1] if len(args) > 1 else list(kwargs.values())[0])
        v.prove('requires: cells of the grid', z3.BoolVal(True) if 'ids' in cut else ids.ndim == 1)
        v.prove_all('requires: ids', ids.shape[0], lambda i: and_(lift(ids.get(i)) >= 0, lift(ids.get(i)) < nc))
        cut['ids'] = ids.copy()
        g = VM.Raw(none, SArr([ids.shape[0]], lambda i: grid.types.get(cut['ids'].get(i)), 'i'), v.array('newpoint', [v.int('npoint', 1), 3], 'f'), none)
        return v.call(vtkMesh, pvmesh=g)

    v.it.overrides['cfdtools.vtk._vtk.vtkMesh.vtk_extract_cells'] = extracted
    c.cache['few positions'] = np_ - 1
    mesh = v.call(vtkMesh, pvmesh=grid)
    start = len(c.ghosts)
    r = []
    e = v.raises(lambda: r.append(v.meth(mesh, "vtk_zconvolution", **kw)), ValueError)
    if case == 'unknown':
        v.prove('unknown name is refused', e is not None)
        return
    if e is not None:
        return
    del c.cache['few positions']
    out = v.attr(r[0], 'pyvista_grid')
    n = cut['ids'].shape[0]
    v.prove('size of the planes', eq(np_ * lift(n), nc))
    names = {}
    for m, o in want.items():
        for k, f in outputs(m, o).items():
            names[k] = (m, f)
    data = out.data['cell_data'].d
    v.prove('created data', sorted(data) == sorted(names))
    # the line of the cell k: cell(p, k) in the plane p
    sig, _ = M.sort_perm(lambda i: z(i), nc)
    inv = [g[1] for g in c.ghosts[start:] if g[0] == 'inverse']
    near, far, dd = [[g[k] for g in c.ghosts[start:] if g[0] == 'nearest'] for k in (1, 3, 4)]
    gaps = [g for g in c.ghosts[start:] if g[0] == 'filter']
    by = inv if len(inv) == np_ - 1 else near
    if len(by) != np_ - 1:
        raise Unsupported('how the cells of the planes are matched')
    cell = lambda p, k: cut['ids'].get(k) if p == 0 else sig(norm(p * lift(n) + by[p - 1](lift(k))))
    v.prove_all('lines: cells of the grid', n, lambda k: and_(*[and_(lift(cell(p, k)) >= 0, lift(cell(p, k)) < nc) for p in range(np_)]))
    v.prove_all('first plane: every cell, once', n, lambda k: eq(cell(0, k), sig(k)))
    dist = lambda a, b: LM.dist_term([xy(a, x) for x in range(2)], [xy(b, x) for x in range(2)])
    place = lambda p, q: sig(norm(p * lift(n) + lift(q)))

    # last place of each plane but the last
    last = [gaps[0][1](j) for j in range(np_ - 1)] if len(gaps) == 1 else [norm((j + 1) * lift(n) - 1) for j in range(np_ - 1)]
    ends = [eq(last[j], (j + 1) * lift(n) - 1) for j in range(np_ - 1)]

    def close(p):
        def body(k):
            q = by[p - 1](k)
            at = q if by is inv else k
            steps = ends + [far[p - 1](at) <= tol, far[p - 1](at) == dd[p - 1](at)] + ([near[p - 1](q) == k] if by is inv else [])
            v.by(f'plane {p}: within the tolerance in the plane', dist(cell(p, k), cell(0, k)) <= tol, steps)
            return True
        v.prove_all(f'plane {p}', n, body)

    def before(p):
        def body(a, b):
            x, y = z(place(p, norm(lift(n) - 1))), z(place(p + 1, 0))
            jump = lift(z(sig(norm(last[p] + 1)))) - lift(z(sig(last[p]))) > tol
            v.by(f'plane {p}: before the next one', lift(z(cell(p, a))) + tol < lift(z(cell(p + 1, b))), ends + [z(cell(p, a)) <= x, jump, y <= z(cell(p + 1, b))])
            return True
        v.prove_all(f'planes {p}', [n, n], body)

    def gap(p):
        def body(k):
            q = norm(p * lift(n) + k)
            small = lift(z(sig(norm(q + 1)))) - lift(z(sig(q))) <= tol
            steps = []
            if len(gaps) == 1:
                _, pos, rank, m, _ = gaps[0]
                steps = [eq(m, np_ - 1)] + ends + [or_(small, and_(rank(q) >= 0, rank(q) < m, pos(rank(q)) == q))]
            v.by(f'plane {p}: no gap', small, [lift(n) >= 1, k >= 0, k < lift(n) - 1] + steps)
            return True
        v.prove_all(f'inside plane {p}', norm(lift(n) - 1), body)

    for p in range(1, np_):
        close(p)
    for p in range(np_ - 1):
        before(p)
    for p in range(np_):
        gap(p)
        v.prove_all(f'plane {p}: each cell in one line', [n, n], lambda a, b: or_(eq(a, b), not_(eq(cell(p, a), cell(p, b)))))
    for k, (m, f) in names.items():
        a, x = vals[m], data[k]
        v.prove(f'shape of {k}', x.ndim == a.ndim and and_(eq(x.shape[0], n), *[eq(s, t) for s, t in zip(x.shape[1:], a.shape[1:])]))
        for q in range(1 if a.ndim == 1 else 3):
            rest = () if a.ndim == 1 else (q,)
            v.prove_all(f'values of {k}', n, lambda i: NM.same(x.get(i, *rest), f([a.get(cell(p, i), *rest) for p in range(np_)])))
    for m, a in vals.items():
        v.prove(f'source: names', sorted(grid.data['cell_data'].d) == ['P', 'U'])
        v.prove_all(f'source: {m}', nc, lambda i: and_(*[eq(grid.data['cell_data'].d[m].get(i, *rest), a.get(i, *rest)) for rest in ([()] if a.ndim == 1 else [(0,), (1,), (2,)])]))
