"""C11: fields and state in IC3 version 2 and 3 files."""
from ..pydv.core import z3, lift, norm
from ..pydv.verify import contract
from ..pydv.values import SSeq, SList, SArr, SDict, eq, and_, or_, not_, seq_of, conc, concat
from ..pydv import io_models as IO, bin_models as B
from .ic3 import mesh_with_faces, range_marks
from .ic3bin import ORDERS, ID, path, written, walk, find, GhostMesh

CELL = {'RHO': 1, 'n_int': 'i', 'RHOU': 3, 'TAU': 9}
NODE = {'p': 1, 'U_n': 3, 'k_int': 'i'}
SECTION = {('n', 1): 'NO_D1', ('n', 'i'): 'NO_II1', ('n', 3): 'NO_D3', ('c', 1): 'CV_D1', ('c', 'i'): 'CV_II1', ('c', 3): 'CV_D3', ('c', 9): 'CV_D33'}


def some_mesh(v, shape, nm):
    m, f, nn, nc, xyz, nb = mesh_with_faces(v, shape)
    range_marks(v, m, nm, nb)
    if nm == 0:
        v.assume(eq(nb, 0))
    return m, nn, nc


def field(v, name, n, kind):
    return v.array(name, [n] if kind in (1, 'i') else [n, 3] if kind == 3 else [n, 3, 3], 'i' if kind == 'i' else 'f')


def comps(kind):
    return {1: [()], 'i': [()], 3: [(a,) for a in range(3)], 9: [(a, b) for a in range(3) for b in range(3)]}[kind]


def some_fields(v, m, nn, nc, version, ndof):
    """fields of every kind that the version can hold"""
    from cfdtools.data import DataSet
    cd = v.call(DataSet, 'cellaverage' if ndof == 1 else 'spectralcell', ndof=ndof)
    nd = v.call(DataSet, 'nodal')
    out = {}
    for sup, d, names, n in (('c', cd, CELL, norm(lift(nc) * ndof)), ('n', nd, NODE, nn)):
        for name, kind in names.items():
            if kind == 'i' and version == '2':
                continue
            a = out[sup, name] = field(v, name, n, kind)
            v.meth(d, 'add_data', name, a.copy())
    v.meth(m, 'set_celldata', cd)
    v.meth(m, 'set_nodedata', nd)
    return out


@contract('C11', bound='fields of every kind, 1 to 4 degrees of freedom per cell', variants=['native:2:1', 'big:2:1', 'little:3:1', 'big:3:4', 'native:3:2'])
def fields_file(v, plan):
    """sections of the fields as a function of the data"""
    endian, version, ndof = plan.split(':')
    ndof = int(ndof)
    m, nn, nc = some_mesh(v, 'quad4', 1)
    want = some_fields(v, m, nn, nc, version, ndof)
    S = walk(v, written(v, m, version, endian), ORDERS[endian], version)
    for (sup, name), a in want.items():
        kind = (CELL if sup == 'c' else NODE)[name]
        s = [s for s in S if s.name == name]
        v.prove(f'one section for {name}', len(s) == 1 and s[0].id == ID[SECTION[sup, kind]])
        s = s[0]
        base = nc if sup == 'c' else nn
        n = norm(lift(base) * ndof) if sup == 'c' else nn
        v.prove(f'{name}: size', eq(s.idata[0], base))
        if sup == 'c' and version == '3':
            v.prove(f'{name}: degrees of freedom', eq(s.idata[1], ndof))
        cs = comps(kind)
        x = s.values(('q' if kind == 'i' else 'd', norm(lift(n) * len(cs))))
        for k, c in enumerate(cs):
            v.prove_all(f'{name}: values {c}', n, lambda i: eq(x.get(norm(len(cs) * lift(i) + k)), a.get(i, *c)))
    known = {n for _, n in want}
    v.prove('no other field', not [s for s in S if s.id in [ID[x] for x in SECTION.values()] and s.name not in known])
    v.prove('fields follow the mesh', min(S.index(s) for s in S if s.name in known) > S.index(find(v, S, 'X_NO')))


@contract('C11', bound='fields of every kind, 1 to 4 degrees of freedom per cell', variants=['<:2:1', '>:3:1', '<:3:4', '>:3:2:reversed', '>:2:3:reversed', '<:3:0'])
def fields_read(v, plan):
    """data given by the reader as a function of the sections"""
    from cfdtools.ic3.reader_legacy import reader
    order, version, ndof, *rev = plan.split(':')
    real = int(ndof)
    ndof = real if version == '3' and real else 1
    g = GhostMesh(v, version, order, (4,), 0)
    nn, nc = g.nn, g.nc
    want = {}
    # several fields of a kind; same name on nodes and cells
    todo = [('c', 'RHO', 1), ('n', 'RHO', 1), ('c', 'P', 1), ('n', 'U', 3), ('c', 'U', 3), ('c', 'T', 9)]
    if version == '3':
        todo += [('c', 'K', 'i'), ('n', 'K', 'i')]
    if rev:
        todo.reverse()
    for sup, name, kind in todo:
        n = norm(lift(nc) * ndof) if sup == 'c' else nn
        a = want[sup, name] = field(v, f'{sup}_{name}', n, kind), kind
        flat = v.it.models.ravel(v.it, a[0].copy()) if kind not in (1, 'i') else a[0]
        k = len(comps(kind))
        g.section(name, SECTION[sup, kind], [nc if sup == 'c' else nn, (real if version == '3' else 3 if k > 1 else 0) if sup == 'c' else 3 if k > 1 else 0],
                  data=[('q' if kind == 'i' else 'd', norm(lift(n) * k), flat.get)])
    p = g.store()
    r = v.call(reader, p)
    v.meth(r, 'read_data')
    m = v.meth(r, 'export_mesh')
    for sup, at in (('c', '_celldata'), ('n', '_nodedata')):
        d = v.attr(m, at)
        v.prove(f'fields {at}', sorted(seq_of(v.meth(d, 'keys')).lst) == sorted(n for s, n in want if s == sup))
        v.prove(f'degrees of freedom {at}', eq(v.attr(d, 'ndof'), ndof if sup == 'c' else 1))
        for (s, name), (a, kind) in want.items():
            if s != sup:
                continue
            b = v.item(d, name)
            v.prove(f'{at} {name}: shape', b.ndim == a.ndim and and_(*[eq(x, y) for x, y in zip(b.shape, a.shape)]))
            v.prove(f'{at} {name}: type', (b.dtype == 'i') == (kind == 'i'))
            for c in comps(kind):
                v.prove_all(f'{at} {name}: values {c}', a.shape[0], lambda i: eq(b.get(i, *c), a.get(i, *c)))


STATE = {'step': ('I0', 'i'), 'dt': ('D0', 'f'), 'time': ('D0', 'f'), 'rho_wgt': ('D0', 'f'), 'u_avg_wgt': ('D0', 'f')}


@contract('C11', bound='at most 2 weights', variants=['native:2', 'big:3'])
def state_file(v, plan):
    endian, version = plan.split(':')
    m, nn, nc = some_mesh(v, 'quad4', 1)
    state = {k: v.int(k) if ty == 'i' else v.real(k) for k, (_, ty) in STATE.items()}
    for k in v.choose((), ('u_avg_wgt',), ('rho_wgt', 'u_avg_wgt', 'dt')):
        del state[k]
    v.meth(m, 'update_params', SDict(dict(state)))
    S = walk(v, written(v, m, version, endian), ORDERS[endian], version)
    got = {}
    for s in S:
        if s.id in (ID['I0'], ID['D0']):
            v.prove(f'{s.name}: one section', s.name.lower() not in got)
            got[s.name.lower()] = s
    v.prove('names', sorted(got) == sorted(set(state) | {'step', 'dt', 'time'}))
    for k, s in got.items():
        v.prove(f'{k}: kind', s.id == ID[STATE[k][0]])
        v.prove(f'{k}: value', eq(s.idata[0] if STATE[k][1] == 'i' else s.rdata[0], state.get(k, 0)))


@contract('C11', bound='at most 2 weights', variants=['<:2', '>:3'])
def state_read(v, plan):
    from cfdtools.ic3.reader_legacy import reader
    order, version = plan.split(':')
    g = GhostMesh(v, version, order, (4,), 0)
    state = {k: v.int(k) if ty == 'i' else v.real(k) for k, (_, ty) in STATE.items()}
    names = v.choose(list(STATE), list(reversed(STATE)), ['time', 'step'])
    for k in names:
        g.section(k.upper(), STATE[k][0], [state[k]] if STATE[k][1] == 'i' else [], [state[k]] if STATE[k][1] == 'f' else [])
    p = g.store()
    r = v.call(reader, p)
    v.meth(r, 'read_data')
    pr = v.attr(v.meth(r, 'export_mesh'), '_params')
    for k in names:
        v.prove(f'{k}', eq(v.item(pr, k), state[k]))
