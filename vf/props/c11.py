import numpy as np
from ..common import Fail, req, eq, arr_eq
from .. import gen, ic3x

SPECIAL = [0.0, -0.0, 1e-308, 5e-324, 1.7976931348623157e308, 1 / 3, float('inf'), -float('inf'), float('nan'), 1e22, -7.5]
INTS = [0, -1, 1, 2**31, -2**31 - 1, 2**53 + 1, 2**63 - 1, -2**63, 123456789012345678]


def values(rng, shape, dtype='f8'):
    n = int(np.prod(shape))
    nr = np.random.RandomState(rng.randrange(2**31))
    if dtype == 'i8':
        a = nr.randint(-2**62, 2**62, size=n, dtype=np.int64)
        sp = INTS
    else:
        a = nr.standard_normal(n) * 10.0 ** nr.randint(-20, 20, size=n)
        sp = SPECIAL
    for i in range(n):
        if rng.random() < 0.15:
            a[i] = rng.choice(sp)
    return a.reshape(shape)


def names(rng, n):
    pool = ['RHO', 'RHOU', 'P', 'T', 'rho', 'u', 'U_AVG', 'P_RMS', 'Tau', 'x', 'a' * 51, 'mu lam', 'STEP', 'EOF', 'CV_PART', 'k-w', 'q1', 'q2', 'Z']
    rng.shuffle(pool)
    return pool[:n]


def field_sets(rng, version, nno, ncv, ndof):
    """ordered lists of (name, array)"""
    node, cell = [], []
    kinds = ['s', 's', 'v'] + (['i'] if version == 3 else [])
    nm = names(rng, 10)
    same_names = rng.random() < 0.3  # the same name may exist on nodes and cells
    nn, nc = rng.randint(0, 4), rng.randint(0, 4)
    nnames = nm[:nn]
    cnames = nm[:nc] if same_names else nm[nn:nn + nc]
    for n in nnames:
        k = rng.choice(kinds)
        node.append((n, values(rng, (nno, 3) if k == 'v' else (nno,), 'i8' if k == 'i' else 'f8')))
    m = ncv * ndof
    for n in cnames:
        k = rng.choice(kinds + ['t'])
        shape = {'s': (m,), 'i': (m,), 'v': (m, 3), 't': (m, 3, 3)}[k]
        cell.append((n, values(rng, shape, 'i8' if k == 'i' else 'f8')))
    return node, cell


def some_mesh(rng, k):
    if k % 4 == 0:  # counts of nodes, cells or faces which coincide
        c = k // 4 % 4
        if c == 0:  # one tetrahedron: 4 nodes, 4 faces
            d = gen.Desc([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], [('tetra4', (0, 1, 2, 3))], 3)
        elif c == 1:  # 12 nodes, 12 cells
            d = gen.mesh3d(rng, 2, 1, 1, 'tet')
        elif c == 2:  # one triangle: 3 nodes, 3 faces
            d = gen.Desc([(0, 0, 0), (1, 0, 0), (0, 1, 0)], [('tri3', (0, 1, 2))], 2)
        else:  # one cell
            d = gen.mesh3d(rng, 1, 1, 1, 'hex')
        d.number(rng, 'range')
    else:
        d = gen.any_mesh(rng, k, dims=(3, 2), maxn=2)
    m = gen.build_mesh(d)
    return d, m


def same_bits(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    eq(a.shape, b.shape, f'{what}: shape')
    eq(a.dtype.kind + str(a.dtype.itemsize), b.dtype.kind + str(b.dtype.itemsize), f'{what}: type')
    a, b = (np.ascontiguousarray(x).astype(x.dtype.newbyteorder('=')).view(np.int64) for x in (a, b))
    arr_eq(a, b, what)


def check_fields(m, node, cell, what):
    for sup, ds, want in (('node', m._nodedata, node), ('cell', m._celldata, cell)):
        eq(sorted(ds.keys()), sorted(n for n, _ in want), f'{what}: names of {sup} data')
        for n, a in want:
            same_bits(ds[n], a, f'{what}: {sup} field {n}')


def case_fields(rng, k, scratch):
    from cfdtools.data import DataSet
    version = 2 + k % 2
    endian = [None, 'little', 'big', 'native'][k // 2 % 4]
    d, m = some_mesh(rng, k)
    ndof = rng.choice([1, 1, 2, 4, 8]) if version == 3 else 1
    node, cell = field_sets(rng, version, d.nnode, d.ncell, ndof)
    nd = DataSet('nodal')
    cd = DataSet('spectralcell', ndof=ndof) if ndof > 1 else DataSet('cellaverage')
    for ds, want in ((nd, node), (cd, cell)):
        for n, a in want:
            ds.add_data(n, a.copy())
    if node or rng.random() < 0.5:
        m.set_nodedata(nd)
    if cell or rng.random() < 0.5:
        m.set_celldata(cd)
    state = None
    if k % 3 == 0:
        state = random_state(rng)
        m.update_params(dict(state))
    ic3x.write(m, version, endian, 'f.ic3')
    r, got = ic3x.read('f.ic3')
    check_fields(got, node, cell, f'v{version} {endian}')
    if ndof > 1 and cell:
        eq(int(got._celldata.ndof), ndof, 'degrees of freedom per cell')
    if state:
        check_state(got, state, 'read')
    if k % 4 == 1 and (node or cell):  # values changed in the mesh, written in the same file
        for ds, want in ((nd, node), (cd, cell)):
            for n, a in want:
                a += 3
                ds[n][...] = a
        if state:
            state['step'] += 1
            m.update_params({'step': state['step']})
        ic3x.write(m, version, endian, 'f.ic3')
        r, got = ic3x.read('f.ic3')
        check_fields(got, node, cell, 'values changed and written again')
        if state:
            check_state(got, state, 'changed and written again')
    # written again
    e2 = ['big', 'little', 'native'][k % 3]
    ic3x.write(got, version, e2, 'g.ic3')
    r2, got2 = ic3x.read('g.ic3')
    check_fields(got2, node, cell, f'written again v{version} {e2}')
    if state:
        check_state(got2, state, 'written again')
    if version == 2 or (ndof == 1 and all(a.dtype.kind == 'f' for _, a in node + cell)):
        ic3x.write(got2, 5 - version, e2, 'h.ic3')
        check_fields(ic3x.read('h.ic3')[1], node, cell, f'written again v{5 - version} {e2}')


def random_state(rng):
    s = {'step': rng.choice([0, 1, 12345, 2**31 + 5, 2**53 + 1]), 'time': rng.choice([0.0, 1e-9, 0.1, 1234.5678]), 'dt': rng.choice([1e-9, 0.3, 2.0])}
    for n in rng.sample(['rho', 'stats', 'u_avg', 'p', 'wgt', 'a_b_c'], rng.randint(0, 3)):
        s[n + '_wgt'] = rng.choice([0.0, 0.1, 1e5, 1 / 3])
    return s


def check_state(m, state, what):
    for n, v in state.items():
        req(n in m._params, f'{what}: parameter {n} is lost')
        req((float(m._params[n]) if isinstance(v, float) else m._params[n]) == v, f'{what}: parameter {n}: got {m._params[n]!r} expected {v!r}')
    extra = [n for n in m._params if n.endswith('_wgt') and n not in state]
    req(not extra, f'{what}: weights {extra} appeared')


def case_state(rng, k, scratch):
    d, m = some_mesh(rng, k + 1)
    state = random_state(rng)
    m.update_params(dict(state))
    version, endian = 2 + k % 2, ['little', 'big'][k // 2 % 2]
    ic3x.write(m, version, endian, 's.ic3')
    got = ic3x.read('s.ic3')[1]
    check_state(got, state, 'read')
    ic3x.write(got, 2 + k // 3 % 2, ['big', 'little'][k % 2], 't.ic3')
    check_state(ic3x.read('t.ic3')[1], state, 'written again')


def case_bytes(rng, k, scratch):
    """fields in the file seen by an independent reader"""
    from cfdtools.data import DataSet
    version, endian = 2 + k % 2, ['little', 'big'][k // 2 % 2]
    d, m = some_mesh(rng, k)
    ndof = rng.choice([1, 3]) if version == 3 else 1
    node, cell = field_sets(rng, version, d.nnode, d.ncell, ndof)
    nd, cd = DataSet('nodal'), DataSet('spectralcell', ndof=ndof)
    for ds, want in ((nd, node), (cd, cell)):
        for n, a in want:
            ds.add_data(n, a.copy())
    m.set_nodedata(nd)
    m.set_celldata(cd)
    ic3x.write(m, version, endian, 'b.ic3')
    en, ver, secs = ic3x.parse(open('b.ic3', 'rb').read())
    I = ic3x.IDS
    for sup, want, n, ids in (('node', node, d.nnode, {1: ('NO_D1', 'NO_II1'), 2: ('NO_D3',)}), ('cell', cell, d.ncell, {1: ('CV_D1', 'CV_II1'), 2: ('CV_D3',), 3: ('CV_D33',)})):
        all_ids = [I[x] for v in ids.values() for x in v]
        got = {s.name: s for s in secs if s.id in all_ids}
        eq(sorted(got), sorted(x for x, _ in want), f'{sup} sections')
        for name, a in want:
            s = got[name]
            sid = ids[a.ndim][1 if a.dtype.kind == 'i' else 0]
            eq((s.id, s.idata[0]), (I[sid], n), f'section of {name}')
            same_bits(np.frombuffer(s.payload, dtype=en + a.dtype.kind + '8'), a.ravel(), f'payload of {name}')


CASES = [(case_fields, 140), (case_state, 40), (case_bytes, 40)]
