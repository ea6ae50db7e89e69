import os
import numpy as np
import h5py
from ..common import Fail, req, eq, arr_eq
from .. import gen, ic3x
from .c11 import values, same_bits


def write4(m, fname, sol=None):
    import cfdtools.ic3.writerV4 as w4
    w = w4.writer(m)
    if sol:
        w.write_data(fname, sol)
    else:
        w.write_data(fname)


def read4(fname, sol=None):
    from cfdtools.ic3.readerV4 import reader
    r = reader(fname, sol) if sol else reader(fname)
    r.read_data()
    return r, r.export_mesh()


def check_table(fname, e, what):
    with h5py.File(fname, 'r') as f:
        off = [int(i) for i in f['Boundaries/offsets'][()]]
        eq((off[0], off[-1]), (0, len(e['faces'])), f'{what}: ends of the offsets of boundary table')
        req(all(a <= b for a, b in zip(off, off[1:])), f'{what}: offsets {off} are not increasing')
        eq(len(off), len(f['Boundaries/labels']) + 1, f'{what}: number of offsets')
        noofa = f['Connectivities/Face/noofa_i'][()]
        nodes = f['Connectivities/Face/noofa_v'][()]
        ends = np.cumsum(noofa)
        faces = [tuple(int(x) for x in nodes[b - n:b]) for n, b in zip(noofa, ends)]
        cv = f['Connectivities/Face/cvofa'][()].reshape((-1, 2))
        eq(sorted(zip(faces, (tuple(int(c) for c in p) for p in cv))), e['faces'], f'{what}: faces in file')
        for lab, kind, a, b in zip(f['Boundaries/labels'][()], f['Boundaries/kinds'][()], off, off[1:]):
            lab = lab.decode()
            if kind == 6:
                eq(sorted(faces[a:b]), e['internal'], f'{what}: internal zone in file')
            else:
                t, fs, per = e['marks'][lab]
                eq((int(kind), sorted(faces[a:b])), (ic3x.KIND[t], fs), f'{what}: zone {lab} in file')


def case_mesh(rng, k, scratch):
    desc, m, marks, part, e = ic3x.make(rng, k, nper=3)
    write4(m, 'm.h5')
    check_table('m.h5', e, 'v4')
    r, got = read4('m.h5')
    ic3x.check_read(got, e, 'v4', nper=3)
    for i, n in enumerate(e['marks']):
        per = e['marks'][n][2]
        p = got._bocos[n].properties.get('periodic_transform')
        req((p is None) == (per is None), f'periodic data of {n}: {p} expected {per}')
    write4(got, 'm2.h5')
    ic3x.check_read(read4('m2.h5')[1], e, 'v4 written again', nper=3)
    if k % 3 == 0:  # complete mesh: other versions can be written from it
        e16 = dict(e)
        ic3x.write(got, 2 + k % 2, 'little', 'o.ic3')
        ic3x.check_read(ic3x.read('o.ic3')[1], e16, 'v4 to legacy')


def case_from_legacy(rng, k, scratch):
    desc, m, marks, part, e = ic3x.make(rng, k, nper=3)
    ic3x.write(m, 2 + k % 2, ['little', 'big'][k // 2 % 2], 'a.ic3')
    got = ic3x.read('a.ic3')[1]
    write4(got, 'a.h5')
    ic3x.check_read(read4('a.h5')[1], e, 'legacy to v4', nper=3)


def case_solution(rng, k, scratch):
    from cfdtools.data import DataSet
    desc, m, marks, part, e = ic3x.make(rng, k, nper=3, maxn=2)
    n = desc.ncell
    want = {}
    cd = DataSet('cellaverage')
    fields = [('RHO', (n,)), ('RHOU', (n, 3)), ('RHOE', (n,))]
    fields += [f for f in [('P_AVG', (n,)), ('U_AVG', (n, 3)), ('U_RMS', (n, 3)), ('U_REY', (n, 3)), ('T_RMS', (n,)), ('MASSFLUX_AVG', (n, 3)), ('TAU_AVG', (n, 6))] if rng.random() < 0.5]
    rng.shuffle(fields)
    for name, shape in fields:
        want[name] = values(rng, shape)
        cd.add_data(name, want[name].copy())
    if k % 2:
        m.set_celldata(cd)
    state = {'step': rng.choice([0, 7, 2**31 + 1]), 'time': rng.choice([0.0, 0.1, 1e-9, 1234.5678])}
    stats = any(x in n_ for n_ in want for x in ('_AVG', '_RMS', '_REY'))
    if stats:
        for w in rng.sample(['rho_wgt', 'stats_wgt', 'u_avg_wgt'], rng.randint(0, 3)):
            state[w] = rng.choice([0.0, 0.1, 123.0])
    m.set_celldata(cd)
    m.update_params(dict(state))
    write4(m, 'm.h5', 's.h5')
    r, got = read4('m.h5', 's.h5')
    ic3x.check_read(got, e, 'mesh with solution', nper=3)

    def check(g, what):
        eq(sorted(g._celldata.keys()), sorted(want), f'{what}: fields')
        for name, a in want.items():
            same_bits(g._celldata[name], a, f'{what}: field {name}')
        for s, v in state.items():
            req(s in g._params and float(g._params[s]) == float(v), f'{what}: parameter {s}: {g._params.get(s)!r} expected {v!r}')
        extra = [x for x in g._params if x.endswith('_wgt') and x not in state]
        req(not extra, f'{what}: weights {extra} appeared')

    check(got, 'read')
    if k % 3 == 1:  # values changed and written again under the same names
        for name in want:
            want[name] = want[name] + 1.0
            cd[name][...] = want[name]
        state['step'] += 1
        m.update_params({'step': state['step']})
        os.remove('m.h5')
        os.remove('s.h5')
        write4(m, 'm.h5', 's.h5')
        got = read4('m.h5', 's.h5')[1]
        check(got, 'changed and written again')
    write4(got, 'm2.h5', 's2.h5')
    check(read4('m2.h5', 's2.h5')[1], 'written again')
    alone = read4('m.h5')[1]
    ic3x.check_read(alone, e, 'mesh alone', nper=3)
    eq(list(alone._celldata.keys()), [], 'cell data of mesh alone')


CASES = [(case_mesh, 120), (case_from_legacy, 24), (case_solution, 60)]
