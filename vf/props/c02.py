import copy
import numpy as np
from ..common import Fail, req, eq, arr_eq
from .. import gen


def snapshot(c):
    return [(t, [int(i) for i in e['index'].list()], e['elem2node'].tolist()) for t, e in c.items()]


def observe(c, model, what, rng):
    """model: OrderedDict-like list of (etype, [(index, nodes)])"""
    eq(int(c.nelem), sum(len(l) for _, l in model), what + ' nelem')
    eq(list(c.elems()), [t for t, _ in model], what + ' elems()')
    eq(list(c.keys()), [t for t, _ in model], what + ' keys()')
    for t, l in model:
        arr_eq(c[t], np.array([n for _, n in l]).reshape((len(l), gen.NNODE[t])), what + f' nodes of {t}')
    flat = [(i, list(n)) for _, l in model for i, n in l]
    eq([(int(i), [int(a) for a in n]) for i, n in c.index_elem_tuples()], flat, what + ' index_elem_tuples')
    eq([int(i) for i in c.all_index()], [i for i, _ in flat], what + ' all_index')
    eq(sorted(int(i) for i in c.nodelist()), sorted({a for _, n in flat for a in n}), what + ' nodelist')
    ids = [i for i, _ in flat]
    if len(set(ids)) == len(ids):
        d = dict(flat)
        for _ in range(3):
            pr = rng.choice([0.4, 0.4, 1.1])
            sel = [i for i in ids if rng.random() < pr]
            rng.shuffle(sel)
            if sel and rng.random() < 0.3:
                sel = sel[1:] + [rng.choice(sel)]
            eq(sorted(int(a) for a in c.nodes_of_indexlist(sel)), sorted({a for i in sel for a in d[i]}),
               what + f' nodes_of_indexlist({sel[:6]})')
    got = [(t, [int(i) for i in e['index'].list()], int(e['index'].size)) for t, e in c.items()]
    eq(got, [(t, [i for i, _ in l], len(l)) for t, l in model], what + ' items index')


def add(model, t, l):
    for tt, ll in model:
        if tt == t:
            ll.extend(l)
            return
    model.append((t, list(l)))


def random_container(rng, k, nblock=None, free=None):
    """container and model; unique explicit indices come from `free`"""
    from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
    c, model, n = elem_connectivity(), [], 0
    for b in range(rng.randint(0, 5) if nblock is None else nblock):
        t = rng.choice(list(gen.NNODE)) if rng.random() < 0.6 else rng.choice(['tri3', 'quad4'])
        m = rng.choice([1, 1, 2, 3, 4, 300 if k % 40 == 39 else 2, 0 if rng.random() < 0.2 else 1])
        hi = rng.choice([10, 300, 70000])
        nodes = [[rng.randrange(hi) for _ in range(gen.NNODE[t])] for _ in range(m)]
        arr = np.array(nodes, dtype=rng.choice([np.int64, np.int64, np.int32])).reshape((m, gen.NNODE[t]))
        how = rng.randrange(4)
        if how == 0 or m == 0:
            idx, arg = list(range(n, n + m)), None
        elif how == 1:
            a = rng.choice([n, 1000 + 37 * b, 5])
            idx = list(range(a, a + m))
            arg = indexlist(irange=[a, a + m - 1])
        else:
            idx = [rng.randrange(10**6) for _ in range(m)] if how == 2 else rng.sample(range(n, n + 5 * m + 1), m)
            arg = indexlist(ilist=list(idx) if rng.random() < 0.7 else np.array(idx))
        if arg is None:
            c.add_elems(t, arr)
        else:
            c.add_elems(t, arr, arg)
        n += m
        add(model, t, list(zip(idx, nodes)))
    return c, model


def case_add(rng, k, scratch):
    from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
    c, model = random_container(rng, k)
    observe(c, model, f'case', rng)
    # queries must not change anything
    observe(c, model, 'second query', rng)
    t = rng.choice(['hexa8', 'bar2'])
    n = int(c.nelem)
    a = np.arange(2 * gen.NNODE[t]).reshape((2, -1))
    c.add_elems(t, a)
    add(model, t, [(n, a[0].tolist()), (n + 1, a[1].tolist())])
    observe(c, model, 'after one more block', rng)


def case_merge(rng, k, scratch):
    from cfdtools.meshbase._connectivity import elem_connectivity, indexlist
    nc = [2, 2, 3, 1, 4][k % 5]
    parts = [random_container(rng, k, nblock=rng.choice([0, 1, 2, 3]) if k % 3 == 0 else rng.choice([1, 2, 3])) for _ in range(nc)]
    snaps = [snapshot(c) for c, _ in parts]
    m, model = random_container(rng, k, nblock=rng.choice([1, 2])) if k % 4 == 3 else (elem_connectivity(), [])
    lst = [c for c, _ in parts]
    m.importfrom_merge(lst if k % 2 else tuple(lst))
    # model: types in order of first appearance, containers in order
    shift = 0
    for c, mod in parts:
        for t, l in mod:
            add(model, t, [(i + shift, n) for i, n in l])
        shift += sum(len(l) for _, l in mod)
    observe(m, model, f'merge of {nc}', rng)
    req(all(isinstance(i, (int, np.integer)) for i in m.all_index()), 'indices are not integers after merge')
    for (c, _), s in zip(parts, snaps):
        eq(snapshot(c), s, 'merged container changed')
    # later growth of the merge result must not change the merged containers
    for t in list(m.elems()):
        m.add_elems(t, np.zeros((1, gen.NNODE[t]), dtype=int))
        add(model, t, [(sum(len(l) for _, l in model), [0] * gen.NNODE[t])])
    observe(m, model, 'growth after merge', rng)
    for (c, _), s in zip(parts, snaps):
        eq(snapshot(c), s, 'merged container changed by growth of the result')


CASES = [(case_add, 1500), (case_merge, 1500)]
