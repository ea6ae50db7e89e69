import numpy as np
from ..common import Fail, req, eq
from .. import gen


def state(b):
    return (b.name, b.geodim, b.properties.get('type'), {k: v for k, v in b.properties.items()})


def make(rng, k):
    d = gen.any_mesh(rng, k, dims=(3, 3, 2), maxn=3)
    m = gen.build_mesh(d)
    m.make_face_connectivity()
    faces = dict(gen.faces_of(m._faces['boundary']['face2node']))
    return d, m, faces


def random_marks(rng, m, d, faces, kinds):
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._mesh as meshm
    names = gen.mark_names(rng, len(kinds))
    out = {}
    bnodes = sorted({n for f in faces.values() for n in f})
    for name, kind in zip(names, kinds):
        b = meshm.submeshmark(name)
        if kind == 'node':
            mode = rng.randrange(6)
            if mode == 0:
                sel = [n for n in range(d.nnode) if rng.random() < 0.6]
            elif mode == 1:
                sel = list(bnodes)
            elif mode == 2:
                sel = []
            elif mode == 3:  # a face plus all nodes but one of another
                a, c = rng.choice(list(faces.values())), rng.choice(list(faces.values()))
                sel = list(a) + list(c[1:])
            elif mode == 4:  # half space
                x = d.coords[:, rng.randrange(3)]
                sel = [int(i) for i in np.where(x <= np.median(x))[0]]
            else:
                fs = [f for f in faces.values() if rng.random() < 0.4]
                sel = [n for f in fs for n in f]  # with repeats
            if rng.random() < 0.5:
                rng.shuffle(sel)
            b.geodim = rng.choice(['node', 'bdnode', 'intnode'])
        else:
            sel = [i for i in faces if rng.random() < rng.choice([0.0, 0.3, 1.0])]
            rng.shuffle(sel)
            b.geodim = rng.choice(['face', 'bdface'])
        b.type = rng.choice(['boundary', 'perio_cart'])
        b.properties['periodic_transform'] = None if b.type == 'boundary' else [1.0, 2.0, 3.0]
        b.properties['tag'] = name
        if sel and all(y == x + 1 for x, y in zip(sel, sel[1:])):
            b.index = conn.indexlist(irange=[sel[0], sel[-1]])
        else:
            b.index = conn.indexlist(ilist=list(sel))
        m.add_boco(b)
        out[name] = (kind, list(sel))
    return names, out


def case_node_to_face(rng, k, scratch):
    d, m, faces = make(rng, k)
    kinds = [rng.choice(['node', 'node', 'face']) for _ in range(rng.randint(0, 5))]
    names, marks = random_marks(rng, m, d, faces, kinds)
    before = {n: state(b) for n, b in m._bocos.items()}
    bf = gen.faces_of(m._faces['boundary']['face2node'])
    m.bocomarks_set_node_to_face()
    eq(list(m._bocos), names, 'mark names')
    eq(gen.faces_of(m._faces['boundary']['face2node']), bf, 'boundary faces changed')
    for name, (kind, sel) in marks.items():
        b = m._bocos[name]
        got = [int(i) for i in b.index.list()]
        if kind == 'face':
            eq((got, state(b)), (sel, before[name]), f'face mark {name}')
        else:
            s = set(sel)
            eq(sorted(got), sorted(i for i, f in faces.items() if all(n in s for n in f)), f'faces of node mark {name}')
            eq(b.geodim, 'bdface', f'geodim of {name}')
            eq((b.name, b.properties), (before[name][0], before[name][3]), f'properties of {name}')
    if rng.random() < 0.3:  # another mark later
        import cfdtools.meshbase._mesh as meshm
        import cfdtools.meshbase._connectivity as conn
        late = meshm.submeshmark('later')
        sel = set(rng.sample(range(d.nnode), rng.randint(0, d.nnode)))
        for f in rng.sample(list(faces.values()), min(len(faces), 3)):
            sel |= set(f)
        late.geodim, late.type, late.index = 'bdnode', 'boundary', conn.indexlist(ilist=sorted(sel))
        keep = {n: [int(i) for i in m._bocos[n].index.list()] for n in names}
        m.add_boco(late)
        m.bocomarks_set_node_to_face()
        eq({n: [int(i) for i in m._bocos[n].index.list()] for n in names}, keep, 'marks already made of faces')
        eq(sorted(int(i) for i in late.index.list()), sorted(i for i, f in faces.items() if all(n in sel for n in f)), 'faces of a mark added later')
        names = names + ['later']
    unmarked(rng, m, faces, {n: [int(i) for i in m._bocos[n].index.list()] for n in names})


def unmarked(rng, m, faces, marks):
    name = rng.choice(['unmarked', 'rest', 'unmarked_faces'])
    before = {n: state(b) for n, b in m._bocos.items()}
    order = list(m._bocos)
    objs = dict(m._bocos)
    miss = sorted(set(faces) - {i for l in marks.values() for i in l})
    if name == 'unmarked_faces' and rng.random() < 0.5:
        r = m.make_unmarked_BC()
    else:
        r = m.make_unmarked_BC(name=name)
    eq(sorted(int(i) for i in r), miss, 'reported missing faces')
    eq(list(m._bocos), order + ([name] if miss else []), 'marks after completion')
    if miss:
        b = m._bocos[name]
        eq(sorted(int(i) for i in b.index.list()), miss, 'faces of the extra mark')
        eq((b.name, b.geodim, b.type, b.properties['periodic_transform']), (name, 'bdface', 'boundary', None), 'extra mark')
    for n, l in marks.items():
        req(m._bocos[n] is objs[n], f'mark {n} was replaced')
        eq([int(i) for i in m._bocos[n].index.list()], l, f'existing mark {n} changed')
        eq(state(m._bocos[n]), before[n], f'existing mark {n} changed')
    # now complete: nothing more to do
    eq(list(m.make_unmarked_BC(name='again')), [], 'second completion')
    eq(list(m._bocos), order + ([name] if miss else []), 'marks after second completion')


def case_unmarked(rng, k, scratch):
    d, m, faces = make(rng, k)
    kinds = ['face'] * rng.randint(0, 4)
    names, marks = random_marks(rng, m, d, faces, kinds)
    if k % 3 == 0:  # exactly one face left
        import cfdtools.meshbase._connectivity as conn
        used = {i for _, l in marks.values() for i in l}
        left = [i for i in faces if i not in used]
        if len(left) > 1 and names:
            leave = rng.choice(left)
            b = m._bocos[names[0]]
            b.index = conn.indexlist(ilist=marks[names[0]][1] + [i for i in left if i != leave])
    unmarked(rng, m, faces, {n: [int(i) for i in m._bocos[n].index.list()] for n in names})


CASES = [(case_node_to_face, 500), (case_unmarked, 300)]
