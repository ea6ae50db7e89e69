"""pyvista grids from descriptions, independent of the code under test."""
import numpy as np

VT = {'bar2': 3, 'tri3': 5, 'quad4': 9, 'tetra4': 10, 'hexa8': 12, 'prism6': 13, 'pyra5': 14}
ET = {v: k for k, v in VT.items()}


def grid(coords, cells):
    """cells: [(etype, nodes)] in order"""
    import pyvista as pv
    flat, types = [], []
    for t, c in cells:
        flat += [len(c)] + [int(a) for a in c]
        types.append(VT[t])
    return pv.UnstructuredGrid(np.array(flat, dtype=np.int64), np.array(types, dtype=np.uint8), np.array(coords, dtype=float))


def cells_of(g):
    """[(etype, node tuple)] of a pyvista grid in cell order"""
    flat = [int(a) for a in g.cells]
    out, i = [], 0
    for t in g.celltypes:
        n = flat[i]
        out.append((ET[int(t)], tuple(flat[i + 1:i + 1 + n])))
        i += n + 1
    return out


def centres(coords, cells):
    return np.array([np.mean([coords[a] for a in c], axis=0) for _, c in cells])
