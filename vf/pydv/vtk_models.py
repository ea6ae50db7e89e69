"""Contracts assumed on pyvista: an unstructured grid is a sequence of blocks of cells (one type each), points and data."""
import pyvista as pv
import numpy as np
import z3
from .core import Unsupported, PyRaise, is_term, lift, norm
from .values import SSeq, SList, SDict, SArr, eq, ctx, concat, subst, conc
from . import models as M, np_models as N, io_models as IO
from .models import Model, simple

NN = {3: 2, 5: 3, 9: 4, 10: 4, 12: 8, 13: 6, 14: 5}
NOTE = ('pyvista: UnstructuredGrid(dict of cells, points) holds the blocks in the order of the dict; cells_dict lists the cells of each type '
        '(types by increasing code) in the order of the grid; points are kept')


class Grid:
    def __init__(self, blocks, points):
        """blocks: [(vtk code, array (n, nn))] in the order of the cells"""
        self.blocks, self.points = blocks, points
        self.data = {k: SDict({}) for k in ('cell_data', 'point_data', 'field_data')}
        ctx().assumptions.add(NOTE)

    def sv_type(self):
        return pv.UnstructuredGrid

    def copy(self):
        g = Grid([(t, a.copy()) for t, a in self.blocks], self.points.copy())
        g.data = {k: SDict({n: x.copy() if isinstance(x, SArr) else x for n, x in d.d.items()}) for k, d in self.data.items()}
        g.centers = self.cell_centers().copy()
        return g

    def cell_centers(self):
        if not hasattr(self, 'centers'):
            f = ctx().fresh_fun('center', z3.IntSort(), z3.IntSort(), z3.RealSort())
            self.centers = SArr([self.n_cells, 3], lambda i, j: f(lift(i), lift(j)), 'f')
        return self.centers

    @property
    def n_cells(self):
        return norm(sum((a.shape[0] for _, a in self.blocks), 0))

    def cells_dict(self):
        out = {}
        for code in sorted({t for t, _ in self.blocks}):
            arrs = [a for t, a in self.blocks if t == code]
            if len(arrs) == 1:
                out[code] = arrs[0].copy()
            else:
                rows = concat([a.rows() for a in arrs])
                out[code] = SArr([rows.n, arrs[0].shape[1]], lambda i, j, rows=rows: M.seq_of(rows.get(i)).get(j), 'i')
        return SDict(out)

    def sv_getattr(self, it, nm):
        if nm == 'cells_dict':
            return self.cells_dict()
        if nm == 'points':
            return self.points
        if nm in ('n_cells', 'number_of_cells'):
            return self.n_cells
        if nm in ('n_points', 'number_of_points'):
            return self.points.shape[0]
        if nm in self.data:
            return self.data[nm]
        if nm == 'save':
            return Model(lambda f, **k: IO.fs().write(IO.as_path(f), self.copy()), nm)
        if nm == 'copy':
            return Model(lambda *a, **k: self.copy(), nm)
        if nm == 'cell_centers':
            return Model(lambda **k: Centers(self), nm)
        raise Unsupported(f'attribute {nm} of a pyvista grid')


class Raw:
    """grid given by the arrays of VTK: cells (number of nodes, nodes, number of nodes, ..), types, places of the cells, points"""

    def __init__(self, cells, types, points, offset=None):
        self.cells, self.types, self.points, self.offset = cells, types, points, offset
        self.data = {k: SDict({}) for k in ('cell_data', 'point_data', 'field_data')}
        ctx().assumptions.add('pyvista: cells, celltypes, offset and points are the arrays of the grid: the cell c is cells[offset[c] + c] (number of nodes) and the nodes after it')

    def sv_type(self):
        return pv.UnstructuredGrid

    def sv_getattr(self, it, nm):
        if nm == 'cells':
            return self.cells
        if nm == 'celltypes':
            return self.types
        if nm == 'offset' and self.offset is not None:
            return self.offset
        if nm == 'points':
            return self.points
        if nm in ('n_cells', 'number_of_cells'):
            return self.types.shape[0]
        if nm in ('n_points', 'number_of_points'):
            return self.points.shape[0]
        if nm in self.data:
            return self.data[nm]
        if nm == 'cell_centers':
            return Model(lambda **k: Centers(self), nm)
        raise Unsupported(f'attribute {nm} of a pyvista grid')

    def cell_centers(self):
        if not hasattr(self, 'centers'):
            f = ctx().fresh_fun('center', z3.IntSort(), z3.IntSort(), z3.RealSort())
            self.centers = SArr([self.types.shape[0], 3], lambda i, j: f(lift(i), lift(j)), 'f')
        return self.centers


class Centers:
    def __init__(self, grid):
        self.grid = grid

    def sv_getattr(self, it, nm):
        if nm == 'points':
            return self.grid.cell_centers().copy()
        raise Unsupported(f'attribute {nm} of cell centers')


@simple(pv.UnstructuredGrid)
def m_grid(it, *args, **kw):
    if len(args) == 2 and isinstance(args[0], SDict):
        cells, points = args
        pts = N.as_arr(it, points)
        if pts.dtype == 'i':
            pts = N.astype(pts, 'f')
        blocks = []
        for k, a in cells.d.items():
            a = N.as_arr(it, a)
            code = int(k)
            if a.ndim != 2:
                raise PyRaise(ValueError('Expected an np.ndarray of size `(N, nodes)`'))
            if code not in NN:
                raise Unsupported(f'VTK cell type {code}')
            ctx().must(eq(a.shape[1], NN[code]), ValueError('number of nodes of the cell type'))
            blocks.append((code, a.copy()))
        ctx().must(eq(pts.shape[1], 3), ValueError('points of 3 coordinates'))
        return Grid(blocks, pts.copy())
    if len(args) == 3 and not kw:
        cells, types, points = [N.as_arr(it, a) for a in args]
        if cells.ndim != 1 or types.ndim != 1 or points.ndim != 2 or cells.dtype != 'i' or types.dtype != 'i':
            raise Unsupported('construction of a pyvista grid')
        ctx().must(eq(points.shape[1], 3), ValueError('points of 3 coordinates'))
        return Raw(cells.copy(), types.copy(), N.astype(points, 'f') if points.dtype == 'i' else points.copy())
    raise Unsupported('construction of a pyvista grid')


@simple(pv.read)
def m_read(it, f, **kw):
    p = IO.as_path(f)
    for fo, na, content in reversed(IO.fs().written):
        if eq(fo, p.folder) is True and eq(na, p.name) is True and isinstance(content, Grid):
            return content.copy()
    raise Unsupported('which file is read')
