"""C19: the conversion commands do what their options say. Readers and writers are used through their interface (contracts of C10-C15, C20)."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract, Done
from ..pydv.values import SSeq, SList, SArr, SDict, eq, and_, or_, not_, seq_of, conc, is_term, text_cat
from ..pydv import io_models as IO, models as M, cli_models as CLI
from ..pydv.interp import Model
from .c08 import stacked
from . import c08
from .names import candidate

KINDS = {'ic3v2': ('cfdwrite_ic3v2', '.ic3', 'cfdtools.ic3.writerV2.writer'), 'ic3v3': ('cfdwrite_ic3v3', '.ic3', 'cfdtools.ic3.writerV3.writer'),
         'vtk': ('cfdwrite_vtk', '.vtu', 'cfdtools.vtk._vtk.vtkMesh')}
READERS = {'IC3': ('.ic3', 'cfdtools.ic3.reader_legacy.reader'), 'GMSH': ('.msh', 'cfdtools.gmsh.reader.reader'), 'CGNS': ('.cgns', 'cfdtools.cgns.cgns.cgnsMesh')}


class World:
    """readers that give back one mesh, writers that keep what they are given"""

    def __init__(self, v, mesh, ncell):
        self.v, self.mesh, self.ncell, self.reads, self.writes = v, mesh, ncell, [], []
        ov = v.it.overrides
        for fmt, (ext, q) in READERS.items():
            ov[q] = lambda it, args, kwargs, fmt=fmt: Reader(self, fmt, args, kwargs)
        for kind, (_, _, q) in KINDS.items():
            ov[q] = lambda it, args, kwargs, kind=kind: Writer(self, kind, args, kwargs)


class Reader:
    def __init__(self, w, fmt, args, kwargs):
        self.w, self.ready = w, False
        w.reads.append((fmt, args[0] if args else kwargs['filename']))

    def sv_getattr(self, it, nm):
        if nm == 'read_data':
            def read():
                self.ready = True
            return Model(read, nm)
        if not self.ready:
            raise M.PyRaise(AttributeError(nm))
        if nm == 'ncell':
            return self.w.ncell
        if nm == 'export_mesh':
            return Model(lambda: self.w.mesh, nm)
        raise M.PyRaise(AttributeError(nm))


class Writer:
    def __init__(self, w, kind, args, kwargs):
        self.w, self.kind, self.mesh = w, kind, args[0] if args else kwargs['mesh']

    def sv_getattr(self, it, nm):
        if nm == 'write_data':
            def write(f):
                IO.fs().write(IO.as_path(f), self)
                self.w.writes.append((self.kind, self.mesh, f))
            return Model(write, nm)
        raise M.PyRaise(AttributeError(nm))


FIELDS = {'p': (), 'u': (3,), 'q': ()}


def source(v, nmark=1):
    m, con, content, nn, xyz, marks = c08.mesh(v, 'quad4', nmark)
    total = sum((b.n for b, _ in content), 0)
    v.assume(total >= 1)
    data = {}
    for what, n in (('_celldata', total), ('_nodedata', nn)):
        d = {f: v.array(f + what, [n] + list(sh), 'f') for f, sh in FIELDS.items()}
        data[what] = d
        v.setattr(m, what, SDict({k: a.copy() for k, a in d.items()}))
    return m, con, content, nn, xyz, marks, total, data


def filename(v, ext):
    """any path whose name ends with the extension"""
    folder, stem = v.text('folder'), v.text('stem')
    name = IO.known_name(text_cat(stem, ext))
    IO.fs().split[IO.key(name)] = (stem, ext, name)
    return IO.F_JOIN(folder, name), folder, stem, name


def same_array(v, name, a, b):
    v.prove(name + ': shape', len(a.shape) == len(b.shape) and and_(*[eq(x, y) for x, y in zip(a.shape, b.shape)]))
    v.prove_all(name + ': values', b.shape[0], lambda i: and_(*[eq(a.get(i, *x), b.get(i, *x)) for x in ([()] if b.ndim == 1 else [(0,), (1,), (2,)])]))


def run(v, kind, words):
    import cfdtools._cli as cli
    fun, ext, _ = KINDS[kind]
    return v.call(getattr(cli, fun), SList(words))


@contract('C19', bound='command lines with one input file', variants=list(KINDS))
def formats_and_names(v, kind):
    m, con, content, nn, xyz, marks, total, data = source(v, 0)
    w = World(v, m, total)
    ext = v.text('ext')
    path, folder, stem, name = filename(v, ext)
    fmt = v.choose(None, 'IC3', 'GMSH', 'CGNS', 'VTK', 'none')
    out = v.choose(False, True)
    words = [path] + (['--fmt', fmt] if fmt else [])
    if out:
        out = v.text('out')
        words += ['--outpath', out]
    before = IO.fs()
    res = []
    e = v.raises(lambda: res.append(run(v, kind, words)), Exception)
    known = [lift(eq(ext, x)) for x, _ in READERS.values()]
    if e is not None:
        v.prove('refused only when the format is unknown', fmt in ('VTK', 'none') or (fmt is None and z3.Not(z3.Or(*known))))
        v.prove('nothing is written after a refusal', not w.writes and not IO.fs().written)
        return
    v.prove('known format', fmt in READERS or fmt is None)
    v.prove('the file is read once', len(w.reads) == 1)
    f, n = w.reads[0]
    v.prove('format of the reader', f == fmt if fmt else eq(ext, READERS[f][0]))
    v.prove('the file given is read', eq(n, path))
    v.prove('one file is written', len(w.writes) == 1 and len(IO.fs().written) == 1)
    k, mesh, fname = w.writes[0]
    v.prove('writer of the command', k == kind)
    v.prove('the name returned is the file written', eq(res[0], fname))
    oext = KINDS[kind][1]
    fo, na, _ = IO.fs().written[0]
    v.prove('folder of the output', eq(fo, IO.as_path(out).sv_str(v.it) if out is not False else ''))
    there = lambda nm: IO.F_EXISTS(IO.ltext(fo), IO.ltext(nm))
    v.prove('no existing file is written', z3.Not(there(na)))
    n, j = v.ivar(), v.ivar()
    first = lift(eq(na, text_cat(stem, oext)))
    v.prove('stem of the input and extension of the target', z3.Or(first, z3.And(there(text_cat(stem, oext)), z3.Exists([n], z3.And(n >= 1, lift(eq(na, candidate(stem, oext, n))),
            z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < n), there(candidate(stem, oext, j)))))))))


OPTS = ['plain', 'scale', 'remove-cell', 'remove-node', 'remove-both', 'all']


@contract('C19', bound='meshes of one cell type with one mark; three cell and three node fields (scalar and vector), of any size and values', variants=OPTS)
def options(v, opts):
    m, con, content, nn, xyz, marks, total, data = source(v)
    w = World(v, m, total)
    path, folder, stem, name = filename(v, '.msh')
    kind = v.choose('ic3v3', 'vtk') if opts == 'plain' else 'ic3v2'
    words, rm = [], {'_celldata': [], '_nodedata': []}
    s = [1, 1, 1]
    if opts in ('remove-cell', 'remove-both', 'all'):
        rm['_celldata'] = v.choose(['p'], ['u', 'absent', 'q'], ['absent'])
        words += ['--remove-cell-data'] + rm['_celldata']
    if opts in ('remove-node', 'remove-both', 'all'):
        rm['_nodedata'] = v.choose(['q'], ['absent', 'p', 'u'], ['absent'])
        words += ['--remove-node-data'] + rm['_nodedata']
    if opts in ('scale', 'all'):
        s = [v.real(f's{c}') for c in 'xyz']
        words += ['--scale'] + [CLI.NumWord(x) for x in s]
    words = [path] + words if v.choose(True, False) or not words else words + ['--', path]
    run(v, kind, words)
    v.prove('one file is written', len(w.writes) == 1)
    _, new, _ = w.writes[0]
    v.prove('sizes', and_(eq(v.attr(new, 'nnode'), nn), eq(v.attr(new, 'ncell'), total)))
    got = seq_of(v.meth(new, 'nodescoord'))
    for c in range(3):
        v.prove(f'coordinate {c}: number', eq(got.get(c).shape[0], nn))
        v.prove_all(f'coordinate {c}', nn, lambda i: eq(got.get(c).get(i), xyz[c].get(i) * lift(s[c]) if is_term(s[c]) else xyz[c].get(i)))
    from .c02 import shows
    shows(v, 'cells', v.attr(new, '_cell2node'), content)
    for what in ('_celldata', '_nodedata'):
        d = v.attr(new, what)
        v.prove(f'names in {what}', sorted(d.d) == sorted(set(FIELDS) - set(rm[what])))
        for f in d.d:
            same_array(v, f'{f} in {what}', d.d[f], data[what][f])
    bocos = v.attr(new, '_bocos')
    v.prove('names of the marks', list(seq_of(bocos).lst) == [n for n, *_ in marks])
    for n, gd, ty, sq in marks:
        b = v.item(bocos, n)
        v.prove(f'kind and type of {n}', v.attr(b, 'geodim') == gd and v.attr(b, 'type') == ty)
        v.seq_eq(f'mark {n}', v.meth(v.attr(b, 'index'), 'list'), sq)


@contract('C19', bound='meshes of one cell type with one mark')
def extrusion(v):
    m, con, content, nn, xyz, marks, total, data = source(v)
    w = World(v, m, total)
    path, folder, stem, name = filename(v, '.cgns')
    nz = v.int('nz', 1)
    words = ['--extrude', CLI.NumWord(nz)]
    s = [1, 1, 1]
    if v.choose(True, False):
        s = [v.real(f's{c}') for c in 'xyz']
        words = (lambda a, b: a + b if v.choose(True, False) else b + a)(words, ['--scale'] + [CLI.NumWord(x) for x in s])
    run(v, 'ic3v2', [path] + words)
    v.prove('one file is written', len(w.writes) == 1)
    _, new, _ = w.writes[0]
    v.prove('number of nodes', eq(v.attr(new, 'nnode'), nn * (nz + 1)))
    v.prove('number of cells', eq(v.attr(new, 'ncell'), nz * total))
    got = seq_of(v.meth(new, 'nodescoord'))
    k, i = v.arbitrary(nz + 1), v.arbitrary(nn)
    for c in range(3):
        x = xyz[c].get(i) + (z3.ToReal(k) / z3.ToReal(nz) if c == 2 else 0)
        v.prove(f'coordinate {c} of node i of plane k', eq(got.get(c).get(k * nn + i), x * lift(s[c]) if is_term(s[c]) else x))
    stacked(v, 'extruded', v.attr(new, '_cell2node'), content, nz + 1, nn, total)
