"""C18: safe output names."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SList, SDict, eq, and_, or_, not_, text_cat
from ..pydv import io_models as IO
from . import c16, c19, c20
from .names import candidate


@contract('C18')
def safe_name(v):
    from cfdtools.api import _files
    path = v.text('path')
    f = v.call(_files, path)
    p0 = IO.as_path(path)
    stem, suff = IO.parts_of(p0.name)
    there = lambda name: lift(IO.fs().exists(IO.SPath(p0.folder, name)))
    r = v.meth(f, 'find_safe_newfile')
    q = v.attr(f, '_path')
    v.prove('the safe name does not exist', not_(IO.fs().exists(q)))
    v.prove('same folder', eq(q.folder, p0.folder))
    v.prove('reports whether the name changed', eq(v.it.truth_term(r), there(p0.name)))
    v.prove('a free name is unchanged', z3.Implies(z3.Not(there(p0.name)), lift(eq(q.name, p0.name))))
    n, j = v.ivar(), v.ivar()
    v.prove('otherwise the first free numbered name', z3.Implies(there(p0.name), z3.Exists([n], z3.And(n >= 1, lift(eq(q.name, candidate(stem, suff, n))),
            z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < n), there(candidate(stem, suff, j))))))))
    v.prove('no file is written', not IO.fs().written)
    v.prove('name given to the caller', eq(v.attr(f, 'filename'), q.sv_str(v.it)))


@contract('C18', variants=['remove_dir', 'change_dir', 'change_suffix'])
def components(v, what):
    from cfdtools.api import _files
    path, d = v.text('path'), v.text('dir')
    f = v.call(_files, path)
    p0 = IO.as_path(path)
    if what == 'remove_dir':
        v.meth(f, 'remove_dir')
        want = p0.name
    elif what == 'change_dir':
        v.meth(f, 'change_dir', d)
        want = IO.F_JOIN(IO.as_path(d).sv_str(v.it), p0.name)
    else:
        ext = v.choose('.ic3', '.vtu', '.h5', '')
        v.meth(f, 'change_suffix', ext)
        want = IO.F_JOIN(p0.folder, text_cat(IO.parts_of(p0.name)[0], ext))
    v.prove('file name', eq(v.attr(f, 'filename'), want))


def new_file(v, path, name, before, over):
    """one file is written: the one whose name is returned, the first free one unless overwriting is asked for"""
    new = IO.fs().written[before:]
    v.prove('one file is written', len(new) == 1)
    fo, na, _ = new[0]
    p, q = IO.as_path(path), IO.as_path(name)
    v.prove('the name returned is the file written', and_(eq(fo, q.folder), eq(na, q.name)))
    v.prove('folder of the file', eq(fo, p.folder))
    if over:
        v.prove('the requested file is written', eq(na, p.name))
        return
    old = IO.fs().written[:before]
    there = lambda nm: z3.Or(IO.F_EXISTS(IO.ltext(fo), IO.ltext(nm)), *[lift(and_(eq(fo, a), eq(nm, b))) for a, b, _ in old])
    stem, suff = IO.parts_of(p.name)
    n, j = v.ivar(), v.ivar()
    v.prove('no existing file is written', z3.Not(there(na)))
    v.prove('the requested name when it is free, else the first free numbered one', z3.Or(lift(eq(na, p.name)), z3.And(there(p.name), z3.Exists([n], z3.And(n >= 1,
            lift(eq(na, candidate(stem, suff, n))), z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < n), there(candidate(stem, suff, j)))))))))


@contract('C18', bound='meshes of triangles with one or two scalar fields, of any size and values', variants=['grid', 'series', 'xdmf', 'data', 'packed'])
def dumps(v, kind):
    """any path, any existing files"""
    path = 'dumped.h5' if kind == 'packed' else v.text('path')
    over = False if kind == 'packed' else v.choose(False, True)
    if kind == 'data':
        from cfdtools.data import DataSetList
        n = v.int('ndata', 0)
        m = c20.mesh(v, ('tri3',))[0]
        src = v.call(DataSetList, 1, Xrep='cellaverage', Trep='instant')
        v.meth(src, 'add_datalist', SDict({'Q': v.array('Q', [n], 'f')}), time=v.choose(None, v.real('time')))
        v.meth(src, 'set_mesh', m)
    elif kind == 'grid':
        from cfdtools.vtk import vtkMesh
        src = v.call(vtkMesh, c20.mesh(v, ('tri3',))[0])
    else:
        from cfdtools.vtk import vtkList
        c16.some_grid(v, 'f0.vtu', 'tri3', {'p': ()}, True)
        if kind in ('series', 'xdmf'):
            src = v.call(vtkList, SList(['f0.vtu']))
            v.meth(src, 'read')
    before = len(IO.fs().written)
    if kind == 'packed':
        import cfdtools._cli as cli
        name = v.call(cli.vtkpack, SList(['f0.vtu']))
    else:
        name = v.meth(src, 'dumphdf', path, overwrite=over, **({'xdmf': True} if kind == 'xdmf' else {}))
    if kind == 'xdmf':
        xmf = IO.fs().written.pop()
        name_x = IO.as_path(name)
    new_file(v, path, name, before, over)
    if kind == 'xdmf':
        stem = IO.parts_of(name_x.name)[0]
        IO.fs().written.append(xmf)
        new_file(v, IO.SPath(name_x.folder, text_cat(stem, '.xmf')), IO.SPath(xmf[0], xmf[1]), before + 1, over)


@contract('C18', bound='command lines with one input file', variants=list(c19.KINDS))
def conversions(v, kind):
    c19.formats_and_names(v, kind)
