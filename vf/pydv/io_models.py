"""Contracts assumed on file names and on the file system (pathlib, os.path): names are terms, existence is a ghost predicate."""
import os
import pathlib
import z3
from .core import Unsupported, PyRaise, is_term, simp, lift, norm
from .values import eq, and_, or_, not_, ite, subst, is_text, is_stext, ltext, text_cat, ctx
from . import models as M
from .models import simple

S = z3.StringSort()
F_JOIN = z3.Function('path_join', S, S, S)
F_PARENT, F_NAME = z3.Function('path_parent', S, S), z3.Function('path_name', S, S)
F_STEM, F_SUFFIX = z3.Function('path_stem', S, S), z3.Function('path_suffix', S, S)
F_EXISTS = z3.Function('exists', S, S, z3.BoolSort())
F_FILE, F_SIZE = z3.Function('is_file', S, S, z3.BoolSort()), z3.Function('file_size', S, S, z3.IntSort())


class Stat:
    def __init__(self, size):
        self.st_size = size

    def sv_getattr(self, it, nm):
        if nm == 'st_size':
            return self.st_size
        raise Unsupported(f'{nm} of a file')


class FS:
    """ghost state of the file system: what existed at the beginning, what was written since"""

    def __init__(self):
        self.names = {}          # texts known to be plain file names
        self.split = {}          # name -> (stem, suffix), known by construction
        self.written = []        # (folder, name, content)

    def exists(self, p):
        ctx().assumptions.add('pathlib: name = stem + suffix, folder/name designates name in folder, exists() is a predicate of both')
        return or_(F_EXISTS(ltext(p.folder), ltext(p.name)), *[and_(eq(p.folder, f), eq(p.name, n)) for f, n, _ in self.written])

    def is_file(self, p):
        return or_(and_(F_EXISTS(ltext(p.folder), ltext(p.name)), F_FILE(ltext(p.folder), ltext(p.name))), *[and_(eq(p.folder, f), eq(p.name, n)) for f, n, _ in self.written])

    def is_dir(self, p):
        return and_(self.exists(p), not_(self.is_file(p)))

    def stat(self, p):
        if not ctx().branch(lift(self.exists(p))):
            raise PyRaise(FileNotFoundError(2, 'No such file or directory'))
        size = F_SIZE(ltext(p.folder), ltext(p.name))
        ctx().assume(size >= 0)
        return Stat(size)

    def write(self, p, content=None):
        if ctx().generics:
            raise Unsupported('file written in a loop of symbolic length')
        self.written.append((p.folder, p.name, content))


def fs():
    c = ctx()
    if 'fs' not in c.cache:
        c.cache['fs'] = FS()
    return c.cache['fs']


def key(t):
    return t if isinstance(t, str) else t.get_id()


def known_name(t):
    fs().names[key(t)] = t
    return t


def parts_of(t):
    """stem, suffix of a file name"""
    if isinstance(t, str):
        p = pathlib.PurePosixPath(t)
        return p.stem, p.suffix
    k = fs().split.get(key(t))
    if k is not None:
        return k[0], k[1]
    s, e = F_STEM(t), F_SUFFIX(t)
    ctx().assume(t == z3.Concat(s, e))
    fs().split[key(t)] = (s, e, t)
    return s, e


def as_path(x):
    if isinstance(x, SPath):
        return x
    if isinstance(x, pathlib.PurePath):
        x = str(x)
    if isinstance(x, str):
        p = pathlib.PurePosixPath(x)
        f = str(p.parent)
        return SPath('' if f == '.' else f, known_name(p.name))
    if is_stext(x):
        if x.decl().eq(F_JOIN):
            return SPath(x.arg(0), known_name(x.arg(1)))
        if key(x) in fs().names:
            return SPath('', x)
        if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT and all(z3.is_string_value(t) and '/' not in t.as_string() for t in x.children()[1:]):
            # text added to the last component of a path
            first, rest = x.arg(0), x.children()[1:]
            if first.decl().eq(F_JOIN):
                return SPath(first.arg(0), known_name(norm(z3.Concat(first.arg(1), *rest))))
            if key(first) in fs().names:
                return SPath('', known_name(x))
        return SPath(F_PARENT(x), known_name(F_NAME(x)))
    raise Unsupported(f'path of {type(x).__name__}')


class SPath:
    def __init__(self, folder, name):
        self.folder, self.name = folder, name

    def sv_subst(self, pairs):
        r = SPath(subst(self.folder, pairs), subst(self.name, pairs))
        known_name(r.name)
        if is_term(self.name) and key(self.name) in fs().split:
            s, e, _ = fs().split[key(self.name)]
            fs().split[key(r.name)] = (subst(s, pairs), subst(e, pairs), r.name)
        return r

    def sv_ite(self, c, o):
        r = SPath(ite(c, self.folder, o.folder), ite(c, self.name, o.name))
        known_name(r.name)
        return r

    def sv_type(self):
        return pathlib.PosixPath

    def sv_str(self, it):
        if self.folder == '' and isinstance(self.folder, str):
            return self.name
        if isinstance(self.folder, str) and isinstance(self.name, str):
            return str(pathlib.PurePosixPath(self.folder) / self.name)
        return F_JOIN(ltext(self.folder), ltext(self.name))

    def sv_eq(self, o):
        return and_(eq(self.folder, o.folder), eq(self.name, o.name)) if isinstance(o, SPath) else False

    def sv_binop(self, it, op, o, reflected):
        if op != 'Div':
            return NotImplemented
        a, b = (as_path(o), self) if reflected else (self, as_path(o) if isinstance(o, (SPath, pathlib.PurePath)) or is_stext(o) and key(o) in fs().names else name_or_path(o))
        if isinstance(b.folder, str) and b.folder == '':
            f = a.sv_str(it)
            return SPath('' if f == '.' else f, b.name)
        raise Unsupported(f'join of paths with folders: {b.folder!r} {o!r}'[:200])

    def sv_getattr(self, it, nm):
        if nm == 'name':
            return self.name
        if nm == 'parent':
            return Folder(self.folder)
        if nm == 'stem':
            return parts_of(self.name)[0]
        if nm == 'suffix':
            return parts_of(self.name)[1]
        if nm in ('exists', 'is_file', 'is_dir'):
            return M.Model(lambda: getattr(fs(), nm)(self), nm)
        if nm == 'stat':
            return M.Model(lambda: fs().stat(self), nm)
        if nm == 'with_suffix':
            return M.Model(lambda e: self.made(parts_of(self.name)[0], e), nm)
        if nm == 'with_stem':
            return M.Model(lambda s: self.made(s, parts_of(self.name)[1]), nm)
        if nm == 'with_name':
            return M.Model(lambda n: SPath(self.folder, known_name(n)), nm)
        if nm == 'joinpath':
            return M.Model(lambda o: self.sv_binop(it, 'Div', o, False), nm)
        raise Unsupported(f'attribute {nm} of a path')

    def made(self, stem, suffix):
        if isinstance(suffix, str) and suffix and (not suffix.startswith('.') or suffix == '.'):
            raise PyRaise(ValueError(f'Invalid suffix {suffix!r}'))
        n = known_name(text_cat(stem, suffix))
        if is_term(n):
            fs().split[key(n)] = (stem, suffix, n)
        return SPath(self.folder, n)


def name_or_path(o):
    """what is joined to a folder: a text made of a stem, (n) and a suffix is a file name"""
    def flat(t):
        return [y for x in t.children() for y in flat(x)] if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]
    if is_stext(o) and o.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        parts = flat(o)
        known = {key(x) for k in fs().split.values() for x in k[:2] if is_term(x)}
        stems = [x for x in parts if x.num_args() == 1 and (x.decl().eq(F_STEM) or x.decl().eq(F_SUFFIX)) or key(x) in known]
        lits = [x.as_string() for x in parts if z3.is_string_value(x)]
        nums = [x for x in parts if x.num_args() == 1 and x.decl().name() == 'str_of_int']
        if not any('/' in x for x in lits) and (stems or nums and len(''.join(lits)) > 2 and len(lits) + len(nums) == len(parts)):
            return SPath('', known_name(o))
    return as_path(o)


class Folder(SPath):
    """parent of a path: only used to join a name"""

    def __init__(self, folder):
        self.folder = folder

    @property
    def name(self):
        return F_NAME(ltext(self.folder))

    def sv_subst(self, pairs):
        return Folder(subst(self.folder, pairs))

    def sv_str(self, it):
        return '.' if isinstance(self.folder, str) and self.folder == '' else self.folder


@simple(pathlib.Path, pathlib.PosixPath, pathlib.PurePath)
def m_path(it, *xs):
    if not xs:
        return Folder('')
    p = as_path(xs[0])
    for x in xs[1:]:
        p = p.sv_binop(it, 'Div', x, False)
    return p


@simple(os.path.exists)
def m_exists(it, x):
    return fs().exists(as_path(x))


@simple(os.path.isfile)
def m_isfile(it, x):
    return fs().is_file(as_path(x))


@simple(os.path.isdir)
def m_isdir(it, x):
    return fs().is_dir(as_path(x))


@simple(os.path.getsize)
def m_getsize(it, x):
    return fs().stat(as_path(x)).st_size


@simple(os.path.join)
def m_join(it, a, *xs):
    p = as_path(a)
    for x in xs:
        p = p.sv_binop(it, 'Div', x, False)
    return p.sv_str(it)


@simple(os.path.basename)
def m_basename(it, x):
    return as_path(x).name


@simple(os.path.dirname)
def m_dirname(it, x):
    return as_path(x).folder


@simple(os.path.splitext)
def m_splitext(it, x):
    p = as_path(x)
    s, e = parts_of(p.name)
    return SPath(p.folder, known_name(s)).sv_str(it), e
