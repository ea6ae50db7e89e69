"""Contracts assumed on h5py: a file is a tree of groups and data sets with attributes, members being listed by name; what is
written is what is read again."""
import h5py
import numpy as np
from .core import Unsupported, PyRaise, is_term, is_num, is_bool, lift
from .values import SSeq, SList, SDict, SArr, eq, ctx, is_text, conc, and_, not_
from . import models as M, np_models as N, io_models as IO
from .models import Model, simple


def name_of(k):
    if isinstance(k, bytes):
        k = k.decode()
    if isinstance(k, np.str_):
        k = str(k)
    if not isinstance(k, str):
        raise Unsupported('symbolic name in a HDF5 file')
    return k


class Attrs:
    def __init__(self):
        self.d = {}

    def put(self, k, v):
        if ctx().generics:
            raise Unsupported('attributes written in a loop of symbolic length')
        if v is None:
            raise PyRaise(TypeError("Object dtype dtype('O') has no native HDF5 equivalent"))
        if isinstance(v, (SList, list, SSeq, tuple)):
            v = N.as_arr(None, v)
        if isinstance(v, SArr):
            v = v.copy()
        self.d[name_of(k)] = v

    def value(self, k):
        v = self.d[k]
        return v.copy() if isinstance(v, SArr) else v

    def sv_getitem(self, it, k):
        k = name_of(k)
        if k not in self.d:
            raise PyRaise(KeyError(f"Can't open attribute (can't locate attribute: '{k}')"))
        return self.value(k)

    def sv_setitem(self, it, k, v):
        self.put(k, v)

    def sv_contains(self, it, k):
        return name_of(k) in self.d

    def sv_iter(self, it):
        return SSeq(lst=sorted(self.d))

    def sv_len(self, it):
        return len(self.d)

    def sv_getattr(self, it, nm):
        if nm == 'get':
            return Model(lambda k, d=None: self.value(name_of(k)) if name_of(k) in self.d else d, nm)
        if nm == 'update':
            def update(d=None, **kw):
                pairs = list(seq_items(it, d)) if d is not None else []
                for k, v in pairs + list(kw.items()):
                    self.put(k, v)
            return Model(update, nm)
        if nm == 'keys':
            return Model(lambda: SList(sorted(self.d)), nm)
        if nm == 'values':
            return Model(lambda: SList([self.value(k) for k in sorted(self.d)]), nm)
        if nm == 'items':
            return Model(lambda: SList([(k, self.value(k)) for k in sorted(self.d)]), nm)
        if nm == 'create':
            return Model(lambda name, data=None, **k: self.put(name, data), nm)
        raise Unsupported(f'attribute {nm} of HDF5 attributes')


def seq_items(it, d):
    if isinstance(d, dict):
        return list(d.items())
    s = M.iterate(it, it.call_value(it.getattr(d, 'items'), [], {}))
    if s.lst is None:
        raise Unsupported('attributes of symbolic number')
    return s.lst


class Node:
    def __init__(self, name):
        self.name, self.attrs = name, Attrs()


class Group(Node):
    def __init__(self, name='/'):
        super().__init__(name)
        self.kids = {}

    def sv_type(self):
        return h5py.Group

    def root(self):
        return getattr(self, 'top', self)

    def walk(self, path, make=False):
        g = self.root() if path.startswith('/') else self
        for p in [x for x in path.split('/') if x and x != '.']:
            if not isinstance(g, Group) or p not in g.kids:
                if not make or not isinstance(g, Group):
                    return None
                g.add(p, Group(g.name.rstrip('/') + '/' + p))
            g = g.kids[p]
        return g

    def add(self, p, node):
        if ctx().generics:
            raise Unsupported('HDF5 object made in a loop of symbolic length')
        node.top = self.root()
        self.kids[p] = node
        return node

    def place(self, path):
        parts = [x for x in path.split('/') if x]
        if not parts:
            raise PyRaise(ValueError('Unable to create group (name already exists)'))
        g = (self.root() if path.startswith('/') else self).walk('/'.join(parts[:-1]), True)
        if parts[-1] in g.kids:
            raise PyRaise(ValueError(f'Unable to create {path} (name already exists)'))
        return g, parts[-1]

    def get(self, k):
        r = self.walk(name_of(k))
        if r is None:
            raise PyRaise(KeyError(f"Unable to open object (object '{k}' doesn't exist)"))
        return r

    def sv_getitem(self, it, k):
        return self.get(k)

    def sv_contains(self, it, k):
        return self.walk(name_of(k)) is not None

    def sv_iter(self, it):
        return SSeq(lst=sorted(self.kids))

    def sv_len(self, it):
        return len(self.kids)

    def sv_setitem(self, it, k, v):
        self.create_dataset(it, name_of(k), data=v)

    def sv_delitem(self, it, k):
        del self.kids[name_of(k)]

    def create_group(self, it, path, **kw):
        g, p = self.place(name_of(path))
        return g.add(p, Group(g.name.rstrip('/') + '/' + p))

    def create_dataset(self, it, path, shape=None, dtype=None, data=None, **kw):
        g, p = self.place(name_of(path))
        return g.add(p, Dataset(g.name.rstrip('/') + '/' + p, stored(it, shape, dtype, data)))

    def sv_enter(self, it):
        return self

    def sv_exit(self, it):
        return None

    def sv_getattr(self, it, nm):
        if nm in ('name', 'attrs'):
            return getattr(self, nm)
        if nm in ('create_group', 'create_dataset'):
            f = getattr(self, nm)
            return Model(lambda *a, **k: f(it, *a, **k), nm)
        if nm == 'require_group':
            return Model(lambda p: self.walk(name_of(p), True), nm)
        if nm == 'keys':
            return Model(lambda: SList(sorted(self.kids)), nm)
        if nm == 'values':
            return Model(lambda: SList([self.kids[k] for k in sorted(self.kids)]), nm)
        if nm == 'items':
            return Model(lambda: SList([(k, self.kids[k]) for k in sorted(self.kids)]), nm)
        if nm == 'get':
            def get(k, d=None, **o):
                r = self.walk(name_of(k))
                return d if r is None else r
            return Model(get, nm)
        if nm in ('close', 'flush'):
            return Model(lambda: None, nm)
        if nm == 'parent':
            return self.root().walk(self.name.rsplit('/', 1)[0] or '/')
        raise Unsupported(f'attribute {nm} of a HDF5 group')


def stored(it, shape, dtype, data):
    if data is None:
        raise Unsupported('HDF5 data set without data')
    if isinstance(dtype, np.dtype) and dtype.kind == 'O' or dtype is str:
        s = M.iterate(it, data)
        if s.lst is None or not all(isinstance(x, (str, bytes)) for x in s.lst):
            raise Unsupported('symbolic texts in a HDF5 data set')
        return SSeq(lst=[x.encode() if isinstance(x, str) else x for x in s.lst])
    if isinstance(data, (bytes, str)):
        return data
    a = N.as_arr(it, data)
    if dtype is not None:
        nw = N.narrow(dtype)    # int32 is part of the format: numbers of nodes, faces and cells are assumed to fit
        a = N.astype(a, N.dtype_of(dtype))
        if nw is not None and nw[0] != 'int32':
            a = N.fit(a, dtype)
    if a.dtype not in ('i', 'f', 'b', 'f4'):
        if a.ndim == 1 and a.dtype in ('U', 'S') and conc(a.shape[0]) is not None:
            if a.dtype == 'U':
                raise PyRaise(TypeError("No conversion path for dtype: dtype('<U')"))
            return SSeq(lst=[a.get(i) for i in range(conc(a.shape[0]))])
        raise Unsupported(f'HDF5 data set of {a.dtype}')
    if shape is not None:
        sh = M.iterate(it, shape).lst if not (is_num(shape)) else [shape]
        if len(sh) != a.ndim:
            if a.ndim == 0:
                raise Unsupported('HDF5 fill value')
            a = N.reshape(it, a, tuple(sh)) if hasattr(N, 'reshape') else None
            if a is None:
                raise Unsupported('shape of a HDF5 data set')
        for x, y in zip(sh, a.shape):
            ctx().must(lift(eq(x, y)), ValueError('Shape tuple is incompatible with data'))
    return a.copy()


class Dataset(Node):
    def __init__(self, name, data):
        super().__init__(name)
        self.data = data

    def value(self):
        return self.data.copy() if isinstance(self.data, SArr) else self.data

    def sv_type(self):
        return h5py.Dataset

    def sv_array(self, it, dtype=None):
        return N.as_arr(it, self.value(), dtype)

    def sv_iter(self, it):
        return M.iterate(it, self.value())

    def sv_len(self, it):
        return self.data.shape[0] if isinstance(self.data, SArr) else self.data.n

    def sv_getitem(self, it, k):
        if k == () or k is Ellipsis:
            if isinstance(self.data, SArr) and self.data.ndim == 0:
                return self.data.get()
            return self.value()
        if isinstance(self.data, SSeq):
            if isinstance(k, slice) and k == slice(None):
                return self.data
            return M.getitem(it, self.data, k)
        return M.getitem(it, self.value(), k)

    def sv_setitem(self, it, k, v):
        if not isinstance(self.data, SArr):
            raise Unsupported('change of a HDF5 data set')
        M.setitem(it, self.data, k, v)

    def sv_getattr(self, it, nm):
        if nm in ('name', 'attrs'):
            return getattr(self, nm)
        if nm in ('shape', 'dtype', 'size', 'ndim') and isinstance(self.data, SArr):
            return M.attribute(it, self.data, nm)
        raise Unsupported(f'attribute {nm} of a HDF5 data set')


@simple(h5py.File)
def m_file(it, path, mode='r', **kw):
    p = IO.as_path(path)
    f = IO.fs()
    ctx().assumptions.add('h5py: a file read gives back the tree of groups, data sets and attributes written in it; members and attributes are listed by name')
    old = None
    for fo, na, content in reversed(f.written if mode not in ('w', 'w-', 'x') else []):
        same = and_(eq(fo, p.folder), eq(na, p.name))
        if same is True or is_term(same) and ctx().proves(same):
            old = content
            break
        if is_term(same) and not ctx().proves(not_(same)):
            raise Unsupported('which file is opened')
    if mode == 'r' or mode == 'r+' or mode == 'a' and old is not None:
        if old is None:
            old = f.content(p) if hasattr(f, 'content') else None
            if old is None:
                raise PyRaise(FileNotFoundError(f'Unable to open file'))
        if mode != 'r':
            f.write(p, old)
        return old
    if mode in ('w', 'a', 'w-', 'x'):
        if mode in ('w-', 'x'):
            ctx().must(not_(f.exists(p)), FileExistsError('Unable to create file'))
        g = Group()
        f.write(p, g)
        return g
    raise PyRaise(ValueError('Invalid mode'))


@simple(h5py.string_dtype)
def m_string_dtype(it, *a, **k):
    return np.dtype('O')
