"""Symbolic interpreter of the live functions of /repo: their AST is read from the module's source file at every run."""
import ast
import builtins
import inspect
import logging
import types
import collections
import functools
import operator
import os
import z3
import numpy as np
from .core import (Unsupported, Infeasible, PyRaise, NeedGuard, EngineError, Generic, is_term, is_int, is_num, is_bool, lift,
                   simp, norm, same_int, consts_of, poly, unpoly)
from . import values as V
from .values import (SSeq, SObj, SList, SSet, SDict, SArr, SIter, Store, OpaqueStr, concat, seq_of, ite, eq, and_, or_, not_, conc,
                     has_term, subst, ctx)

REPO = os.environ.get('VERIF_REPO', '/repo')
UNROLL = 400


class Poison:
    def __init__(self, name):
        self.name = name


class Inst(SObj):
    """instance of a class of /repo"""

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self._born()

    def __repr__(self):
        return f'<{self.cls.__name__}>'


class Func:
    """function or lambda defined inside interpreted code"""

    def __init__(self, node, frame, cls=None, defaults=(), kwdefaults=None, name='<lambda>'):
        self.node, self.frame, self.cls, self.defaults, self.kwdefaults, self.name = node, frame, cls, defaults, kwdefaults or {}, name


CACHED = type(functools.lru_cache(maxsize=None)(lambda: 0))


class Bound:
    def __init__(self, self_, fn, name=''):
        self.self_, self.fn, self.name = self_, fn, name


class Model:
    """a value whose call is a python function of the engine"""

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class Frame:
    def __init__(self, globs, closure=None, cls=None, qualname=''):
        self.locals = {}
        self.globals = globs
        self.closure = closure or []     # list of dict-like lookups
        self.cls = cls
        self.qualname = qualname
        self.nonlocals = set()
        self.globalnames = set()


_AST = {}


def module_ast(filename):
    if filename not in _AST:
        with open(filename) as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    line = min(line, min(d.lineno for d in node.decorator_list))
                name = node.name if isinstance(node, ast.FunctionDef) else '<lambda>'
                idx.setdefault((line, name), node)
        _AST[filename] = idx
    return _AST[filename]


def source_of(fn):
    code = fn.__code__
    node = module_ast(code.co_filename).get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported(f'source of {fn.__qualname__} not found')
    return node


def in_repo(fn):
    f = getattr(getattr(fn, '__code__', None), 'co_filename', '')
    return os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep)


def class_in_repo(cls):
    m = inspect.sys.modules.get(getattr(cls, '__module__', ''), None) if isinstance(cls, type) else None
    f = getattr(m, '__file__', None)
    return bool(f) and os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep)


class GlobalsOf:
    """the global names of a module of the repository: what the executed code stores there stays in the run"""

    def __init__(self, it, g):
        self.it, self.g = it, g

    def sv_setitem(self, it, key, value):
        if not isinstance(key, str):
            raise Unsupported('name of a global')
        it.globals_over.setdefault(id(self.g), {})[key] = value

    def sv_getitem(self, it, key):
        over = it.globals_over.get(id(self.g), {})
        return over[key] if key in over else self.g[key]


class Interp:
    def __init__(self, models):
        self.loops = {}
        self.models = models
        self.depth = 0
        self.globals_over = {}
        self.carried_attrs = []
        self.overrides = {}   # qualname -> callable(interp, args, kwargs): contract used in place of the body

    # ================================================================= calls
    def call(self, fn, *args, **kwargs):
        return self.call_value(fn, list(args), dict(kwargs))

    def call_value(self, fn, args, kwargs):
        m = self.models
        if isinstance(fn, Bound):
            return self.call_value(fn.fn, [fn.self_] + args, kwargs)
        if isinstance(fn, Model):
            return fn.fn(*args, **kwargs)
        if isinstance(fn, Func):
            return self.call_func(fn.node, fn.frame, fn.cls, fn.defaults, fn.kwdefaults, args, kwargs, fn.name, [fn.frame], fn.frame.globals)
        if isinstance(fn, CACHED) and in_repo(fn.__wrapped__):
            return self.cached_call(fn, args, kwargs)
        if isinstance(fn, types.MethodType):
            mod = m.lookup(fn)
            if mod is not None:
                return mod(self, args, kwargs)
            if in_repo(fn.__func__):
                return self.call_value(fn.__func__, [fn.__self__] + args, kwargs)
        mod = m.lookup(fn)
        if mod is not None:
            return mod(self, args, kwargs)
        if isinstance(fn, types.FunctionType) and in_repo(fn):
            ov = self.overrides.get(f'{fn.__module__}.{fn.__qualname__}')
            if ov is not None:
                return ov(self, args, kwargs)
            node = source_of(fn)
            clo = {}
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
                try:
                    clo[n] = c.cell_contents
                except ValueError:
                    pass
            cls = None
            parts = fn.__qualname__.split('.')
            if len(parts) > 1 and parts[-2] != '<locals>':
                cls = parts[-2]
            ctx().functions.add(f'{fn.__module__}.{fn.__qualname__}')
            return self.call_func(node, None, cls, fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kwargs, fn.__qualname__, [clo],
                                  fn.__globals__)
        if isinstance(fn, type) and class_in_repo(fn) and not issubclass(fn, BaseException):
            ov = self.overrides.get(f'{fn.__module__}.{fn.__qualname__}')
            if ov is not None:
                return ov(self, args, kwargs)
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Inst):
            return self.call_value(self.getattr(fn, '__call__'), args, kwargs)
        if isinstance(fn, type) and issubclass(fn, BaseException):
            return fn(*[a if not has_term(a) and not isinstance(a, (OpaqueStr, Inst)) else '<text>' for a in args])
        if isinstance(fn, Poison):
            raise Unsupported(f'loop-carried value of {fn.name}')
        if hasattr(fn, 'sv_call'):
            return fn.sv_call(self, args, kwargs)
        return self.native(fn, args, kwargs)

    def cached_call(self, fn, args, kwargs):
        """functools.lru_cache: one call for each list of arguments (objects compared by identity)"""
        if ctx().generics:
            raise Unsupported('cached function called in a loop of symbolic length')

        def key(x):
            if isinstance(x, Inst):
                if any('__eq__' in c.__dict__ or '__hash__' in c.__dict__ for c in x.cls.__mro__ if c is not object):
                    raise Unsupported('cached function of an object with its own equality')
                return ('object', id(x))
            if isinstance(x, tuple):
                return ('tuple', tuple(key(y) for y in x))
            if isinstance(x, (SObj, SArr, list, dict, set)):
                raise PyRaise(TypeError(f'unhashable type: {type(x).__name__}'))
            if is_term(x):
                raise Unsupported('cached function of symbolic values')
            try:
                return ('value', hash(x), x)
            except TypeError:
                raise PyRaise(TypeError(f'unhashable type: {type(x).__name__}'))
        if fn.cache_parameters()['maxsize'] is not None:
            raise Unsupported('cached function of symbolic values')
        k = (fn, tuple(key(x) for x in args), tuple((n, key(x)) for n, x in kwargs.items()))
        kept = ctx().cache.setdefault('cached', {})
        if k not in kept:
            kept[k] = (self.call_value(fn.__wrapped__, args, kwargs), args)
        return kept[k][0]

    def native(self, fn, args, kwargs):
        """library function on concrete values only"""
        if not callable(fn):
            raise PyRaise(TypeError(f'{type(fn).__name__} object is not callable'))
        try:
            a = [self.to_native(x) for x in args]
            k = {n: self.to_native(x) for n, x in kwargs.items()}
        except NotNative as e:
            raise Unsupported(f'call of {getattr(fn, "__module__", "")}.{getattr(fn, "__qualname__", repr(fn))} with {e}')
        mod = (getattr(fn, '__module__', None) or '')
        if not self.models.native_ok(fn):
            raise Unsupported(f'call of library function {mod}.{getattr(fn, "__qualname__", repr(fn)[:80])}')
        try:
            r = fn(*a, **k)
        except (Unsupported, PyRaise, Infeasible):
            raise
        except Exception as e:
            raise PyRaise(e)
        return self.from_native(r)

    def to_native(self, x):
        if isinstance(x, (int, float, str, bytes, bool, type(None), complex, type, slice, type(Ellipsis))):
            if isinstance(x, slice) and has_term(x):
                raise NotNative('symbolic slice')
            return x
        if isinstance(x, tuple):
            return tuple(self.to_native(y) for y in x)
        if isinstance(x, SList):
            if x.seq.lst is None:
                raise NotNative('list of symbolic length')
            return [self.to_native(y) for y in x.seq.lst]
        if isinstance(x, SDict):
            if x.map is not None:
                raise NotNative('symbolic dict')
            x.touch()
            return {k: self.to_native(v) for k, v in x.d.items()}
        if isinstance(x, SSet):
            return set(self.to_native(y) for y in x.enum().lst) if x._seq.lst is not None else self._nn('symbolic set')
        if isinstance(x, SArr):
            if any(not isinstance(s, int) for s in x.shape):
                raise NotNative('array of symbolic shape')
            n = 1
            for s in x.shape:
                n *= s
            if n > 4096:
                raise NotNative('large array')
            out = np.empty(x.shape, dtype={'i': int, 'f': float, 'b': bool}.get(x.dtype, object))
            for idx in np.ndindex(*x.shape):
                v = x.get(*idx)
                if is_term(v):
                    v = simp(v)
                    if is_term(v):
                        raise NotNative('symbolic array')
                out[idx] = v
            return out
        if is_term(x):
            s = simp(x)
            if is_term(s):
                raise NotNative('symbolic value')
            return s
        if isinstance(x, SIter):
            s = x.take()
            if s.lst is None:
                raise NotNative('symbolic iterator')
            return iter([self.to_native(y) for y in s.lst])
        if isinstance(x, (Inst, Func, Bound, Model, OpaqueStr, SObj, SSeq, Poison)) or hasattr(x, 'sv_getattr'):
            raise NotNative(type(x).__name__)
        return x

    def _nn(self, m):
        raise NotNative(m)

    def from_native(self, r):
        if isinstance(r, np.ndarray):
            return self.models.from_ndarray(r)
        if isinstance(r, np.generic):
            return r.item() if r.dtype.kind in 'ifbSU' else r
        if type(r) is list:
            return SList([self.from_native(x) for x in r])
        if type(r) is tuple:
            return tuple(self.from_native(x) for x in r)
        if type(r) is dict:
            return SDict({k: self.from_native(v) for k, v in r.items()})
        return r

    def instantiate(self, cls, args, kwargs):
        o = Inst(cls)
        init = inspect.getattr_static(cls, '__init__', None)
        if isinstance(init, types.FunctionType):
            self.call_value(init, [o] + args, kwargs)
        elif args or kwargs:
            raise Unsupported(f'construction of {cls.__name__}')
        return o

    def bind(self, a, defaults, kwdefaults, args, kwargs, name):
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos) and not a.vararg:
            raise PyRaise(TypeError(f'{name}() takes {len(pos)} positional arguments'))
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        for n in list(kwargs):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in loc:
                    raise PyRaise(TypeError(f'{name}() got multiple values for argument {n}'))
                loc[n] = kwargs.pop(n)
        if kwargs:
            if not a.kwarg:
                raise PyRaise(TypeError(f'{name}() got an unexpected keyword argument {list(kwargs)[0]}'))
        if a.kwarg:
            loc[a.kwarg.arg] = SDict(kwargs)
        for n, d in zip(pos[len(pos) - len(defaults):], defaults):
            loc.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in loc and x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in loc:
                raise PyRaise(TypeError(f"{name}() missing argument '{n}'"))
        return loc

    def call_func(self, node, frame, cls, defaults, kwdefaults, args, kwargs, name, closure, globs):
        self.depth += 1
        c = ctx()
        where = c.where
        try:
            if self.depth > 60:
                raise Unsupported('recursion too deep')
            fr = Frame(globs, closure, cls, name)
            fr.locals = self.bind(node.args, defaults, kwdefaults, args, kwargs, name)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            for st in ast.walk(node):
                if isinstance(st, (ast.Yield, ast.YieldFrom)):
                    return self.generator(node, fr)
            out = self.block(node.body, fr)
            v = self.result_of(out, fr)
            return v
        finally:
            self.depth -= 1
            c.where = where

    def generator(self, node, fr):
        """generator functions made of plain yields and loops: all items are computed at once"""
        fr.yielded = SList([])
        out = self.block(node.body, fr)
        self.result_of(out, fr)
        return SIter(fr.yielded.seq)

    def result_of(self, out, fr):
        k = out[0]
        if k == 'ret':
            return out[1]
        if k in ('fall',):
            return None
        if k == 'dead':
            raise Infeasible()
        if k == 'split':
            _, c, (oa, la), (ob, lb) = out
            ra, rb = self.result_of(oa, fr), self.result_of(ob, fr)
            if ra is None and rb is None:
                return None
            return ite(c, ra, rb)
        raise Unsupported(k)

    # ================================================================= statements
    def block(self, stmts, fr):
        for i, st in enumerate(stmts):
            out = self.stmt(st, fr)
            if out[0] == 'fall':
                continue
            if out[0] == 'split':
                return self.resume(out, stmts[i + 1:], fr)
            return out
        return ('fall',)

    def resume(self, out, rest, fr):
        if out[0] == 'fall':
            return self.block(rest, fr)
        if out[0] != 'split':
            return out
        _, c, (oa, la), (ob, lb) = out
        top = ctx().generics[-1]
        sides = []
        for cond, o, l in ((c, oa, la), (z3.Not(c), ob, lb)):
            if o[0] in ('fall', 'split'):
                fr.locals = dict(l)
                top.guards.append(cond)
                try:
                    o = self.resume(o, rest, fr)
                    l = fr.locals
                finally:
                    top.guards.pop()
            sides.append((o, l))
        return self.merge(c, sides[0], sides[1], fr)

    def merge(self, c, a, b, fr):
        (oa, la), (ob, lb) = a, b
        if oa[0] == 'dead':
            fr.locals = lb
            return ob
        if ob[0] == 'dead':
            fr.locals = la
            return oa
        if oa[0] == ob[0] and oa[0] in ('fall', 'cont', 'brk'):
            fr.locals = self.merge_locals(c, la, lb)
            return oa
        if oa[0] == 'ret' and ob[0] == 'ret':
            if oa[1] is None and ob[1] is None:
                return oa
            return ('ret', ite(c, oa[1], ob[1]))
        fr.locals = self.merge_locals(c, la, lb)
        return ('split', c, a, b)

    def merge_locals(self, c, la, lb):
        out = {}
        for n in set(la) | set(lb):
            if n in la and n in lb:
                if la[n] is lb[n]:
                    out[n] = la[n]
                else:
                    try:
                        out[n] = ite(c, la[n], lb[n])
                    except Unsupported:
                        out[n] = Poison(n)
            else:
                out[n] = Poison(n)
        return out

    def stmt(self, st, fr):
        c = ctx()
        c.steps += 1
        if c.steps > 200000:
            raise Unsupported('too many steps')
        c.where = f'{fr.qualname}:{st.lineno}'
        return getattr(self, 's_' + type(st).__name__, self.s_unknown)(st, fr)

    def s_unknown(self, st, fr):
        raise Unsupported(f'statement {type(st).__name__} line {st.lineno}')

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return ('fall',)
        if isinstance(st.value, ast.Yield):
            fr.yielded.append(self.eval(st.value.value, fr))
            return ('fall',)
        self.eval(st.value, fr)
        return ('fall',)

    def s_Pass(self, st, fr):
        return ('fall',)

    def s_Return(self, st, fr):
        return ('ret', self.eval(st.value, fr) if st.value else None)

    def s_Break(self, st, fr):
        return ('brk',)

    def s_Continue(self, st, fr):
        return ('cont',)

    def s_Global(self, st, fr):
        raise Unsupported('global statement')

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)
        return ('fall',)

    def s_Import(self, st, fr):
        import importlib
        for al in st.names:
            m = importlib.import_module(al.name)
            if al.asname:
                fr.locals[al.asname] = m
            else:
                fr.locals[al.name.split('.')[0]] = importlib.import_module(al.name.split('.')[0])
        return ('fall',)

    def s_ImportFrom(self, st, fr):
        import importlib
        m = importlib.import_module(st.module if st.level == 0 else '.' * st.level + (st.module or ''), fr.globals.get('__package__'))
        for al in st.names:
            fr.locals[al.asname or al.name] = getattr(m, al.name)
        return ('fall',)

    def s_FunctionDef(self, st, fr):
        a = st.args
        d = [self.eval(x, fr) for x in a.defaults]
        kd = {x.arg: self.eval(v, fr) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
        if st.decorator_list:
            raise Unsupported('decorated nested function')
        fr.locals[st.name] = Func(st, fr, fr.cls, d, kd, f'{fr.qualname}.{st.name}')
        return ('fall',)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.locals:
                    raise PyRaise(UnboundLocalError(t.id))
                del fr.locals[t.id]
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Inst) and o.outer() is None:
                    o.attrs.pop(self.mangle(t.attr, fr), None)
                else:
                    raise Unsupported('del of attribute')
        return ('fall',)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)
        return ('fall',)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)
        return ('fall',)

    def s_AugAssign(self, st, fr):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            v = self.eval(st.value, fr)
            self.assign(t, self.models.augop(self, op, old, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, self.mangle(t.attr, fr))
            v = self.eval(st.value, fr)
            self.setattr(o, self.mangle(t.attr, fr), self.models.augop(self, op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            v = self.eval(st.value, fr)
            self.models.augitem(self, op, o, i, v)
        return ('fall',)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                for e in fr.closure:
                    d = e.locals if isinstance(e, Frame) else e
                    if t.id in d:
                        d[t.id] = v
                        return
                raise Unsupported('nonlocal')
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = seq_of(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if s.lst is None:
                if star:
                    raise Unsupported('starred assignment of a symbolic sequence')
                ctx().must(lift(s.n) == len(t.elts), ValueError('wrong number of values to unpack'))
                items = [s.get(i) for i in range(len(t.elts))]
            else:
                items = s.lst
            if star:
                k = star[0]
                m = len(items) - (len(t.elts) - 1)
                if m < 0:
                    raise PyRaise(ValueError('not enough values to unpack'))
                items = items[:k] + [SList(items[k:k + m])] + items[k + m:]
            if len(items) != len(t.elts):
                raise PyRaise(ValueError('wrong number of values to unpack'))
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.models.setitem(self, o, self.eval(t.slice, fr), v)
        else:
            raise Unsupported(type(t).__name__)

    def s_Assert(self, st, fr):
        v = self.truth_term(self.eval(st.test, fr))
        ctx().must(v, AssertionError(ast.unparse(st.test)[:100]))
        return ('fall',)

    def s_Raise(self, st, fr):
        c = ctx()
        if st.exc is None:
            exc = getattr(fr, 'handling', None) or RuntimeError('re-raise')
        else:
            exc = self.eval(st.exc, fr)
            if isinstance(exc, type):
                exc = exc()
        if not isinstance(exc, BaseException):
            raise Unsupported('raise of a non exception')
        if c.generics and any(g.guards for g in c.generics) or c.generics:
            c.must(False, exc)
            return ('dead',)
        raise PyRaise(exc)

    def s_If(self, st, fr):
        try:
            v = self.truth_term(self.eval(st.test, fr))
            b = ctx().branch(v)
        except NeedGuard as e:
            return self.guarded_if(e.cond, st.body, st.orelse, fr)
        return self.block(st.body if b else st.orelse, fr)

    def guarded_if(self, cond, body, orelse, fr):
        top = ctx().generics[-1]
        sides = []
        base = fr.locals
        for c, b in ((cond, body), (z3.Not(cond), orelse)):
            fr.locals = dict(base)
            top.guards.append(c)
            try:
                if ctx().memo([], 1000) == 'unsat':
                    o = ('dead',)
                else:
                    o = self.block(b, fr)
            except Infeasible:
                o = ('dead',)
            finally:
                top.guards.pop()
            sides.append((o, fr.locals))
        return self.merge(cond, sides[0], sides[1], fr)

    def s_With(self, st, fr):
        managers = []
        for it in st.items:
            m = self.eval(it.context_expr, fr)
            managers.append(m)
            v = self.models.enter(self, m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            out = self.block(st.body, fr)
        finally:
            for m in reversed(managers):
                self.models.exit(self, m)
        return out

    def s_Try(self, st, fr):
        try:
            out = self.block(st.body, fr)
            if out[0] == 'fall' and st.orelse:
                out = self.block(st.orelse, fr)
        except PyRaise as e:
            if ctx().generics and not e.exc:
                raise
            for h in st.handlers:
                types_ = self.eval(h.type, fr) if h.type is not None else BaseException
                if isinstance(e.exc, types_):
                    if h.name:
                        fr.locals[h.name] = e.exc
                    fr.handling = e.exc
                    out = self.block(h.body, fr)
                    break
            else:
                if st.finalbody:
                    self.block(st.finalbody, fr)
                raise
        if st.finalbody:
            o2 = self.block(st.finalbody, fr)
            if o2[0] != 'fall':
                return o2
        return out

    # ----------------------------------------------------------------- loops
    def s_While(self, st, fr):
        first, loop = self.exit_at_top(st)
        if loop is not None:
            out = self.block(first, fr) if first else ('fall',)
            if out[0] in ('ret', 'dead'):
                return out
            if out[0] != 'fall':
                raise Unsupported('exit of an endless loop')
            return self.s_While(loop, fr)
        c = ctx()
        n = 0
        while True:
            v = simp(self.truth_term(self.eval(st.test, fr)))
            if is_term(v):
                if c.proves(v):
                    v = True
                elif c.proves(z3.Not(v)):
                    v = False
                else:
                    return self.while_symbolic(st, fr)
            if not v:
                return self.block(st.orelse, fr) if st.orelse else ('fall',)
            n += 1
            if n > UNROLL:
                raise Unsupported('while loop not bounded')
            out = self.block(st.body, fr)
            if out[0] == 'brk':
                return ('fall',)
            if out[0] in ('ret', 'dead', 'split'):
                return out

    def exit_at_top(self, st):
        """while True: A; if C: break; B   is   A; while not C: B; A"""
        if not (isinstance(st.test, ast.Constant) and st.test.value) or st.orelse:
            return None, None
        if id(st) not in self.loops:
            self.loops[id(st)] = (st, self.split_exit(st))
        return self.loops[id(st)][1]

    def split_exit(self, st):
        def leaves(body, kinds):
            for x in body:
                if isinstance(x, kinds):
                    return True
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                inner = (ast.Continue,) if isinstance(x, (ast.For, ast.While)) else kinds
                if isinstance(x, (ast.For, ast.While)):
                    if leaves(x.orelse, kinds):
                        return True
                    continue
                for f in ('body', 'orelse', 'finalbody'):
                    if leaves(getattr(x, f, []), inner):
                        return True
                if any(leaves(h.body, kinds) for h in getattr(x, 'handlers', [])):
                    return True
            return False
        for i, x in enumerate(st.body):
            if isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Break):
                a, b = st.body[:i], list(x.orelse) + st.body[i + 1:]
                if leaves(a, (ast.Break, ast.Continue)) or leaves(b, (ast.Continue,)):
                    return None, None
                test = x.test.operand if isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) else ast.UnaryOp(ast.Not(), x.test)
                w = ast.While(test=ast.copy_location(test, x), body=b + a or [ast.copy_location(ast.Pass(), x)], orelse=[])
                return a, ast.copy_location(w, st)
        return None, None

    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        seq = self.models.iterate(self, it)
        return self.loop(seq, st, fr)

    def loop(self, seq, st, fr):
        if seq.lst is not None:
            return self.loop_items(seq.lst, st, fr, True)
        seq = self.models.pieces(seq)
        if seq.parts is not None:
            for off, p in seq.segments():
                if p.lst is not None:
                    out = self.loop_items(p.lst, st, fr, False)
                else:
                    out = self.loop_symbolic(p, st, fr)
                if out[0] in ('ret', 'dead'):
                    return out
                if out[0] == 'brk':
                    return ('fall',)
                if out[0] == 'split':
                    raise Unsupported('loop ended under a condition')
            return self.block(st.orelse, fr) if st.orelse else ('fall',)
        out = self.loop_symbolic(seq, st, fr)
        if out[0] == 'fall' and st.orelse:
            return self.block(st.orelse, fr)
        return out

    def loop_items(self, items, st, fr, orelse):
        if len(items) > UNROLL:
            raise Unsupported('loop over a long concrete sequence')
        for idx, x in enumerate(items):
            self.assign(st.target, x, fr)
            out = self.block(st.body, fr)
            if out[0] == 'brk':
                return ('fall',) if orelse else out
            if out[0] in ('ret', 'dead'):
                return out
            if out[0] == 'split':
                # some iterations continue, others leave: resume the remaining items on the continuing side
                return self.resume_items(out, items[idx + 1:], st, fr, orelse)
        if orelse and st.orelse:
            return self.block(st.orelse, fr)
        return ('fall',)

    def resume_items(self, out, items, st, fr, orelse):
        _, c, (oa, la), (ob, lb) = out
        top = ctx().generics[-1]
        sides = []
        for cond, o, l in ((c, oa, la), (z3.Not(c), ob, lb)):
            fr.locals = dict(l)
            if o[0] in ('fall', 'cont'):
                top.guards.append(cond)
                try:
                    o = self.loop_items(items, st, fr, orelse)
                finally:
                    top.guards.pop()
            elif o[0] == 'split':
                top.guards.append(cond)
                try:
                    o = self.resume_items(o, items, st, fr, orelse)
                finally:
                    top.guards.pop()
            elif o[0] == 'brk':
                o = ('fall',)
            sides.append((o, fr.locals))
        return self.merge(c, sides[0], sides[1], fr)

    def assigned_names(self, nodes):
        out = set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
        comp = set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in n.generators:
                        for m in ast.walk(g.target):
                            if isinstance(m, ast.Name):
                                comp.add(m.id)
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    pass
        plain = set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With)):
                    ts = n.targets if isinstance(n, ast.Assign) else ([n.target] if hasattr(n, 'target') else [i.optional_vars for i in n.items])
                    for t in ts:
                        if t is not None:
                            for m in ast.walk(t):
                                if isinstance(m, ast.Name):
                                    plain.add(m.id)
        return out - (comp - plain)

    def changed_in_place(self, body, base):
        """lists, arrays and sets that are only rebound by l += ..: the same object"""
        stores, augs = {}, {}
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    stores[n.id] = stores.get(n.id, 0) + 1
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.BitOr)):
                    augs[n.target.id] = augs.get(n.target.id, 0) + 1
        return {x for x in augs if augs[x] == stores[x] and isinstance(base.get(x), (SList, SArr, SSet))}

    def loop_symbolic(self, seq, st, fr):
        c = ctx()
        names = self.assigned_names(st.body) - {m.id for m in ast.walk(st.target) if isinstance(m, ast.Name)}
        base = dict(fr.locals)
        names -= self.changed_in_place(st.body, base)
        carried = {n: base[n] for n in names if n in base and (is_num(base[n]) or is_bool(base[n]))}
        objects = {n for n in names if n in base and n not in carried}
        n = seq.n
        c.assume(lift(n) >= 0)
        forms = {}
        # numbers held by attributes of outer objects (self.count += 1)
        attrs = self.carried_attributes(st.body, names, fr)
        carried.update({a: a[0].attrs[a[1]] for a in attrs})
        if carried:
            # dry pass: what becomes of the scalars of the previous iteration
            g = c.new_generic(n)
            nf = len(c.facts)
            c.dry += 1
            prev = {}
            try:
                c.generics.append(g)
                loc = dict(base)
                for v in carried:
                    prev[v] = c.fresh(v if isinstance(v, str) else v[1], lift(carried[v]).sort())
                    self.put_carried(loc, v, prev[v])
                for v in objects:
                    loc[v] = Poison(v)
                fr.locals = loc
                self.carried_attrs += attrs
                self.assign(st.target, seq.get(g.k), fr)
                out = self.block(st.body, fr)
                end = dict(fr.locals)
                end.update({a: a[0].attrs[a[1]] for a in attrs})
            finally:
                c.generics.pop()
                c.dry -= 1
                del c.facts[nf:]
                del self.carried_attrs[len(self.carried_attrs) - len(attrs):]
            for v in carried:
                forms[v] = self.recurrence(v, carried[v], prev, end.get(v), g.k, n)
        # real pass
        g = c.new_generic(n)
        c.generics.append(g)
        try:
            loc = dict(base)
            for v in carried:
                self.put_carried(loc, v, forms[v](g.k))
            for v in objects:
                loc[v] = Poison(v)
            fr.locals = loc
            self.carried_attrs += attrs
            try:
                self.assign(st.target, seq.get(g.k), fr)
                out = self.block(st.body, fr)
            finally:
                del self.carried_attrs[len(self.carried_attrs) - len(attrs):]
            if out[0] == 'split':
                if not self.only_continues(out):
                    raise Unsupported('break or return under a condition in a loop of symbolic length')
            elif out[0] not in ('fall', 'cont', 'dead'):
                raise Unsupported(f'{out[0]} in a loop of symbolic length')
            end = dict(fr.locals)
            end.update({a: a[0].attrs[a[1]] for a in attrs})
            for v in carried:
                want = forms[v](norm(g.k + 1))
                got = end[v]
                if got is not want and not (is_term(eq(got, want)) and c.proves(eq(got, want)) or eq(got, want) is True):
                    raise Unsupported(f'recurrence of {v}')
        finally:
            c.generics.pop()
        # values after the loop
        loc = dict(base)
        tnames = {m.id for m in ast.walk(st.target) if isinstance(m, ast.Name)}
        for v in set(end):
            if v in carried:
                self.put_carried(loc, v, simp(forms[v](n)))
            elif v in names or v in tnames:
                if v in base and v not in tnames:
                    loc[v] = LastValue(v)
                loc[v] = Poison(v)
                if c.proves(lift(n) > 0):
                    try:
                        loc[v] = subst(end[v], [(g.k, n - 1)]) if not isinstance(end[v], (Inst, Poison, SDict)) else Poison(v)
                    except Unsupported:
                        pass
        fr.locals = loc
        self.apply_effects(g, n)
        return ('fall',)

    def put_carried(self, loc, v, x):
        if isinstance(v, str):
            loc[v] = x
        else:
            v[0].attrs[v[1]] = x

    def carried_attributes(self, body, names, fr):
        out = []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Assign):
                    ts = n.targets
                elif isinstance(n, ast.AugAssign):
                    ts = [n.target]
                else:
                    continue
                for t in ts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id not in names:
                        o, a = fr.locals.get(t.value.id), self.mangle(t.attr, fr)
                        if isinstance(o, Inst) and (o, a) not in out and a in o.attrs and (is_num(o.attrs[a]) or is_bool(o.attrs[a])):
                            if isinstance(inspect.getattr_static(o.cls, a, None), property):
                                continue
                            out.append((o, a))
        return out

    def only_continues(self, out):
        if out[0] == 'split':
            return self.only_continues(out[2][0]) and self.only_continues(out[3][0])
        return out[0] in ('fall', 'cont', 'dead')

    def recurrence(self, name, v0, prev, new, k, n):
        """closed form j -> value at the start of iteration j"""
        c = ctx()
        p = prev[name]
        pnames = {x.decl().name() for x in prev.values()}
        if new is None or isinstance(new, Poison):
            raise Unsupported(f'loop-carried value of {name}')
        t = lift(new)
        if t.sort() != p.sort():
            if p.is_int() and t.is_real() if hasattr(p, 'is_int') and hasattr(t, 'is_real') else False:
                raise Unsupported(f'loop-carried value of {name} changes type')
            raise Unsupported(f'loop-carried value of {name} changes type')
        if z3.is_const(t) and t.eq(p) or t.eq(p):
            return lambda j: v0

        def fnames(t):
            out, stack, seen = set(), [t], set()
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    stack.append(x.body())
                elif z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                    stack.extend(x.children())
            return out
        if not (fnames(t) & pnames):
            return lambda j: ite(simp(lift(j) <= 0), v0, subst(t, [(k, norm(lift(j) - 1))]))
        if z3.is_arith(t):
            d = norm(t - p) if t.is_int() else simp(t - p)
            dt = lift(d)
            if not (fnames(dt) & pnames):
                if k.decl().name() not in consts_of(dt):
                    return lambda j: norm(lift(v0) + lift(d) * lift(j)) if t.is_int() else simp(lift(v0) + lift(d) * z3.ToReal(lift(j)))
                if t.is_int():
                    S = self.models.prefix_sum(lambda i: subst(d, [(k, i)]), n)
                    return lambda j: norm(lift(v0) + S(j))
        raise Unsupported(f'recurrence of {name}')

    def while_symbolic(self, st, fr):
        """iterations are numbered; K is their number: the test holds before K and fails at K"""
        c = ctx()
        names = self.assigned_names(st.body)
        base = dict(fr.locals)
        K = c.fresh('K')
        c.assume(K >= 0)
        carried = {n: base[n] for n in names if n in base}
        prev, forms = {}, {}
        g = c.new_generic(K)
        nf = len(c.facts)
        c.dry += 1
        try:
            c.generics.append(g)
            loc = dict(base)
            for v in carried:
                if is_num(carried[v]) or is_bool(carried[v]):
                    prev[v] = c.fresh(v, lift(carried[v]).sort())
                    loc[v] = prev[v]
                else:
                    loc[v] = Poison(v)
            fr.locals = loc
            out = self.block(st.body, fr)
            if out[0] not in ('fall', 'cont'):
                raise Unsupported('exit of a while loop of unknown length')
            end = dict(fr.locals)
        finally:
            c.generics.pop()
            c.dry -= 1
            del c.facts[nf:]
        for v in carried:
            if v in prev:
                forms[v] = self.recurrence(v, carried[v], prev, end[v], g.k, K)
        lasts = {v: end[v] for v in carried if v not in prev}

        def state(j):
            """locals at the start of iteration j >= 0"""
            loc = dict(base)
            for v in forms:
                loc[v] = forms[v](j)
            for v in lasts:
                if conc(j) == 0:
                    loc[v] = base[v]
                else:
                    loc[v] = None
            return loc
        if g.effects:
            raise Unsupported('effects in a while loop of unknown length')
        # real pass at a generic iteration, to get the value of the objects at its end
        g = c.new_generic(K)
        c.generics.append(g)
        try:
            loc = dict(base)
            for v in forms:
                loc[v] = forms[v](g.k)
            for v in lasts:
                loc[v] = Poison(v)
            fr.locals = loc
            self.block(st.body, fr)
            end = dict(fr.locals)
            if g.effects:
                raise Unsupported('effects in a while loop of unknown length')
        finally:
            c.generics.pop()

        def test_at(j):
            loc = dict(base)
            for v in forms:
                loc[v] = forms[v](j)
            for v in names - set(forms):
                if v in end and not isinstance(end[v], Poison):
                    loc[v] = subst(end[v], [(g.k, norm(lift(j) - 1))])
            fr.locals = loc
            return lift(self.truth_term(self.eval(st.test, fr)))
        # test at iteration 0 with the initial state
        fr.locals = dict(base)
        t0 = lift(self.truth_term(self.eval(st.test, fr)))
        if not c.branch(t0):
            c.assume(K == 0)
            fr.locals = base
            return ('fall',)
        c.assume(K >= 1)
        # the iterations are numbered by the first counter
        j, off = z3.Int(c.fresh_name('j')), 0
        for v in forms:
            d = norm(lift(forms[v](j)) - j) if lift(base[v]).is_int() else None
            if isinstance(d, int):
                off = d
                break
        c.assume(c.forall([j], z3.Implies(z3.And(1 + off <= j, j < K + off), test_at(norm(j - off)))))
        c.assume(z3.Not(test_at(K)))
        c.assumptions.add('while loops of unknown length are assumed to terminate (partial correctness)')
        loc = dict(base)
        for v in forms:
            loc[v] = forms[v](K)
        for v in names - set(forms):
            if v in end and not isinstance(end[v], Poison):
                loc[v] = subst(end[v], [(g.k, norm(K - 1))])
            else:
                loc[v] = Poison(v)
        fr.locals = loc
        return ('fall',)

    # ----------------------------------------------------------------- effects of a summarised loop
    def apply_effects(self, g, n):
        for oid, (obj, effs) in g.effects.items():
            self.models.summarise(self, obj, effs, g, n, id(obj) in g.reads)

    # ================================================================= expressions
    def eval(self, e, fr):
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e, fr)

    def e_unknown(self, e, fr):
        raise Unsupported(f'expression {type(e).__name__}')

    def e_Constant(self, e, fr):
        return e.value

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls:
            return f'_{fr.cls.lstrip("_")}{name}'
        return name

    def lookup(self, name, fr):
        if name in fr.locals:
            v = fr.locals[name]
            if isinstance(v, Poison):
                raise Unsupported(f'value of {name} carried by a loop')
            return v
        for e in fr.closure:
            if isinstance(e, Frame):
                try:
                    return self.lookup_local(name, e)
                except KeyError:
                    continue
            elif e and name in e:
                return e[name]
        over = self.globals_over.get(id(fr.globals))
        if over and name in over:
            return over[name]
        if name in fr.globals:
            return fr.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def lookup_local(self, name, fr):
        if name in fr.locals:
            v = fr.locals[name]
            if isinstance(v, Poison):
                raise Unsupported(f'value of {name} carried by a loop')
            return v
        for e in fr.closure:
            if isinstance(e, Frame):
                try:
                    return self.lookup_local(name, e)
                except KeyError:
                    continue
            elif e and name in e:
                return e[name]
        raise KeyError(name)

    def e_Name(self, e, fr):
        return self.lookup_mangled(e.id, fr) if e.id.startswith('__') else self.lookup(e.id, fr)

    def lookup_mangled(self, name, fr):
        try:
            return self.lookup(name, fr)
        except PyRaise:
            return self.lookup(self.mangle(name, fr), fr)

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getattr(o, self.mangle(e.attr, fr))

    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported(f'value of {o.name} carried by a loop')
        if isinstance(o, Inst):
            if name == '__dict__':
                raise Unsupported('__dict__')
            if name == '__class__':
                return o.cls
            d = inspect.getattr_static(o.cls, name, None)
            if isinstance(d, property):
                return self.call_value(d.fget, [o], {})
            if name in o.attrs:
                o.touch_attr(name) if hasattr(o, 'touch_attr') else None
                return o.attrs[name]
            if d is None:
                ga = inspect.getattr_static(o.cls, '__getattr__', None)
                if isinstance(ga, types.FunctionType):
                    return self.call_value(ga, [o, name], {})
                raise PyRaise(AttributeError(f"'{o.cls.__name__}' object has no attribute '{name}'"))
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return Bound(o.cls, d.__func__, name)
            if isinstance(d, (types.FunctionType, CACHED)):
                return Bound(o, d, name)
            if hasattr(type(d), '__get__') and not isinstance(d, (types.BuiltinFunctionType, type)):
                m = self.models.instattr(self, o, name)
                if m is not None:
                    return m
                raise Unsupported(f'descriptor {name}')
            return d
        if name == '__globals__' and isinstance(o, types.FunctionType) and in_repo(o):
            return GlobalsOf(self, o.__globals__)
        if hasattr(o, 'sv_getattr'):
            return o.sv_getattr(self, name)
        if isinstance(o, types.ModuleType) and name in self.globals_over.get(id(o.__dict__), ()):
            return self.globals_over[id(o.__dict__)][name]
        m = self.models.attribute(self, o, name)
        if m is not NotImplemented:
            return m
        if isinstance(o, (SObj, SArr, SSeq, SIter)) or is_term(o):
            raise Unsupported(f'attribute {name} of {type(o).__name__}')
        if isinstance(o, (OpaqueStr,)):
            raise Unsupported('operation on unmodelled text')
        if isinstance(o, (Func, Bound, Model)):
            raise Unsupported(f'attribute {name} of a function')
        try:
            r = getattr(o, name)
        except AttributeError as ex:
            raise PyRaise(ex)
        return r

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            d = inspect.getattr_static(o.cls, name, None)
            if isinstance(d, property):
                if d.fset is None:
                    raise PyRaise(AttributeError(f"property '{name}' has no setter"))
                self.call_value(d.fset, [o, v], {})
                return
            if o.outer() is not None and not ((o, name) in self.carried_attrs and not ctx().generics[-1].guards):
                raise Unsupported(f'attribute {name} of an outer object set in a loop of symbolic length')
            o.attrs[name] = v
            return
        if hasattr(o, 'sv_setattr'):
            return o.sv_setattr(self, name, v)
        if isinstance(o, types.ModuleType) and o.__name__.split('.')[0] == 'cfdtools':
            if ctx().generics:
                raise Unsupported('variable of a module set in a loop of symbolic length')
            self.globals_over.setdefault(id(o.__dict__), {})[name] = v
            return
        if isinstance(o, SArr) and name == 'shape':
            r = self.models.reshape(self, o, v)
            o.shape, o.store, o.imap, o.inv, o.noview = r.shape, r.store, r.imap, r.inv, r.noview
            return
        raise Unsupported(f'attribute {name} set on {type(o).__name__}')

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.models.getitem(self, o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.eval(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, fr):
        return self.display(e.elts, fr, tuple)

    def e_List(self, e, fr):
        return self.display(e.elts, fr, SList)

    def e_Set(self, e, fr):
        return SSet(SSeq(lst=[self.eval(x, fr) for x in e.elts]))

    def display(self, elts, fr, make):
        parts, cur = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = seq_of(self.models.iterate(self, self.eval(x.value, fr)))
                if s.lst is not None:
                    cur += s.lst
                else:
                    parts.append(SSeq(lst=cur))
                    cur = []
                    parts.append(s)
            else:
                cur.append(self.eval(x, fr))
        if not parts:
            return tuple(cur) if make is tuple else SList(cur)
        parts.append(SSeq(lst=cur))
        s = concat(parts)
        if make is tuple:
            return tuple(s.lst) if s.lst is not None else s
        return SList(s)

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                d.update(self.models.concrete_items(self, o))
            else:
                kk = self.models.key(self.eval(k, fr))
                d[kk] = self.eval(v, fr)
        return SDict(d)

    def e_JoinedStr(self, e, fr):
        out = []
        sym = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ''
                out.append((x, v.conversion, spec))
        return self.models.fstring(self, out)

    def e_FormattedValue(self, e, fr):
        return self.eval(e.value, fr)

    def e_Lambda(self, e, fr):
        d = [self.eval(x, fr) for x in e.args.defaults]
        return Func(e, fr, fr.cls, d, {}, f'{fr.qualname}.<lambda>')

    def e_IfExp(self, e, fr):
        try:
            b = ctx().branch(self.truth_term(self.eval(e.test, fr)))
        except NeedGuard as g:
            top = ctx().generics[-1]
            out = []
            for c, x in ((g.cond, e.body), (z3.Not(g.cond), e.orelse)):
                top.guards.append(c)
                try:
                    out.append(self.eval(x, fr))
                finally:
                    top.guards.pop()
            return ite(g.cond, *out)
        return self.eval(e.body if b else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        c = ctx()
        acc = []

        def rest(i):
            v = self.eval(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            t = simp(self.truth_term(v))
            if isinstance(t, bool):
                if t == isand:
                    return rest(i + 1)
                return v
            if not c.depends_generic(t):
                if c.branch(t) == isand:
                    return rest(i + 1)
                return v if not z3.is_bool(v) else (not isand)
            top = c.generics[-1]
            top.guards.append(t if isand else z3.Not(t))
            try:
                w = rest(i + 1)
            finally:
                top.guards.pop()
            wt = self.truth_term(w)
            return and_(t, wt) if isand else or_(t, wt)
        return rest(0)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            return not_(self.truth_term(v))
        if hasattr(v, 'sv_unary'):
            return v.sv_unary(self, op)
        if isinstance(v, SArr):
            return self.models.arr_unary(self, op, v)
        if is_term(v):
            if z3.is_bool(v):
                raise Unsupported('unary operation on a symbolic boolean')
            return norm(-v) if op == 'USub' and v.is_int() else simp(-v) if op == 'USub' else v
        f = {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[op]
        try:
            return f(v)
        except TypeError as ex:
            raise PyRaise(ex)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.models.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            v = self.models.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            res = and_(res, self.truth_term(v))
            if res is False:
                return False
            left = right
        return res

    def truth_term(self, v):
        if isinstance(v, bool):
            return v
        if is_term(v):
            if z3.is_bool(v):
                return v
            if z3.is_arith(v):
                return simp(v != 0)
            if z3.is_string(v):
                return simp(v != z3.StringVal(''))
            raise Unsupported('truth of a symbolic value')
        if isinstance(v, (SList,)):
            n = v.seq.n
            return n > 0 if isinstance(n, int) else simp(lift(n) > 0)
        if isinstance(v, SSeq):
            return v.n > 0 if isinstance(v.n, int) else simp(lift(v.n) > 0)
        if isinstance(v, SDict):
            v.touch()
            if v.map is not None:
                return simp(lift(v.map.keys().n) > 0)
            return bool(v.d)
        if isinstance(v, SSet):
            return simp(lift(v._seq.n) > 0)
        if isinstance(v, SArr):
            sz = v.size
            if isinstance(sz, int) and sz == 1:
                return self.truth_term(v.get(*[0] * v.ndim))
            if isinstance(sz, int) and sz == 0:
                return False
            c = ctx()
            c.must(lift(sz) <= 1, ValueError('truth value of an array with more than one element is ambiguous'))
            if not c.branch(lift(sz) == 1):
                return False
            return self.truth_term(v.get(*[0] * v.ndim))
        if isinstance(v, Inst):
            for nm in ('__bool__', '__len__'):
                d = inspect.getattr_static(v.cls, nm, None)
                if d is not None:
                    return self.truth_term(self.call_value(d, [v], {}))
            return True
        if hasattr(v, 'sv_truth'):
            return v.sv_truth(self)
        if isinstance(v, OpaqueStr):
            raise Unsupported('truth of unmodelled text')
        if isinstance(v, (Func, Bound, Model)):
            return True
        return bool(v)

    def truth(self, v):
        return ctx().branch(self.truth_term(v))

    # ----------------------------------------------------------------- comprehensions
    def e_ListComp(self, e, fr):
        return SList(self.comprehension(e, fr, lambda f: self.eval(e.elt, f)))

    def e_GeneratorExp(self, e, fr):
        return SIter(self.comprehension(e, fr, lambda f: self.eval(e.elt, f)))

    def e_SetComp(self, e, fr):
        return SSet(self.comprehension(e, fr, lambda f: self.eval(e.elt, f)))

    def e_DictComp(self, e, fr):
        s = self.comprehension(e, fr, lambda f: (self.eval(e.key, f), self.eval(e.value, f)))
        return self.models.make_dict(self, s)

    def comprehension(self, e, fr, elt):
        sub = Frame(fr.globals, [fr] if not isinstance(fr.locals, dict) or True else [], fr.cls, fr.qualname)
        sub.closure = [fr]

        def gen(i):
            if i == len(e.generators):
                return SSeq(lst=[elt(sub)])
            g = e.generators[i]
            it = self.models.iterate(self, self.eval(g.iter, sub if i else fr))

            def body(x):
                self.assign(g.target, x, sub)
                cond = True
                for t in g.ifs:
                    cond = and_(cond, self.truth_term(self.eval(t, sub)))
                    if cond is False:
                        return False, None
                return cond, lambda: gen(i + 1)
            return self.flatmap(it, body)
        return gen(0)

    def flatmap(self, seq, body):
        """body(x) -> (condition, thunk giving a sequence)"""
        parts = []
        for off, p in seq.segments():
            if p.lst is not None:
                if len(p.lst) > UNROLL:
                    raise Unsupported('long concrete sequence')
                for x in p.lst:
                    cond, th = body(x)
                    if cond is False:
                        continue
                    if cond is not True:
                        if not self.ctx_branch(cond):
                            continue
                    parts.append(th())
            else:
                parts.append(self.flatmap_symbolic(p, body))
        return concat(parts)

    def ctx_branch(self, cond):
        return ctx().branch(cond)

    def flatmap_symbolic(self, p, body):
        c = ctx()
        c.assume(lift(p.n) >= 0)
        g = c.new_generic(p.n)
        c.generics.append(g)
        try:
            x = p.get(g.k)
            cond, th = body(x)
            if cond is not True and cond is not False:
                if c.proves(cond):
                    cond = True
            if cond is False:
                return SSeq(lst=[])
            if cond is not True:
                g.guards.append(cond)
            s = th()
            if g.effects:
                raise Unsupported('effects in a comprehension')
        finally:
            c.generics.pop()
        src = p
        if cond is not True:
            pos, m = self.models.filter_ghost(lambda i: subst(cond, [(g.k, i)]), p.n)
            src = SSeq(m, lambda i: pos(i))
            at = lambda i: pos(i)
        else:
            at = lambda i: i
        if s.lst is not None and len(s.lst) == 1:
            v = s.lst[0]
            return SSeq(src.n, lambda i: subst(v, [(g.k, at(i))]))
        if s.lst is not None and len(s.lst) == 0:
            return SSeq(lst=[])
        return self.models.flatten(SSeq(src.n, lambda i: subst(s, [(g.k, at(i))])))

    # ----------------------------------------------------------------- call expressions
    def e_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Attribute):
            o = self.eval(f.value, fr)
            if isinstance(o, logging.Logger):
                return None
            fn = self.getattr(o, self.mangle(f.attr, fr))
        else:
            if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
                return SuperProxy(self, fr)
            if isinstance(f, ast.Name) and f.id == 'print':
                return None
            fn = self.eval(f, fr)
        if isinstance(fn, types.MethodType) and isinstance(fn.__self__, logging.Logger):
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.models.iterate(self, self.eval(a.value, fr))
                if s.lst is None:
                    args.append(StarArgs(s))
                else:
                    args += s.lst
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.models.concrete_items(self, self.eval(k.value, fr)))
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call_value(fn, args, kwargs)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.locals[e.target.id] = v
        return v

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')


class StarArgs:
    """*args of symbolic length in a call"""

    def __init__(self, seq):
        self.seq = seq


class LastValue:
    def __init__(self, name):
        self.name = name


class SuperProxy:
    def __init__(self, interp, fr):
        self.self_ = fr.locals.get('self')
        self.clsname = fr.cls

    def sv_getattr(self, interp, name):
        mro = self.self_.cls.__mro__
        i = [c.__name__ for c in mro].index(self.clsname)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                d = c.__dict__[name]
                if isinstance(d, property):
                    return interp.call_value(d.fget, [self.self_], {})
                if isinstance(d, types.FunctionType):
                    return Bound(self.self_, d, name)
                if c is object and name == '__init__':
                    return Model(lambda *a, **k: None)
                raise Unsupported(f'super().{name}')
        raise PyRaise(AttributeError(name))


class NotNative(Exception):
    pass
