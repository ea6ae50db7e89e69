"""Meaning of numpy on symbolic arrays"""
import math
import z3
import numpy as np
from .core import (ckey, Unsupported, PyRaise, is_term, is_int, is_num, is_bool, lift, simp, norm, same_int, consts_of)
from .values import (SSeq, SList, SSet, SDict, SArr, SIter, Store, concat, seq_of, ite, eq, and_, or_, not_, conc, has_term, subst, ctx,
                     pattern_of, divmod_sym, to_real, safe_get, OpaqueStr)
from .interp import Model, Inst, NotNative
from . import models as M
from .models import REG, simple, reg, scalar_op, norm_index, norm_slice, filter_ghost, prefix_sum, flatten, iterate, lex_lt, num


def from_ndarray(a):
    if a.dtype.kind not in 'ifub' or a.size > 2000:
        if a.dtype.kind in 'SUO' and a.ndim <= 1 and a.size < 500:
            lst = [x for x in a.ravel().tolist()]
            return SArr(a.shape, lambda *i: SSeq(lst=lst).get(i[0]) if i else lst[0], a.dtype.kind)
        raise Unsupported(f'concrete array of {a.dtype} with {a.size} items')
    flat = [x for x in a.ravel().tolist()]
    return table(a.shape, flat, {'i': 'i', 'u': 'i', 'f': 'f', 'b': 'b'}[a.dtype.kind])


def table(shape, flat, dtype):
    def get(*i):
        p = 0
        for x, s in zip(i, shape):
            p = p * s + x
        return SSeq(lst=flat).get(norm(p) if is_term(p) else p)
    return SArr(shape, get, dtype)


def elem_dtype(x):
    if isinstance(x, np.generic):
        x = x.item()
    if is_bool(x):
        return 'b'
    if is_int(x):
        return 'i'
    if is_num(x):
        return 'f'
    if isinstance(x, str) or is_term(x) and z3.is_string(x):
        return 'U'
    if isinstance(x, bytes):
        return 'S'
    return 'O'


def promote(*ds):
    ds = [d for d in ds if d]
    if not ds:
        return 'f'
    for d in ('O', 'U', 'S', 'c', 'f', 'i', 'b'):
        if d in ds:
            return d
    return ds[0]


DT = {int: 'i', float: 'f', bool: 'b', object: 'O', np.int64: 'i', np.int32: 'i', np.float64: 'f', np.float32: 'f4', np.uint32: 'i',
      np.uint8: 'i', np.int8: 'i', np.int16: 'i', np.bool_: 'b', np.uint64: 'i', 'int': 'i', 'float': 'f', 'int64': 'i', 'int32': 'i',
      'float64': 'f', 'float32': 'f4', 'i4': 'i', 'i8': 'i', 'f8': 'f', '<i4': 'i', '>i4': 'i', '<f8': 'f', '>f8': 'f', 'bool': 'b', str: 'U',
      'i': 'i', 'q': 'i', 'd': 'f', 'f': 'f', 'b': 'b', 'U': 'U', 'O': 'O', 'f4': 'f4', np.intp: 'i'}


def dtype_of(d):
    if isinstance(d, DTypeV):
        return d.code
    if isinstance(d, np.dtype):
        d = d.type
    try:
        r = DT.get(d)
    except TypeError:
        r = None
    if r is None:
        if isinstance(d, type) and issubclass(d, np.integer):
            return 'i'
        if isinstance(d, type) and issubclass(d, np.floating) and d is not np.float16:
            return 'f'
        if isinstance(d, str):
            try:
                t = np.dtype(d)
            except TypeError:
                t = None
            if t is not None and t.kind in 'iu':
                return 'i'
        raise Unsupported(f'dtype {d}')
    return r


def narrow(d):
    """(name, least, greatest) of an integer dtype that does not hold every 64-bit integer"""
    if d is None or isinstance(d, DTypeV) or d in (int, float, bool, object, str):
        return None
    try:
        t = np.dtype(d)
    except TypeError:
        return None
    if t.kind not in 'iu' or t == np.int64:
        return None
    i = np.iinfo(t)
    return t.name, int(i.min), int(i.max)


def fit(a, d):
    """array stored with the integer dtype d: what does not fit becomes something else"""
    nw = narrow(d)
    if nw is None or not isinstance(a, SArr) or a.dtype != 'i':
        return a
    name, lo, hi = nw
    g = a.snap()
    f = z3.Function('wrap_' + name, z3.IntSort(), z3.IntSort())

    def get(*i):
        x = g(*i)
        if not is_term(x):
            x = int(x)
            return x if lo <= x <= hi else (x - lo) % (hi - lo + 1) + lo
        return simp(z3.If(z3.And(x >= lo, x <= hi), x, f(x)))
    return SArr(a.shape, get, 'i')


def sized(d):
    """code of the dtype of an array to be filled later"""
    nw = narrow(d)
    if nw is not None and nw[0] != 'int32':
        raise Unsupported(f'array of {nw[0]} filled later')
    return dtype_of(d)


class DTypeV:
    """dtype of a symbolic array"""

    def __init__(self, code):
        self.code = code

    def sv_compare(self, it, op, o):
        try:
            oc = dtype_of(o)
        except Unsupported:
            return False if op == 'Eq' else True
        r = (oc == self.code)
        if r and o not in (int, float, bool, np.int64, np.float64, 'int64', 'float64', 'int', 'float') and not isinstance(o, DTypeV):
            raise Unsupported('comparison with a sized dtype')
        return r if op == 'Eq' else not r

    def sv_getattr(self, it, name):
        if name == 'kind':
            return self.code[0]
        if name == 'type':
            return {'i': np.int64, 'f': np.float64, 'b': np.bool_, 'f4': np.float32}[self.code]
        if name == 'itemsize':
            return {'i': 8, 'f': 8, 'b': 1, 'f4': 4}[self.code]
        if name == 'name':
            return {'i': 'int64', 'f': 'float64', 'b': 'bool', 'f4': 'float32'}[self.code]
        raise Unsupported(f'dtype.{name}')

    def sv_str(self, it):
        return {'i': 'int64', 'f': 'float64', 'b': 'bool', 'f4': 'float32'}[self.code]


ROUND32 = None


def cast(x, d):
    """value stored in an array of dtype d"""
    if d == 'f':
        x = num(x)
        if isinstance(x, (int, float)):
            return float(x) if isinstance(x, float) else x
        return to_real(x) if is_term(x) else x
    if d == 'f4':
        x = num(x)
        R = z3.RealSort()
        return z3.Function('round32', R, R)(to_real(lift(x)))
    if d == 'i':
        if is_bool(x):
            return num(x)
        if is_int(x) or isinstance(x, np.integer):
            return x
        return M.b_int_value(x)
    if d == 'b':
        if is_bool(x):
            return x
        return simp(lift(num(x)) != 0) if is_term(x) else bool(x)
    return x


def b_int_value(x):
    if is_term(x):
        return simp(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
    return int(x)


M.b_int_value = b_int_value


def as_arr(it, v, dtype=None):
    """array of an array-like value"""
    if isinstance(v, np.ndarray):
        v = it.from_native(v)
    if isinstance(v, SArr):
        if dtype is not None and dtype != v.dtype:
            return astype(v, dtype)
        return v
    if isinstance(v, np.generic):
        v = v.item()
    if is_num(v) or is_bool(v) or isinstance(v, str):
        d = dtype or elem_dtype(v)
        x = cast(v, d) if d in ('i', 'f', 'b', 'f4') else v
        return SArr((), lambda: x, d)
    if hasattr(v, 'sv_array'):
        return v.sv_array(it, dtype)
    if isinstance(v, (SIter, SSet)) or v is None:
        raise Unsupported(f'array of {type(v).__name__}')
    if isinstance(v, Inst):
        raise Unsupported('array of an object')
    s = iterate(it, v)
    return arr_of_seq(it, s, dtype)


def none_free(s):
    """list created with None whose items were all given a value"""
    if isinstance(s.get(z3.Int('canon!arr')), M.Maybe):
        c = ctx()
        q = z3.Int(c.fresh_name('q'))
        c.must(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lift(s.n)), lift(s.get(q).cond))), TypeError('array of None'))
        return SSeq(s.n, lambda i: s.get(i).value)
    return s


def arr_of_seq(it, s, dtype=None):
    if s.lst is not None:
        if not s.lst:
            return SArr((0,), lambda i: 0, dtype or 'f')
        items = [x if (is_num(x) or is_bool(x) or isinstance(x, (str, bytes))) else as_arr(it, x) for x in s.lst]
        if all(not isinstance(x, SArr) for x in items):
            d = dtype or promote(*[elem_dtype(x) for x in items])
            if d in ('i', 'f', 'b', 'f4'):
                items = [cast(x, d) for x in items]
            q = SSeq(lst=items)
            return SArr((len(items),), lambda i: q.get(i), d)
        items = [as_arr(it, x) for x in items]
        sh = items[0].shape
        for x in items[1:]:
            if len(x.shape) != len(sh):
                raise PyRaise(ValueError('inhomogeneous shape'))
            for a, b in zip(x.shape, sh):
                ctx().must(lift(eq(a, b)), ValueError('inhomogeneous shape'))
        d = dtype or promote(*[x.dtype for x in items])
        gs = [x.snap() for x in items]

        def get(i, *j):
            ci = conc(i)
            if ci is not None:
                return cast(gs[ci](*j), d)
            r = cast(gs[-1](*j), d)
            for q in range(len(gs) - 2, -1, -1):
                r = ite(simp(lift(i) == q), cast(gs[q](*j), d), r)
            return r
        return SArr((len(items),) + sh, get, d)
    s = none_free(s)
    k = z3.Int('canon!arr')
    x = s.get(k)
    if is_num(x) or is_bool(x):
        d = dtype or promote(*[elem_dtype(sample(p)) for _, p in s.segments()])
        a = SArr((s.n,), lambda i: cast(s.get(i), d), d)
        if s.parts is not None and dtype in (None, d):
            a.ghost['parts'] = s
        return a
    if isinstance(x, str):
        raise Unsupported('array of text')
    rows = None
    for _, p in s.segments():
        xx = sample(p)
        r = as_arr(it, xx)
        sh = r.shape
        if any(is_term(q) and 'canon!arr' in consts_of(q) for q in sh):
            raise Unsupported('array of rows of variable length')
        if rows is None:
            rows, dd = sh, r.dtype
        else:
            if len(rows) != len(sh):
                raise PyRaise(ValueError('inhomogeneous shape'))
            for a, b in zip(rows, sh):
                ctx().must(lift(eq(a, b)), ValueError('inhomogeneous shape'))
            dd = promote(dd, r.dtype)
    d = dtype or dd

    def get(i, *j):
        r = as_arr(it, s.get(i))
        return cast(r.get(*j), d)
    return SArr((s.n,) + tuple(rows), get, d)


def sample(p):
    if p.lst is not None:
        return p.lst[0]
    return p.get(z3.Int('canon!arr'))


def astype(a, d):
    g = a.snap()
    if d == a.dtype:
        return SArr(a.shape, g, d)
    if a.dtype not in ('i', 'f', 'b', 'f4') or d not in ('i', 'f', 'b', 'f4'):
        raise Unsupported(f'conversion of {a.dtype} to {d}')
    return SArr(a.shape, lambda *i: cast(g(*i), d), d)


# ------------------------------------------------------------------ elementwise
def bshape(shapes):
    """broadcast shape"""
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        dims = []
        for s in shapes:
            j = ax - (nd - len(s))
            if j >= 0:
                dims.append(s[j])
        r = 1
        for d in dims:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(r, int) and r == 1:
                r = d
                continue
            if same_int(r, d):
                continue
            if isinstance(r, int) and isinstance(d, int):
                raise PyRaise(ValueError('operands could not be broadcast together'))
            c = ctx()
            if c.proves(lift(r) == lift(d)):
                if isinstance(d, int):
                    r = d
                continue
            if c.dry:
                continue
            if c.branch(lift(r) == lift(d)):
                continue
            if c.branch(lift(d) == 1):
                continue
            if c.branch(lift(r) == 1):
                r = d
                continue
            raise PyRaise(ValueError('operands could not be broadcast together'))
        out.append(r)
    return tuple(out)


def bidx(shape, nd, idx):
    """index in an operand of the given shape for the broadcast index"""
    off = nd - len(shape)
    return tuple(0 if (isinstance(s, int) and s == 1) else (idx[off + a] if not is_term(s) or True else idx[off + a])
                 for a, s in enumerate(shape))


def elementwise(it, f, args, dtype, broadcast=None):
    arrs = [as_arr(it, a) for a in args]
    sh = bshape([a.shape for a in arrs])
    gs = [a.snap() for a in arrs]
    shapes = [a.shape for a in arrs]
    fix = []
    for s in shapes:
        off = len(sh) - len(s)
        one = []
        for a, q in enumerate(s):
            if isinstance(q, int) and q == 1:
                one.append(True)
            elif not same_int(q, sh[off + a]) and not ctx().proves(lift(q) == lift(sh[off + a])) and not ctx().dry:
                one.append(True)
            else:
                one.append(False)
        fix.append(one)

    def get(*i):
        vals = []
        for g, s, one in zip(gs, shapes, fix):
            off = len(sh) - len(s)
            vals.append(g(*[0 if one[a] else i[off + a] for a in range(len(s))]))
        return f(*vals)
    if not sh:
        return get()
    return SArr(sh, get, dtype)


def is_weak(v):
    return isinstance(v, (int, float, bool)) or is_term(v)


def arr_binop(it, op, a, b):
    a, b = as_arr(it, a), as_arr(it, b)
    if op == 'MatMult':
        return matmul(it, a, b)
    da, db = a.dtype, b.dtype
    if 'U' in (da, db) or 'O' in (da, db) or 'S' in (da, db):
        raise Unsupported('arithmetic on objects')
    d = promote(da, db)
    if 'f4' in (da, db):
        raise Unsupported('float32 arithmetic')
    if op == 'Div':
        d = 'f'
        f = lambda x, y: div(x, y)
    elif op in ('BitAnd', 'BitOr', 'BitXor') and d == 'b':
        f = lambda x, y: scalar_op(op, x, y)
    elif op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod', 'Pow'):
        if d == 'b':
            d = 'i' if op != 'Add' else 'b'
            if op in ('Add', 'Mult'):
                f = (lambda x, y: or_(x, y)) if op == 'Add' else (lambda x, y: and_(x, y))
                d = 'b'
            else:
                raise PyRaise(TypeError('numpy boolean subtract'))
        else:
            f = lambda x, y: scalar_op(op, cast(x, d), cast(y, d))
            if op == 'Pow' and d == 'f':
                f = lambda x, y: powr(x, y)
            if op in ('FloorDiv', 'Mod'):
                f = lambda x, y: scalar_op(op, cast(x, d), cast(y, d))
    else:
        raise Unsupported(f'array {op}')
    return elementwise(it, f, [a, b], d)


def powr(x, y):
    e = conc(y) if not isinstance(y, float) else (int(y) if y == int(y) else None)
    if e is not None and 0 <= e <= 6:
        return scalar_op('Pow', x, e)
    if not is_term(x) and not is_term(y):
        return x ** y
    return M.power(x, y)


def div(x, y):
    """float division of arrays: no exception, the value for a null divisor is not specified"""
    if not is_term(x) and not is_term(y):
        if y == 0:
            raise Unsupported('division by zero')
        return x / y
    return simp(to_real(lift(num(x))) / to_real(lift(num(y))))


def arr_unary(it, op, a):
    g = a.snap()
    if op == 'USub':
        return SArr(a.shape, lambda *i: scalar_op('Mult', -1, g(*i)), a.dtype)
    if op == 'UAdd':
        return a.copy()
    if op == 'Abs':
        return SArr(a.shape, lambda *i: M.b_abs_v(g(*i)), a.dtype)
    if op == 'Invert' and a.dtype == 'b':
        return SArr(a.shape, lambda *i: not_(g(*i)), 'b')
    raise Unsupported(f'array {op}')


def b_abs_v(v):
    return simp(z3.If(v >= 0, v, -v)) if is_term(v) else abs(v)


M.b_abs_v = b_abs_v


def arr_compare(it, op, a, b):
    for x in (a, b):
        if x is None or isinstance(x, str) and op in ('Eq', 'NotEq') and not (isinstance(a, SArr) and a.dtype == 'U'):
            raise Unsupported('comparison of an array with None or text')
    a, b = as_arr(it, a), as_arr(it, b)
    f = {'Eq': lambda x, y: eq(num(x), num(y)) if not isinstance(x, str) else eq(x, y), 'NotEq': lambda x, y: not_(eq(num(x), num(y))),
         'Lt': lambda x, y: lex_lt(x, y), 'LtE': lambda x, y: lex_lt(x, y, False), 'Gt': lambda x, y: lex_lt(y, x),
         'GtE': lambda x, y: lex_lt(y, x, False)}[op]
    return elementwise(it, f, [a, b], 'b')


def arr_augassign(it, op, a, b):
    """a op= b, in place"""
    if a.noview:
        raise Unsupported('in place operation on a reshaped array')
    b = as_arr(it, b)
    d = a.dtype
    if promote(d, b.dtype) != d or op == 'Div' and d != 'f':
        raise PyRaise(TypeError('cannot cast ufunc output'))
    sh = bshape([a.shape, b.shape])
    if len(sh) != a.ndim:
        raise PyRaise(ValueError('non-broadcastable output operand'))
    for x, y in zip(sh, a.shape):
        ctx().must(lift(eq(x, y)), ValueError('non-broadcastable output operand'))
    gb = bget(b, a.shape)
    f = (lambda x, y: div(x, y)) if op == 'Div' else (lambda x, y: cast(scalar_op(op, cast(x, d), cast(y, d)), d))
    rmw(a, lambda i, old: f(old, gb(*i)))


def bget(b, shape):
    g = b.snap()
    off = len(shape) - b.ndim
    one = [isinstance(s, int) and s == 1 for s in b.shape]
    return lambda *i: g(*[0 if one[a] else i[off + a] for a in range(b.ndim)])


def rmw(a, f):
    """element i of the view becomes f(i, old element)"""
    st = a.store
    if st.effect('rmw', a, f):
        return
    old, inv = st.get, a.inv

    def get(*q):
        cnd, i = inv(*q)
        if cnd is False:
            return old(*q)
        return ite(cnd, f(i, old(*q)), old(*q)) if cnd is not True else f(i, old(*q))
    st.get = get


# ------------------------------------------------------------------ indexing
def expand(it, a, idx):
    idx = list(idx) if isinstance(idx, tuple) else (list(idx.lst) if isinstance(idx, SSeq) and idx.lst is not None else [idx])
    out = []
    nreal = sum(1 for x in idx if x is not None and x is not Ellipsis)
    seen = False
    for x in idx:
        if x is Ellipsis:
            out += [slice(None)] * (a.ndim - nreal)
            seen = True
        else:
            if isinstance(x, (SList, list, SArr, np.ndarray, SSeq, tuple, range)) or hasattr(x, '__seq__'):
                x = as_arr(it, x) if not (isinstance(x, SList) and x.seq.lst == []) else SArr((0,), lambda i: 0, 'i')
                if not x.shape:
                    x = x.get()
            if isinstance(x, np.generic):
                x = x.item()
            out.append(x)
    n = sum(1 for x in out if x is not None)
    if n > a.ndim and not any(isinstance(x, SArr) and x.dtype == 'b' and x.ndim > 1 for x in out):
        raise PyRaise(IndexError('too many indices for array'))
    if not seen or n < a.ndim:
        out += [slice(None)] * (a.ndim - n)
    return out


def arr_getitem(it, a, idx):
    if isinstance(idx, str):
        raise PyRaise(IndexError('only integers, slices... are valid indices'))
    comp = expand(it, a, idx)
    if any(isinstance(x, SArr) for x in comp):
        return fancy_get(it, a, comp)
    v = basic_view(it, a, comp)
    if not v.shape:
        return v.get()
    return v


def basic_view(it, a, comp):
    """view with ints, slices and new axes"""
    maps, shape, ax = [], [], 0
    # maps: per base axis: ('int', j) or ('sl', lo, step, viewaxis)
    for x in comp:
        if x is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(x, slice):
            lo, ln, step = norm_slice(it, x, n)
            maps.append(('sl', lo, step, len(shape), ln))
            shape.append(ln)
        elif is_int(x) or isinstance(x, bool):
            maps.append(('int', norm_index(it, x, n, IndexError('index out of bounds'))))
        else:
            raise PyRaise(IndexError('only integers, slices are valid indices'))
        ax += 1

    def vmap(*i):
        out = []
        for m in maps:
            if m[0] == 'int':
                out.append(m[1])
            else:
                out.append(norm(m[1] + m[2] * i[m[3]]) if is_term(m[1]) or is_term(i[m[3]]) else m[1] + m[2] * i[m[3]])
        return tuple(out)

    def vinv(*b):
        cnd, out = [], [0] * len(shape)
        for m, q in zip(maps, b):
            if m[0] == 'int':
                cnd.append(eq(q, m[1]))
            else:
                _, lo, step, va, ln = m
                full = isinstance(lo, int) and lo == 0 and step == 1
                j = norm(q - lo) if step == 1 else (norm(lo - q) if step == -1 else None)
                if j is None:
                    d = norm(q - lo)
                    qq, rr = divmod_sym(d, step)
                    cnd.append(eq(rr, 0))
                    j = qq
                if not (full and same_int(ln, a.shape[maps.index(m)])):
                    cnd.append(simp(lift(j) >= 0))
                    cnd.append(simp(lift(j) < lift(ln)))
                out[va] = j
        return and_(*cnd), tuple(out)
    v = a.view(shape, vmap, vinv)
    v.axis0 = maps[0] if maps and maps[0][0] == 'sl' else (('int',) + maps[0][1:] if maps else None)
    return v


def check_index(it, x, n):
    """index array with negative entries normalised: function of the positions"""
    c = ctx()
    g = x.snap()
    if x.dtype == 'b':
        raise Unsupported('boolean index')
    if x.dtype != 'i':
        if isinstance(x.shape[0], int) and x.shape[0] == 0:
            return g
        raise PyRaise(IndexError('arrays used as indices must be of integer type'))
    iv = [z3.Int(f'ci{j}') for j in range(x.ndim)]
    inr = z3.And(*[z3.And(0 <= v, v < lift(s)) for v, s in zip(iv, x.shape)]) if iv else z3.BoolVal(True)
    if any(isinstance(s, int) and s == 0 for s in x.shape):
        return g
    e = lift(g(*iv))
    q = lambda b: z3.ForAll(iv, z3.Implies(inr, b)) if iv else b
    if c.proves(q(e >= 0)):
        c.must(q(e < lift(n)), IndexError('index out of bounds'))
        return g
    c.must(q(z3.And(e < lift(n), e >= -lift(n))), IndexError('index out of bounds'))
    if c.dry or c.proves(q(e >= 0)):
        return g
    return lambda *i: ite(simp(lift(g(*i)) >= 0), g(*i), norm(lift(g(*i)) + lift(n)))


def fancy_get(it, a, comp):
    arrs = [(p, x) for p, x in enumerate(comp) if isinstance(x, SArr)]
    if any(x.dtype == 'b' for _, x in arrs):
        return mask_get(it, a, comp)
    if any(x is None for x in comp):
        raise Unsupported('new axis with fancy index')
    g = a.snap()
    # scalars are broadcast with the index arrays
    ints = [p for p, x in enumerate(comp) if is_int(x)]
    pos = sorted([p for p, _ in arrs] + ints)
    fs = {}
    for p, x in arrs:
        fs[p] = check_index(it, x, a.shape[p])
    for p in ints:
        j = norm_index(it, comp[p], a.shape[p], IndexError('index out of bounds'))
        fs[p] = lambda *i, j=j: j
    bsh = bshape([x.shape for _, x in arrs])
    adj = pos == list(range(pos[0], pos[-1] + 1))
    shape, slots = [], []
    sl = {}
    placed = False
    for p, x in enumerate(comp):
        if p in fs:
            if not placed and adj:
                slots += [('f', j) for j in range(len(bsh))]
                shape += list(bsh)
                placed = True
        else:
            lo, ln, step = norm_slice(it, x, a.shape[p])
            sl[p] = (lo, step, len(shape))
            slots.append(('s', p))
            shape.append(ln)
    if not adj:
        raise Unsupported('separated fancy indices')
    f0 = next(j for j, s in enumerate(slots) if s[0] == 'f') if bsh else 0
    xs = {p: x for p, x in arrs}

    def src(*i):
        fi = i[f0:f0 + len(bsh)]
        out = []
        for p in range(a.ndim):
            if p in fs:
                if p in xs:
                    sh = xs[p].shape
                    off = len(bsh) - len(sh)
                    out.append(fs[p](*[0 if (isinstance(s, int) and s == 1) else fi[off + j] for j, s in enumerate(sh)]))
                else:
                    out.append(fs[p]())
            else:
                lo, step, va = sl[p]
                out.append(norm(lo + step * i[va]) if is_term(lo) or is_term(i[va]) else lo + step * i[va])
        return out
    r = SArr(shape, lambda *i: g(*src(*i)), a.dtype)
    r.ghost['gather'] = src
    return r


def mask_get(it, a, comp):
    if len([x for x in comp if isinstance(x, SArr)]) != 1:
        raise Unsupported('several index arrays with a mask')
    p = next(i for i, x in enumerate(comp) if isinstance(x, SArr))
    m = comp[p]
    if m.ndim != 1 or any(not (isinstance(x, slice) and x == slice(None)) for i, x in enumerate(comp) if i != p):
        raise Unsupported('mask with other indices')
    ctx().must(lift(eq(m.shape[0], a.shape[p])), IndexError('boolean index did not match'))
    gm, g = m.snap(), a.snap()
    pos, n = positions(gm, m.shape[0])
    sh = list(a.shape)
    sh[p] = n
    return SArr(sh, lambda *i: g(*i[:p], pos(i[p]), *i[p + 1:]), a.dtype)


def positions(cond, n):
    """increasing positions where cond holds"""
    if isinstance(n, int):
        out = [i for i in range(n) if ctx().branch(cond(i))]
        s = SSeq(lst=out)
        return (lambda i: s.get(i)), len(out)
    pos, m = filter_ghost(cond, n)
    c = ctx()
    want = c.cache.get('few positions')
    if want is not None and is_term(m) and not c.generics and not c.dry:
        if c.branch(lift(m) == want):
            return pos, want       # a number of positions that the contract wants to be known
        if not c.branch(lift(m) > 0):
            return pos, 0
        M.few_planes(m)            # outside its bound
    return pos, m


def arr_setitem(it, a, idx, v):
    comp = expand(it, a, idx)
    if any(isinstance(x, SArr) for x in comp):
        return fancy_set(it, a, comp, v)
    view = basic_view(it, a, comp)
    b = as_arr(it, v) if not (isinstance(v, str) and a.dtype in ('U', 'O')) else SArr((), lambda: v, 'U')
    while b.ndim > view.ndim:
        if isinstance(b.shape[0], int) and b.shape[0] == 1:
            g1 = b.snap()
            b = SArr(b.shape[1:], lambda *i, g1=g1: g1(0, *i), b.dtype)
        else:
            raise PyRaise(ValueError('could not broadcast input array'))
    for s, t in zip(b.shape, view.shape[view.ndim - b.ndim:]):
        if not (isinstance(s, int) and s == 1):
            ctx().must(lift(eq(s, t)), ValueError('could not broadcast input array'))
    gb = bget(b, view.shape)
    d = a.dtype
    view.write(lambda *i: cast(gb(*i), d) if d in ('i', 'f', 'b', 'f4') else gb(*i))


def fancy_set(it, a, comp, v):
    arrs = [(p, x) for p, x in enumerate(comp) if isinstance(x, SArr)]
    if len(arrs) != 1:
        raise Unsupported('assignment with several index arrays')
    p, x = arrs[0]
    if x.dtype != 'b' and any(is_int(y) for y in comp):
        # the integers select a part of the array
        row = basic_view(it, a, [y if is_int(y) else slice(None) for y in comp])
        return fancy_set(it, row, [y for y in comp if not is_int(y)], v)
    if any(not (isinstance(y, slice) and y == slice(None)) for i, y in enumerate(comp) if i != p):
        if not all(is_int(y) for i, y in enumerate(comp) if i != p and not (isinstance(y, slice) and y == slice(None))):
            raise Unsupported('assignment with an index array and slices')
    b = as_arr(it, v)
    g = None
    d = a.dtype
    if x.dtype == 'b':
        if x.ndim == a.ndim and b.ndim == 0:
            gx, val = x.snap(), b.get()
            whole = a.view(a.shape, lambda *i: i, lambda *i: (True, i))
            old = a.snap()
            whole.write(lambda *i: ite(gx(*i), cast(val, d), old(*i)))
            return
        raise Unsupported('masked assignment')
    if x.ndim != 1 or a.ndim > 2 or any(is_int(y) for y in comp):
        raise Unsupported('assignment with a multi-dimensional index array')
    ix = check_index(it, x, a.shape[p])
    n = x.shape[0]
    vshape = list(a.shape)
    vshape[p] = n
    for s, t in zip(b.shape, vshape[len(vshape) - b.ndim:]):
        if not (isinstance(s, int) and s == 1):
            ctx().must(lift(eq(s, t)), ValueError('shape mismatch'))
    gb = bget(b, vshape)
    if a.noview:
        raise Unsupported('write through a reshaped array')
    W, wi = M.last_writer(lambda i, q: eq(ix(i), q[0]), n, 1)
    inv0 = a.inv

    def inv(*q):
        c0, i = inv0(*q)
        return and_(c0, W(i[p])), i
    view = SArr(a.shape, store=a.store, imap=a.imap, inv=inv)
    view.write(lambda *i: cast(gb(*i[:p], wi(i[p]), *i[p + 1:]), d))


def arr_augitem(it, op, a, idx, v):
    comp = expand(it, a, idx)
    if any(isinstance(x, SArr) for x in comp):
        arr_setitem(it, a, idx, M.binop(it, op, arr_getitem(it, a, idx), v))
        return
    view = basic_view(it, a, comp)
    arr_augassign(it, op, view, v)


# ------------------------------------------------------------------ effects of loops on arrays
def summarise_store(it, st, effs, g, n, read):
    if read:
        raise Unsupported('array both read and written in a loop of symbolic length')
    c = ctx()
    k = g.k
    nd = len(st.shape)
    if len(effs) > 1:
        return summarise_many(it, st, effs, g, n)
    kind, guards, (view, f) = effs[0]
    inv = view.inv
    sub = lambda v, i: subst(v, [(k, i)])

    def cond(i, b):
        cnd, _ = inv(*b)
        return and_(*[sub(x, i) for x in guards], sub(lift(cnd), i) if cnd is not True else True)
    written, who = solve_writer(view, k, n, nd, cond)
    if written is None:
        if kind == 'rmw':
            raise Unsupported('in place update of regions that are not shown disjoint')
        W = M.last_writer(cond, n, nd)
        written, who = W

    def val(b, old):
        cnd, i = inv(*b)
        x = f(i, old) if kind == 'rmw' else f(*i)
        return x

    def sval(w, *b):
        # the index may contain w: open the term with fresh base indices
        hole = [z3.Int(c.fresh_name('h')) for _ in b]
        oldh = None
        sort = None
        base = lift(prev(*hole)) if kind == 'rmw' else None
        oh = z3.Const(c.fresh_name('o'), base.sort()) if base is not None else None
        t = val(hole, oh)
        t = subst(t, [(k, w)])
        pairs = [(h, lift(x)) for h, x in zip(hole, b)]
        if oh is not None:
            pairs.append((oh, lift(prev(*b))))
        return subst(t, pairs)
    prev = st.get

    def get(*b):
        return ite(written(*b), sval(who(*b), *b), prev(*b))
    new = SArr(st.shape, store=st, imap=lambda *i: i, inv=lambda *b: (written(*b), b))
    if c.generics and st.outer() is not None:
        if kind == 'rmw':
            raise Unsupported('nested in place update')
        st.effect('write', new, lambda *b: sval(who(*b), *b))
        return
    st.get = get


def summarise_many(it, st, effs, g, n):
    """several writes per iteration to places that are pairwise disjoint over all iterations: order does not matter"""
    c = ctx()
    k, k2 = g.k, z3.Int('other!k')
    nd = len(st.shape)
    b = [z3.Int(f'dj{j}') for j in range(nd)]
    conds = []
    for kind, guards, (view, f) in effs:
        cnd, _ = view.inv(*b)
        conds.append(and_(*guards, lift(cnd)))
    for x in range(len(effs)):
        for y in range(x + 1, len(effs)):
            p = z3.And(0 <= k, k < lift(n), 0 <= k2, k2 < lift(n), lift(conds[x]), lift(subst(lift(conds[y]), [(k, k2)])))
            if c.memo([p], 3000) != 'unsat':
                raise Unsupported('several overlapping writes of an array in a loop of symbolic length')
    for e in effs:
        summarise_store(it, st, [e], g, n, False)


def solve_writer(view, k, n, nd, cond):
    """iteration that writes location b, for writes of consecutive blocks or single indices"""
    c = ctx()
    cands = []
    b = [z3.Int(f'sw{j}') for j in range(nd)]
    for ax in range(nd):
        m = getattr(view, 'axes', None)
    imap = view.imap
    iv = [z3.Int(f'sv{j}') for j in range(view.ndim)]
    base = imap(*iv)
    for ax, e in enumerate(base):
        if not is_term(e) or k.decl().name() not in consts_of(e):
            continue
        from .core import poly
        p, at = poly(e)
        kid = None
        # e = k*w + v + c0 where v is a view index
        vid = [j for j, v in enumerate(iv) if v.decl().name() in consts_of(e)]
        w = norm(subst(e, [(k, k + 1)]) - e)
        c0 = subst(e, [(k, z3.IntVal(0))] + [(iv[j], z3.IntVal(0)) for j in vid])
        if is_term(w) and k.decl().name() in consts_of(w) or is_term(w) and any(v.decl().name() in consts_of(w) for v in iv):
            continue
        if not vid:
            if conc(w) == 1:
                def who(*q, ax=ax, c0=c0):
                    return norm(q[ax] - c0)
            elif c.proves(lift(w) >= 1):
                def who(*q, ax=ax, c0=c0, w=w):
                    return divmod_sym(norm(q[ax] - c0), w)[0]
            else:
                continue
        elif len(vid) == 1:
            ln = view.shape[vid[0]]
            if not (same_int(ln, w) or c.proves(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < lift(n)), z3.And(lift(ln) <= lift(w), lift(w) >= 0))))):
                continue

            def who(*q, ax=ax, c0=c0, w=w):
                return divmod_sym(norm(q[ax] - c0), w)[0]
        else:
            continue

        def written(*q, who=who):
            i = who(*q)
            return and_(simp(lift(i) >= 0), simp(lift(i) < lift(n)), cond(i, q))
        return written, who
    return None, None


# ------------------------------------------------------------------ shape
def flat_index(shape, idx):
    p = 0
    for s, i in zip(shape, idx):
        p = norm(lift(p) * lift(s) + lift(i)) if is_term(p) or is_term(s) or is_term(i) else p * s + i
    return p


def unflat(shape, p):
    out = []
    for s in reversed(shape[1:]):
        p, r = divmod_sym(p, s)
        out.append(r)
    out.append(p)
    return tuple(reversed(out))


def prod(shape):
    n = 1
    for s in shape:
        n = n * s
    return norm(n) if is_term(n) else n


def reshape(it, a, shape):
    if is_int(shape):
        shape = (shape,)
    shape = [x.item() if isinstance(x, np.generic) else x for x in iterate(it, shape).lst]
    tot = a.size
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if neg:
        rest = prod([s for i, s in enumerate(shape) if i != neg[0]])
        if isinstance(rest, int) and rest == 1:
            q = tot
        else:
            if isinstance(rest, int) and rest == 0:
                if isinstance(tot, int) and tot == 0:
                    raise PyRaise(ValueError('cannot reshape'))
                raise Unsupported('reshape with null size')
            q, r = divmod_sym(tot, rest)
            ctx().must(lift(r) == 0, ValueError('cannot reshape array'))
        shape[neg[0]] = q
    else:
        if not same_int(prod(shape), tot):
            ctx().must(lift(eq(prod(shape), tot)), ValueError('cannot reshape array'))
    g = a.snap()
    if len(shape) == a.ndim and all(same_int(x, y) for x, y in zip(shape, a.shape)):
        r = a.view(a.shape, lambda *i: i, lambda *i: (True, i))
        return r
    oa = [i for i, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1)]
    ob = [i for i, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]
    if len(oa) == len(ob) and all(same_int(a.shape[i], shape[j]) for i, j in zip(oa, ob)):
        def vmap(*i):
            out = [0] * a.ndim
            for x, y in zip(oa, ob):
                out[x] = i[y]
            return tuple(out)

        def vinv(*q):
            out = [0] * len(shape)
            for x, y in zip(oa, ob):
                out[y] = q[x]
            return True, tuple(out)
        return a.view(shape, vmap, vinv)
    src = a.shape
    # common leading axes
    lead = 0
    while lead < min(len(src), len(shape)) and same_int(src[lead], shape[lead]):
        lead += 1
    s2, t2 = src[lead:], tuple(shape[lead:])

    def get(*i):
        p = flat_index(t2, i[lead:])
        return g(*i[:lead], *unflat(s2, p)) if s2 else g(*i[:lead])
    if a.ndim == 1 and not a.noview and len(a.store.shape) == 1 and same_int(a.shape[0], a.store.shape[0]) and all(isinstance(x, int) for x in shape[1:]):
        q = z3.Int('canon!q')
        if same_int(lift(a.imap(q)[0]), q):        # a whole array of dimension 1 is contiguous: this is a view of it
            return a.view(shape, lambda *i: (flat_index(tuple(shape), i),), lambda p: (True, tuple(unflat(tuple(shape), p))))
    r = SArr(shape, get, a.dtype)
    r.noview = True
    if len(shape) == 1 and a.ndim == 2:
        r.ghost['grid'] = (SSeq(src[0], lambda i: SSeq(src[1], lambda j: g(i, j))), src[1])
    return r


def ravel(it, a):
    if a.ndim == 1:
        return a.view(a.shape, lambda *i: i, lambda *i: (True, i))
    return reshape(it, a, (-1,))


def transpose(it, a, axes=None):
    n = a.ndim
    p = list(range(n))[::-1] if axes is None else [x for x in iterate(it, axes).lst]
    q = [p.index(i) for i in range(n)]
    return a.view([a.shape[i] for i in p], lambda *i: tuple(i[q[j]] for j in range(n)), lambda *b: (True, tuple(b[p[j]] for j in range(n))))


def arr_item(it, a, *idx):
    if idx:
        return arr_getitem(it, a, tuple(idx) if len(idx) > 1 else idx[0])
    ctx().must(lift(eq(a.size, 1)), ValueError('can only convert an array of size 1 to a Python scalar'))
    return a.get(*[0] * a.ndim)


def axis_reduce(it, a, axis, f1, dtype):
    """reduction along an axis: f1(sequence) -> value"""
    g = a.snap()
    if axis is None:
        r = ravel(it, a)
        return f1(r.rows())
    axis = conc(axis)
    if axis < 0:
        axis += a.ndim
    sh = a.shape[:axis] + a.shape[axis + 1:]
    if not sh:
        return f1(a.rows())
    n = a.shape[axis]
    return SArr(sh, lambda *i: f1(SSeq(n, lambda j: g(*i[:axis], j, *i[axis:]))), dtype)


def seq_minmax(it, s, lt):
    return M.minmax(it, [s], {}, lt)


def seq_sum(it, s):
    if s.lst is not None:
        acc = 0
        for x in s.lst:
            acc = scalar_op('Add', acc, num(x))
        return acc
    k = z3.Int('canon!sum')
    x = num(s.get(k))
    if lift(x).is_int():
        return prefix_sum(lambda i: num(s.get(i)), s.n)(s.n)
    return real_sum(s)


def real_sum(s):
    """sum of a real sequence: an uninterpreted functional of (length, element function)"""
    k = z3.Int('canon!sum')
    A = z3.Lambda([k], to_real(lift(num(s.get(k)))))
    f = z3.Function('seqsum', z3.IntSort(), A.sort(), z3.RealSort())
    return f(lift(s.n), A)


def arr_min(it, a, lt, axis=None):
    return axis_reduce(it, a, axis, lambda s: seq_minmax(it, s, lt), a.dtype)


def arr_all(it, a, axis=None):
    if axis is not None:
        return axis_reduce(it, a, axis, lambda s: M.all_of(it, s, it.truth_term), 'b')
    c = ctx()
    g = a.snap()
    if not a.shape:
        return it.truth_term(g())
    if all(isinstance(s, int) and s <= 8 for s in a.shape):
        return and_(*[it.truth_term(g(*i)) for i in np.ndindex(*a.shape)])
    iv = [z3.Int(c.fresh_name('i')) for _ in a.shape]
    body = it.truth_term(g(*iv))
    if body is True:
        return True
    return z3.ForAll(iv, z3.Implies(z3.And(*[z3.And(0 <= v, v < lift(s)) for v, s in zip(iv, a.shape)]), lift(body)))


# methods that do what the function of the same name does
SAME_AS_FUNCTION = ('std', 'var', 'take', 'argsort', 'argmax', 'argmin', 'cumsum', 'all', 'any', 'nonzero', 'prod', 'squeeze', 'repeat',
                    'searchsorted', 'clip', 'round', 'transpose', 'swapaxes', 'diagonal', 'trace', 'dot', 'conj', 'sum', 'mean', 'min', 'max')


def arr_attribute(it, a, name):
    Md = lambda f: Model(f, 'ndarray.' + name)
    if name == 'shape':
        return tuple(a.shape)
    if name == 'size':
        return a.size
    if name == 'itemsize' or name == 'nbytes':
        if a.dtype not in ('i', 'f', 'b', 'f4'):
            raise Unsupported(f'ndarray.{name}')
        k = {'i': 8, 'f': 8, 'b': 1, 'f4': 4}[a.dtype]
        return k if name == 'itemsize' else norm(lift(a.size) * k)
    if name == 'ndim':
        return a.ndim
    if name == 'dtype':
        return DTypeV(a.dtype)
    if name == 'T':
        return transpose(it, a)
    if name == 'real' and a.dtype in ('f', 'i'):
        return a
    f = METHODS.get(name)
    if f is None:
        g = REG.get(getattr(np, name, None)) if name in SAME_AS_FUNCTION else None
        if g is None:
            raise Unsupported(f'ndarray.{name}')
        return Md(lambda *x, **k: g(it, (a,) + x, k))
    return Md(lambda *x, **k: f(it, a, *x, **k))


def m_reshape(it, a, *shape, order='C'):
    if order != 'C':
        raise Unsupported('reshape order')
    return reshape(it, a, shape[0] if len(shape) == 1 else shape)


def m_astype(it, a, d, **k):
    return fit(astype(a, dtype_of(d)), d)


def m_sort(it, a, axis=-1):
    if a.ndim != 1:
        raise Unsupported('sort of a multi-dimensional array')
    s = M.sorted_seq(it, a.rows())
    a.view(a.shape, lambda *i: i, lambda *i: (True, i)).write(lambda i: s.get(i))


def m_tolist(it, a):
    return a.tolist()


def m_flatten(it, a, order='C'):
    r = ravel(it, a)
    return r.copy()


def m_fill(it, a, v):
    arr_setitem(it, a, Ellipsis, v)


def m_sum(it, a, axis=None, **k):
    d = 'i' if a.dtype == 'b' else a.dtype
    return axis_reduce(it, a, axis, lambda s: seq_sum(it, s), d)


def m_mean(it, a, axis=None, **k):
    return axis_reduce(it, a, axis, lambda s: div(seq_sum(it, s), s.n), 'f')


METHODS = dict(
    reshape=m_reshape, ravel=lambda it, a, order='C': ravel(it, a) if order == 'C' else M.unsup('order'), flatten=m_flatten, copy=lambda it, a, **k: a.copy(),
    tolist=m_tolist, astype=m_astype, transpose=lambda it, a, *ax: transpose(it, a, None if not ax else (ax[0] if len(ax) == 1 else ax)),
    item=arr_item, max=lambda it, a, axis=None: arr_min(it, a, lambda x, y: lex_lt(y, x), axis),
    min=lambda it, a, axis=None: arr_min(it, a, lambda x, y: lex_lt(x, y), axis), all=lambda it, a, axis=None: arr_all(it, a, axis),
    any=lambda it, a, axis=None: any_(it, a, axis), sum=m_sum, mean=m_mean, sort=m_sort, fill=m_fill,
    cumsum=lambda it, a, axis=None: np_cumsum(it, a, axis), squeeze=lambda it, a, axis=None: np_squeeze(it, a, axis),
    argsort=lambda it, a, **k: np_argsort(it, a, **k), view=lambda it, a, *x: M.unsup('ndarray.view'),
    __getitem__=lambda it, a, i: arr_getitem(it, a, i), dot=lambda it, a, b: matmul(it, a, as_arr(it, b)),
    nonzero=lambda it, a: np_nonzero(it, a), argmin=lambda it, a, axis=None: np_argmin(it, a, axis), 
    argmax=lambda it, a, axis=None: np_argmax(it, a, axis), repeat=lambda it, a, r, axis=None: np_repeat(it, a, r, axis),
)


def any_(it, a, axis=None):
    if axis is not None:
        return axis_reduce(it, a, axis, lambda s: not_(M.all_of(it, s, lambda x: not_(it.truth_term(x)))), 'b')
    g = a.snap()
    return not_(arr_all(it, SArr(a.shape, lambda *i: not_(it.truth_term(g(*i))), 'b')))


def matmul(it, a, b):
    if a.ndim == 1 and b.ndim == 1:
        return m_sum(it, arr_binop(it, 'Mult', a, b))
    raise Unsupported('matrix product')


# ------------------------------------------------------------------ functions
@simple(np.array)
def np_array(it, v, dtype=None, copy=True, ndmin=0):
    if ndmin:
        raise Unsupported('ndmin')
    d = dtype_of(dtype) if dtype is not None else None
    a = as_arr(it, v, d)
    r = fit(a, dtype).copy()
    if a.ghost.get('parts') is not None:
        r.ghost['parts'] = a.ghost['parts']
    return r


class ObjArr:
    """array of objects holding None: a value of 0 dimension (items is None) or a short vector"""

    def __init__(self, items=None):
        self.items = items

    def sv_type(self):
        return np.ndarray

    def sv_len(self, it=None):
        if self.items is None:
            raise PyRaise(TypeError('len() of unsized object'))
        return len(self.items)

    def sv_iter(self, it):
        if self.items is None:
            raise PyRaise(TypeError('iteration over a 0-d array'))
        return SSeq(lst=list(self.items))

    def sv_getitem(self, it, k):
        k = conc(k)
        if k is None:
            raise Unsupported('element of an array of objects')
        if self.items is None or not -len(self.items) <= k < len(self.items):
            raise PyRaise(IndexError('index out of bounds'))
        return self.items[k]

    def sv_getattr(self, it, nm):
        if nm == 'astype':
            def astype(t, **k):
                if dtype_of(t) != 'O':
                    raise PyRaise(TypeError("int() argument must be a number, not 'NoneType'"))
                return self
            return Model(astype, nm)
        if nm == 'reshape':
            def reshape(*sh):
                if len(sh) == 1:
                    sh = tuple(seq_of(sh[0]).lst)
                n = norm(lift(prod(sh)))
                if not ctx().proves(lift(n) != (1 if self.items is None else len(self.items))):
                    raise Unsupported('reshape of an array of objects')
                raise PyRaise(ValueError('cannot reshape array'))
            return Model(reshape, nm)
        if nm == 'size':
            return 1 if self.items is None else len(self.items)
        if nm == 'ndim':
            return 0 if self.items is None else 1
        if nm == 'shape':
            return () if self.items is None else (len(self.items),)
        if nm in ('min', 'max', 'sum', 'mean', 'tolist', 'dtype', 'T', 'ravel', 'copy', 'flatten'):
            raise Unsupported(f'ndarray.{nm} of objects')
        raise Unsupported(f'attribute {nm} of an array of objects')


def on_objects(f, g):
    def h(it, args, kwargs):
        a = args[0] if args else None
        if isinstance(a, ObjArr):
            return g(it, *args, **kwargs)
        return f(it, args, kwargs)
    return h


@simple(np.asarray, np.asanyarray, np.ascontiguousarray)
def np_asarray(it, v, dtype=None, **k):
    if isinstance(v, ObjArr):
        return v
    if v is None:
        if dtype is not None and dtype_of(dtype) != 'O':
            raise PyRaise(TypeError("argument must be a number, not 'NoneType'"))
        return ObjArr()
    return fit(as_arr(it, v, dtype_of(dtype) if dtype is not None else None), dtype)


@simple(np.arange)
def np_arange(it, a, b=None, step=1, dtype=None):
    lo, hi = (0, a) if b is None else (a, b)
    if not (is_int(lo) and is_int(hi)) or conc(step) != 1:
        if not has_term((lo, hi, step)):
            return it.from_native(np.arange(lo, hi, step))
        raise Unsupported('arange of non integers')
    d = dtype_of(dtype) if dtype is not None else 'i'
    r = M.b_range(it, lo, hi)
    s = seq_of(r) if not isinstance(r, M.SRange) else r.seq
    if s.lst is not None:
        return arr_of_seq(it, s, d)
    return SArr((s.n,), lambda i: cast(s.get(i), d), d)


def shape_arg(it, shape):
    if isinstance(shape, np.integer):
        shape = int(shape)
    if is_int(shape):
        return (shape,)
    sh = tuple(x.item() if isinstance(x, np.generic) else x for x in iterate(it, shape).lst)
    for s in sh:
        if is_term(s):
            ctx().must(s >= 0, ValueError('negative dimensions'))
        elif s < 0:
            raise PyRaise(ValueError('negative dimensions'))
    return sh


def filled(it, shape, v, d):
    x = cast(v, d)
    return SArr(shape_arg(it, shape), lambda *i: x, d)


@simple(np.zeros)
def np_zeros(it, shape, dtype=float, order='C'):
    d = sized(dtype)
    return filled(it, shape, {'b': False}.get(d, 0), d)


@simple(np.ones)
def np_ones(it, shape, dtype=float):
    d = sized(dtype)
    return filled(it, shape, {'b': True}.get(d, 1), d)


@simple(np.empty)
def np_empty(it, shape, dtype=float, order='C'):
    d = sized(dtype)
    sh = shape_arg(it, shape)
    srt = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort(), 'f4': z3.RealSort()}[d]
    f = ctx().fresh_fun('uninit', *([z3.IntSort()] * len(sh)), srt)
    return SArr(sh, lambda *i: f(*i), d)


@simple(np.full)
def np_full(it, shape, v, dtype=None):
    return filled(it, shape, v, sized(dtype) if dtype is not None else elem_dtype(v))


@simple(np.full_like)
def np_full_like(it, a, v, dtype=None):
    a = as_arr(it, a)
    return filled(it, a.shape, v, sized(dtype) if dtype is not None else a.dtype)


@simple(np.zeros_like)
def np_zeros_like(it, a, dtype=None):
    a = as_arr(it, a)
    return filled(it, a.shape, 0, sized(dtype) if dtype is not None else a.dtype)


@simple(np.ones_like)
def np_ones_like(it, a, dtype=None):
    a = as_arr(it, a)
    return filled(it, a.shape, 1, sized(dtype) if dtype is not None else a.dtype)


@simple(np.empty_like)
def np_empty_like(it, a, dtype=None):
    a = as_arr(it, a)
    return np_empty(it, a.shape, dtype=DTypeV(a.dtype) if dtype is None else dtype)


def concat_many(it, s, axis):
    """concatenation of a symbolic number of vectors"""
    ctx().must(lift(s.n) > 0, ValueError('need at least one array to concatenate'))
    a = as_arr(it, s.get(z3.Int('canon!cm')))
    if a.ndim != 1 or s.parts is not None:
        raise Unsupported('concatenation of a symbolic number of arrays')
    r = flatten(s.map(lambda x: as_arr(it, x).rows()))
    return SArr([r.n], lambda i: r.get(i), a.dtype)


@simple(np.concatenate)
def np_concatenate(it, vs, axis=0):
    given = iterate(it, vs).lst or ()
    if any(isinstance(v, ObjArr) for v in given):
        if any(isinstance(v, ObjArr) and v.items is None for v in given):
            raise PyRaise(ValueError('zero-dimensional arrays cannot be concatenated'))
        if all(isinstance(v, ObjArr) or seq_of(v).lst is not None for v in given):
            return ObjArr([x for v in given for x in (v.items if isinstance(v, ObjArr) else seq_of(v).lst)])
    arrs = [as_arr(it, v) for v in given]
    if not arrs:
        s = iterate(it, vs)
        if s.lst is None:
            return concat_many(it, s, axis)
        raise PyRaise(ValueError('need at least one array to concatenate'))
    if axis is None:
        arrs, axis = [ravel(it, a) for a in arrs], 0
    nd = arrs[0].ndim
    if nd == 0:
        raise PyRaise(ValueError('zero-dimensional arrays cannot be concatenated'))
    if any(a.ndim != nd for a in arrs):
        raise PyRaise(ValueError('all the input array dimensions must match'))
    axis = axis % nd
    for a in arrs[1:]:
        for j in range(nd):
            if j != axis:
                ctx().must(lift(eq(a.shape[j], arrs[0].shape[j])), ValueError('all the input array dimensions must match'))
    # empty float arrays ([]) promote the type in numpy
    d = promote(*[a.dtype for a in arrs])
    offs, off = [], 0
    for a in arrs:
        offs.append(off)
        off = norm(off + a.shape[axis]) if is_term(off) or is_term(a.shape[axis]) else off + a.shape[axis]
    gs = [a.snap() for a in arrs]
    sh = list(arrs[0].shape)
    sh[axis] = off
    nonempty = [j for j, a in enumerate(arrs) if not (isinstance(a.shape[axis], int) and a.shape[axis] == 0)]

    def get(*i):
        q = i[axis]
        r = None
        for j in reversed(nonempty):
            e = lambda j=j: cast(gs[j](*i[:axis], norm(q - offs[j]) if is_term(q) or is_term(offs[j]) else q - offs[j], *i[axis + 1:]), d)
            if r is None:
                r = e
            else:
                end = norm(offs[j] + arrs[j].shape[axis]) if is_term(offs[j]) or is_term(arrs[j].shape[axis]) else offs[j] + arrs[j].shape[axis]
                cnd = simp(lift(q) < lift(end))
                if cnd is True:
                    r = e
                elif cnd is False:
                    pass
                else:
                    r = (lambda cnd=cnd, e=e, r=r: ite(cnd, e(), r()))
        if r is None:
            raise Unsupported('read in an empty array')
        return r()
    out = SArr(sh, get, d)
    if nd == 1:
        out.ghost['parts'] = concat([(a.ghost.get('parts') or SSeq(a.shape[0], lambda i, g=g, a=a: cast(g(i), d))) for a, g in zip(arrs, gs)])
    return out


def stack_cols(it, vs, axis):
    arrs = [as_arr(it, v) for v in iterate(it, vs).lst]
    arrs = [a if a.ndim > 1 else SArr((a.shape[0], 1), (lambda i, j, g=a.snap(): g(i)), a.dtype) for a in arrs]
    return np_concatenate(it, tuple(arrs), axis=axis)


@simple(np.column_stack)
def np_column_stack(it, vs):
    return stack_cols(it, vs, 1)


@simple(np.hstack)
def np_hstack(it, vs):
    arrs = [as_arr(it, v) for v in iterate(it, vs).lst]
    if not arrs:
        raise PyRaise(ValueError('need at least one array to concatenate'))
    return np_concatenate(it, tuple(arrs), axis=0 if arrs[0].ndim == 1 else 1)


@simple(np.vstack)
def np_vstack(it, vs):
    s = iterate(it, vs)
    if s.lst is None:
        raise Unsupported('vstack of a symbolic number of arrays')
    arrs = [as_arr(it, v) for v in s.lst]
    arrs = [a if a.ndim > 1 else SArr((1,) + a.shape, (lambda i, *j, g=a.snap(): g(*j)), a.dtype) for a in arrs]
    return np_concatenate(it, tuple(arrs), axis=0)


@simple(np.stack)
def np_stack(it, vs, axis=0):
    s = iterate(it, vs)
    if s.lst is None and conc(axis) == 0:
        return arr_of_seq(it, s)
    arrs = [as_arr(it, v) for v in s.lst]
    axis = axis % (arrs[0].ndim + 1)
    out = []
    for a in arrs:
        g = a.snap()
        out.append(SArr(a.shape[:axis] + (1,) + a.shape[axis:], lambda *i, g=g: g(*i[:axis], *i[axis + 1:]), a.dtype))
    return np_concatenate(it, tuple(out), axis=axis)


@simple(np.split, np.array_split)
def np_split(it, a, where, axis=0):
    a = as_arr(it, a)
    if is_int(where) or a.ndim != 1:
        raise Unsupported('split in equal parts')
    w = as_arr(it, where)
    if not isinstance(w.shape[0], int):
        M.few_planes(w.shape[0])
        raise Unsupported('split in many parts')
    cuts = [None] + [w.get(k) for k in range(w.shape[0])] + [None]
    return SList([arr_getitem(it, a, slice(x, y)) for x, y in zip(cuts, cuts[1:])])


@simple(np.append)
def np_append(it, a, b, axis=None):
    return np_concatenate(it, (as_arr(it, a), as_arr(it, b)), axis=axis)


@simple(np.tile)
def np_tile(it, a, reps):
    a = as_arr(it, a)
    reps = (reps,) if is_int(reps) else tuple(iterate(it, reps).lst)
    nd = max(a.ndim, len(reps))
    sh = (1,) * (nd - a.ndim) + a.shape
    reps = (1,) * (nd - len(reps)) + reps
    g = a.snap()
    for r in reps:
        ctx().must(lift(r) >= 0, ValueError('negative dimensions'))
    out = [norm(lift(s) * lift(r)) if is_term(s) or is_term(r) else s * r for s, r in zip(sh, reps)]

    def get(*i):
        idx = []
        for j, (q, s, r) in enumerate(zip(i, sh, reps)):
            if j < nd - a.ndim:
                continue
            idx.append(0 if isinstance(s, int) and s == 1 else (q if isinstance(r, int) and r == 1 else divmod_sym(q, s)[1]))
        return g(*idx)
    return SArr(out, get, a.dtype)


@simple(np.repeat)
def np_repeat(it, a, r, axis=None):
    a = as_arr(it, a)
    if axis is None:
        a, axis = ravel(it, a), 0
    if not is_int(r):
        raise Unsupported('repeat with counts')
    ctx().must(lift(r) >= 0, ValueError('repeats may not contain negative values'))
    sh = list(a.shape)
    sh[axis] = norm(lift(sh[axis]) * lift(r)) if is_term(sh[axis]) or is_term(r) else sh[axis] * r
    g = a.snap()
    return SArr(sh, lambda *i: g(*i[:axis], divmod_sym(i[axis], r)[0], *i[axis + 1:]), a.dtype)


@simple(np.cumsum)
def np_cumsum(it, a, axis=None, **k):
    a = as_arr(it, a)
    if a.ndim != 1:
        raise Unsupported('cumsum of a multi-dimensional array')
    s = a.ghost.get('parts') or a.rows()
    if a.dtype not in ('i', 'b'):
        raise Unsupported('cumsum of reals')
    if s.lst is not None:
        acc, out = 0, []
        for x in s.lst:
            acc = scalar_op('Add', acc, num(x))
            out.append(acc)
        return arr_of_seq(it, SSeq(lst=out), 'i')
    S = prefix_sum(lambda i: num(s.get(i)), s.n)
    r = SArr((s.n,), lambda i: S(norm(i + 1) if is_term(i) else i + 1), 'i')
    r.ghost['psum'] = S
    return r


@simple(np.diff)
def np_diff(it, a, n=1, axis=-1):
    a = as_arr(it, a)
    if a.ndim != 1 or n != 1:
        raise Unsupported('diff')
    return arr_binop(it, 'Sub', arr_getitem(it, a, slice(1, None)), arr_getitem(it, a, slice(None, -1)))


@simple(np.all)
def np_all(it, a, axis=None, **k):
    if is_bool(a):
        return a
    return arr_all(it, as_arr(it, a), axis)


@simple(np.any)
def np_any(it, a, axis=None, **k):
    if is_bool(a):
        return a
    return any_(it, as_arr(it, a), axis)


@simple(np.array_equal)
def np_array_equal(it, a, b, **k):
    a, b = as_arr(it, a), as_arr(it, b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not ctx().branch(lift(eq(x, y))):
            return False
    return arr_all(it, arr_compare(it, 'Eq', a, b)) if a.shape else eq(a.get(), b.get())


@simple(np.allclose)
def np_allclose(it, a, b, rtol=1e-05, atol=1e-08, **k):
    ctx().assumptions.add('numpy.allclose: values are finite')
    a, b = as_arr(it, a), as_arr(it, b)
    f = REG[np.abs]
    tol = arr_binop(it, 'Add', arr_binop(it, 'Mult', f(it, [b], {}), rtol), atol)
    return np_all(it, arr_compare(it, 'LtE', f(it, [arr_binop(it, 'Sub', a, b)], {}), tol))


@simple(np.sum)
def np_sum(it, a, axis=None, **k):
    if is_num(a):
        return a
    if isinstance(a, SIter):
        raise Unsupported('np.sum of a generator')
    return m_sum(it, as_arr(it, a), axis)


def constants(it, a, best):
    return M.constants(a.seq, best) if isinstance(a, SList) else None


@simple(np.min, np.amin)
def np_min(it, a, axis=None):
    k = constants(it, a, min) if axis is None else None
    if k is not None:
        return k
    return arr_min(it, as_arr(it, a), lambda x, y: lex_lt(x, y), axis)


@simple(np.max, np.amax)
def np_max(it, a, axis=None):
    k = constants(it, a, max) if axis is None else None
    if k is not None:
        return k
    return arr_min(it, as_arr(it, a), lambda x, y: lex_lt(y, x), axis)


@simple(np.take)
def np_take(it, a, indices, axis=None):
    a = as_arr(it, a)
    if axis is None:
        if a.ndim != 1:
            a = as_arr(it, ravel(it, a))
        axis = 0
    if not isinstance(axis, int):
        raise Unsupported('take along a symbolic axis')
    if axis < 0:
        axis += a.ndim
    if not is_int(indices):
        indices = as_arr(it, indices)
        if indices.ndim == 0:
            raise Unsupported('take at one place')
    return arr_getitem(it, a, (slice(None),) * axis + (indices,))


@simple(np.average, np.mean)
def np_mean(it, a, axis=None, **k):
    if k.get('weights') is not None:
        raise Unsupported('weighted average')
    return m_mean(it, as_arr(it, a), axis)


@simple(np.unique)
def np_unique(it, a, return_counts=False, return_index=False, return_inverse=False, axis=None):
    if return_index or axis is not None or return_inverse and return_counts:
        raise Unsupported('unique with indices')
    a = as_arr(it, a)
    if return_inverse and a.ndim != 1:
        raise Unsupported('inverse of unique in several dimensions')
    s = M.named(seq_of(ravel(it, a)))
    c = ctx()
    if return_inverse and (s.lst is None or any(is_term(x) for x in s.lst)):
        return np_unique_sorted(it, a, s, False, True)
    if s.lst is not None and not any(is_term(x) for x in s.lst):
        u = sorted(set(s.lst))
        r = arr_of_seq(it, SSeq(lst=u), a.dtype)
        if return_inverse:
            return r, arr_of_seq(it, SSeq(lst=[u.index(x) for x in s.lst]), 'i')
        return (r, arr_of_seq(it, SSeq(lst=[s.lst.count(x) for x in u]), 'i')) if return_counts else r
    if a.dtype != 'i':
        raise Unsupported('unique of reals')
    # few possible values: one path per set of values that occur
    cand = c.finite_range(lambda i: s.get(i), s.n) if not c.quick else None
    if cand is not None:
        vals, counts = [], []
        for v in cand:
            cond = lambda i, v=v: eq(s.get(i), v)
            k = z3.Int('uq')
            occ = z3.Exists([k], z3.And(0 <= k, k < lift(s.n), lift(cond(k))))
            if c.branch(occ):
                vals.append(v)
                if return_counts:
                    pos, m = positions(cond, s.n)
                    c.assume(lift(m) > 0)
                    counts.append(m)
        if return_counts:
            # lemma: the positions of the values that occur partition the positions
            c.assume(lift(sum(counts, 0)) == lift(s.n))
            c.assumptions.add('lemma: the numbers of positions of the distinct values of a sequence add up to its length')
        r = arr_of_seq(it, SSeq(lst=vals), 'i')
        return (r, arr_of_seq(it, SSeq(lst=counts), 'i')) if return_counts else r
    return np_unique_sorted(it, a, s, return_counts)


def np_unique_sorted(it, a, s, return_counts, return_inverse=False):
    if a.dtype != 'i':
        raise Unsupported('unique of reals')
    c = ctx()
    # sorted distinct values
    k = z3.Int('canon!un')
    e = lambda i: lift(s.get(i))
    key = ('unique', ckey(e(k)), ckey(lift(s.n)), bool(return_counts))
    if key not in c.cache:
        I = z3.IntSort()
        free = not c.constrained(e(k))
        m, u, rk, w = c.fresh('um'), c.fresh_fun('uval', I, I), c.fresh_fun('urank', I, I), c.fresh_fun('uwit', I, I)
        i, j = z3.Ints('ui uj')
        n = lift(s.n)
        c.assume(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
        c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= w(i), w(i) < n, e(w(i)) == u(i), rk(w(i)) == i)), [u(i)]))
        c.assume(c.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), u(i) < u(j)), [z3.MultiPattern(u(i), u(j))]))
        c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= rk(i), rk(i) < m, u(rk(i)) == e(i))), [rk(i)]))
        # lemma: m = n exactly when the values are distinct
        dis = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), e(i) != e(j)))
        c.assume((m == n) == dis)
        # lemma (pigeonhole): n distinct integers of [0, n) are all of them
        if not free and not return_counts and not c.quick and c.proves(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= e(i), e(i) < n))), 1000):
            iv = c.fresh_fun('uinv', I, I)
            c.assume(z3.Implies(m == n, c.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= iv(i), iv(i) < n, e(iv(i)) == i)), [iv(i)])))
            c.assume(z3.Implies(m == n, c.forall([i], z3.Implies(z3.And(0 <= i, i < n), iv(e(i)) == i), [e(i)])))
            c.assumptions.add('lemma: n distinct integers of [0, n) are all of them (pigeonhole)')
            if not c.dry:
                c.ghosts.append(('inverse', iv, n))
        # and then the values in increasing order are the sorted sequence
        if not free and not return_counts and not c.quick and c.proves(dis, 2000):
            sig, inv = M.sort_perm(lambda i: s.get(i), s.n)
            c.assume(m == n)
            c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < n), u(i) == e(sig(i))), [u(i)]))
            c.assumptions.add('lemma: the distinct values of a sequence without repetition, in increasing order, are the sorted sequence')
        if not c.dry:
            c.ghosts.append(('unique', u, m, rk, s))
        c.assumptions.add('lemma: a sequence has as many distinct values as items exactly when its items are distinct')
        c.cache[key] = (m, u, rk)
    m, u, rk = c.cache[key]
    r = SArr((m,), lambda i: u(i), 'i')
    if return_inverse:
        return r, SArr((s.n,), lambda i: rk(lift(i)), 'i')
    if return_counts:
        # only their bounds are known
        if ('counts', key) not in c.cache:
            cnt = c.cache[('counts', key)] = c.fresh_fun('ucount', z3.IntSort(), z3.IntSort())
            i = z3.Int('ui')
            c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(1 <= cnt(i), cnt(i) <= lift(s.n))), [cnt(i)]))
        cnt = c.cache[('counts', key)]
        return r, SArr((m,), lambda i: cnt(lift(i)), 'i')
    return r


@simple(np.argwhere)
def np_argwhere(it, a):
    a = as_arr(it, a)
    if a.ndim != 1:
        raise Unsupported('argwhere')
    g = a.snap()
    pos, m = positions(lambda i: it.truth_term(g(i)), a.shape[0])
    return SArr((m, 1), lambda i, j: pos(i), 'i')


@simple(np.nonzero)
def np_nonzero(it, a):
    a = as_arr(it, a)
    if a.ndim != 1:
        raise Unsupported('nonzero')
    g = a.snap()
    pos, m = positions(lambda i: it.truth_term(g(i)), a.shape[0])
    return (SArr((m,), lambda i: pos(i), 'i'),)


@simple(np.flatnonzero)
def np_flatnonzero(it, a):
    return np_nonzero(it, ravel(it, as_arr(it, a)))[0]


@simple(np.where)
def np_where(it, cnd, *xy):
    if not xy:
        return np_nonzero(it, cnd)
    return elementwise(it, lambda c, x, y: ite(it.truth_term(c), x, y), [cnd, xy[0], xy[1]], promote(as_arr(it, xy[0]).dtype, as_arr(it, xy[1]).dtype))


@simple(np.argsort)
def np_argsort(it, a, axis=-1, kind=None, **k):
    a = as_arr(it, a)
    if a.ndim != 1:
        raise Unsupported('argsort of a multi-dimensional array')
    s = a.rows()
    if s.lst is not None:
        if any(is_term(x) for x in s.lst):
            raise Unsupported('argsort of a few symbolic values')
        return it.from_native(np.argsort(np.array(s.lst), kind='stable'))
    sig, inv = M.sort_perm(lambda i: s.get(i), s.n)
    return SArr((s.n,), lambda i: sig(i), 'i')


@simple(np.sort)
def np_sort(it, a, axis=-1):
    a = as_arr(it, a)
    if a.ndim == 2 and axis in (-1, 1) and isinstance(a.shape[1], int):
        g = a.snap()
        m = a.shape[1]
        return SArr(a.shape, lambda i, j: SSeq(lst=M.sort_network([g(i, q) for q in range(m)], lambda x, y: lex_lt(x, y))).get(j), a.dtype)
    if a.ndim != 1:
        raise Unsupported('sort')
    s = M.sorted_seq(it, a.rows())
    return arr_of_seq(it, s, a.dtype)


@simple(np.squeeze)
def np_squeeze(it, a, axis=None):
    a = as_arr(it, a)
    keep = []
    for i, s in enumerate(a.shape):
        if isinstance(s, int):
            if s != 1:
                keep.append(s)
        else:
            if ctx().branch(lift(s) == 1):
                continue
            keep.append(s)
    if axis is not None:
        raise Unsupported('squeeze with axis')
    return reshape(it, a, tuple(keep)) if keep else a.get(*[0] * a.ndim)


@simple(np.ravel)
def np_ravel(it, a, order='C'):
    return ravel(it, as_arr(it, a))


@simple(np.reshape)
def np_reshape(it, a, shape, **k):
    return reshape(it, as_arr(it, a), shape)


@simple(np.transpose)
def np_transpose(it, a, axes=None):
    return transpose(it, as_arr(it, a), axes)


@simple(np.copy)
def np_copy(it, a):
    return as_arr(it, a).copy()


@simple(np.shape)
def np_shape(it, a):
    return tuple(as_arr(it, a).shape)


@simple(np.size)
def np_size(it, a):
    return as_arr(it, a).size


@simple(np.ndim)
def np_ndim(it, a):
    return as_arr(it, a).ndim


@simple(np.prod)
def np_prod(it, a, **k):
    s = as_arr(it, a).rows()
    if s.lst is None:
        raise Unsupported('product of a symbolic sequence')
    r = 1
    for x in s.lst:
        r = scalar_op('Mult', r, x)
    return r


@simple(np.isin)
def np_isin(it, a, b, **k):
    a = as_arr(it, a)
    st = SSet(iterate(it, ravel(it, as_arr(it, b))))
    g = a.snap()
    return SArr(a.shape, lambda *i: st.member(g(*i)), 'b')


@simple(np.expand_dims)
def np_expand(it, a, axis):
    a = as_arr(it, a)
    ax = axis % (a.ndim + 1)
    return basic_view(it, a, [slice(None)] * ax + [None] + [slice(None)] * (a.ndim - ax))


def uf(name, *conc_f):
    """uninterpreted real function of an elementwise ufunc"""
    R = z3.RealSort()
    f = z3.Function('np_' + name, R, R)

    def one(x):
        x = simp(num(x))
        if not is_term(x):
            return conc_f[0](x)
        if name == 'sqrt':
            from .lib_models import root
            return root(to_real(lift(x)))
        return f(to_real(lift(x)))

    def model(it, a, **k):
        if is_num(a):
            return one(a)
        if hasattr(a, 'sv_ufunc'):
            return a.sv_ufunc(it, name)
        return elementwise(it, one, [a], 'f')
    return model


for _nm, _cf in (('sqrt', math.sqrt), ('log', math.log), ('exp', math.exp), ('sin', math.sin), ('cos', math.cos), ('tan', math.tan),
                 ('arctan', math.atan), ('log10', math.log10)):
    REG[getattr(np, _nm)] = (lambda m: lambda it, a, k: m(it, *a, **k))(uf(_nm, _cf))


@simple(np.arctan2)
def np_arctan2(it, y, x):
    R = z3.RealSort()
    f = z3.Function('np_arctan2', R, R, R)
    return elementwise(it, lambda a, b: f(to_real(lift(a)), to_real(lift(b))), [y, x], 'f')


@simple(np.square)
def np_square(it, a):
    return M.binop(it, 'Mult', a, a)


@simple(np.abs, np.absolute)
def np_abs(it, a):
    if is_num(a):
        return b_abs_v(a)
    return arr_unary(it, 'Abs', as_arr(it, a))


@simple(np.add)
def np_add(it, a, b):
    return M.binop(it, 'Add', a, b)


@simple(np.subtract)
def np_subtract(it, a, b):
    return M.binop(it, 'Sub', a, b)


@simple(np.multiply)
def np_multiply(it, a, b):
    return M.binop(it, 'Mult', a, b)


@simple(np.divide, np.true_divide)
def np_divide(it, a, b):
    return M.binop(it, 'Div', a, b)


@simple(np.linspace)
def np_linspace(it, a, b, n=50, endpoint=True):
    if not has_term((a, b, n)):
        return it.from_native(np.linspace(a, b, n, endpoint))
    if not endpoint:
        d = n
    else:
        if not ctx().branch(lift(n) > 1):
            return SArr((n,), lambda i: cast(a, 'f'), 'f')
        d = norm(n - 1) if is_term(n) else n - 1
    ra, rb = to_real(lift(a)), to_real(lift(b))
    return SArr((n,), lambda i: simp(ra + (rb - ra) * z3.ToReal(lift(i)) / to_real(lift(d))), 'f')


def np_argmin(it, a, axis=None):
    raise Unsupported('argmin')


def np_argmax(it, a, axis=None):
    raise Unsupported('argmax')


for _t in (np.int64, np.int32, np.intp):
    REG[_t] = lambda it, a, k: M.b_int(it, *a)
for _t in (np.float64,):
    REG[_t] = lambda it, a, k: M.b_float(it, *a)


@simple(np.dtype)
def np_dtype(it, d):
    try:
        return np.dtype(d)
    except TypeError as e:
        raise PyRaise(e)


@simple(np.count_nonzero)
def np_count_nonzero(it, a, axis=None):
    a = ravel(it, as_arr(it, a)) if axis is None else as_arr(it, a)
    if axis is not None or a.ndim != 1:
        raise Unsupported('count_nonzero of several dimensions')
    g = a.snap()
    return positions(lambda i: it.truth_term(g(i)), a.shape[0])[1]


def obj_unique(it, a, return_counts=False, **k):
    if a.items is not None and len(a.items) != 1:
        raise PyRaise(TypeError("'<' not supported"))
    u = ObjArr([None])
    return (u, arr_of_seq(it, SSeq(lst=[1]), 'i')) if return_counts else u


REG[np.unique] = on_objects(REG[np.unique], obj_unique)
REG[np.cumsum] = on_objects(REG[np.cumsum], lambda it, a, **k: ObjArr([None]) if a.items is None else M.unsup('cumsum of objects'))
