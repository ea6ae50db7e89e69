"""Symbolic values: sequences, lists, arrays with views, sets, dictionaries."""
import z3
import numpy as np
from .core import (Unsupported, PyRaise, NeedGuard, is_term, is_int, is_num, is_bool, lift, simp, norm, same_int, consts_of, poly,
                   unpoly, _padd, _pscale, _pmul)

CTX = [None]


def ctx():
    return CTX[0]


def conc(x):
    """python int of a concrete scalar or None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if is_term(x):
        s = simp(x)
        return s if isinstance(s, int) and not isinstance(s, bool) else None
    return None


# ------------------------------------------------------------------ sequences
class SSeq:
    """immutable sequence: length n (int or term) and element function"""
    __slots__ = ('n', '_get', 'lst', 'parts', 'tag', 'ghost')

    def __init__(self, n=None, get=None, lst=None, parts=None, tag=None):
        self.lst = lst
        self.tag = tag
        self.parts = parts
        self.ghost = {}
        if lst is not None:
            self.n = len(lst)
            self._get = None
        else:
            self.n = norm(n)
            self._get = get
            if isinstance(self.n, int) and self.n < 0:
                self.n = 0
            if isinstance(self.n, int) and parts is None and self.n <= 64:
                self.lst = [get(i) for i in range(self.n)]

    def get(self, i):
        if self.lst is not None:
            c = conc(i)
            if c is not None:
                if not 0 <= c < len(self.lst):
                    raise Unsupported(f'engine read outside of a sequence ({c} of {len(self.lst)})')
                return self.lst[c]
            if not self.lst:
                raise Unsupported('read in an empty sequence')
            r = self.lst[-1]
            for j in range(len(self.lst) - 2, -1, -1):
                r = ite(i == j, self.lst[j], r)
            return r
        return self._get(i)

    @property
    def concrete(self):
        return self.lst is not None

    def segments(self):
        """[(offset, SSeq without parts)]"""
        if self.parts is None:
            return [(0, self)]
        out, off = [], 0
        for p in self.parts:
            for o, s in p.segments():
                out.append((norm(off + o), s))
            off = norm(off + p.n)
        return out

    def map(self, f):
        if self.lst is not None:
            return SSeq(lst=[f(x) for x in self.lst])
        if self.parts is not None:
            return concat([p.map(f) for p in self.parts])
        return SSeq(self.n, lambda i: f(self.get(i)))

    def slice(self, lo, hi):
        if self.lst is not None and conc(lo) is not None and conc(hi) is not None:
            return SSeq(lst=self.lst[conc(lo):conc(hi)])
        return SSeq(hi - lo, lambda i: self.get(norm(i + lo)))


def concat(parts):
    flat = []
    for p in parts:
        for _, s in p.segments():
            if not (isinstance(s.n, int) and s.n == 0):
                flat.append(s)
    if not flat:
        return SSeq(lst=[])
    if all(p.lst is not None for p in flat):
        return SSeq(lst=[x for p in flat for x in p.lst])
    if len(flat) == 1:
        return flat[0]
    offs, off = [], 0
    for p in flat:
        offs.append(off)
        off = norm(off + p.n)

    def get(i, k=0):
        p = flat[k]
        if k == len(flat) - 1:
            return p.lst[0] if p.lst is not None and len(p.lst) == 1 else p.get(norm(i - offs[k]))
        c = simp(lift(i) < lift(offs[k + 1]))
        if c is False:
            return get(i, k + 1)
        if c is True:
            return p.get(norm(i - offs[k]))
        return ite(c, p.get(norm(i - offs[k])), get(i, k + 1))
    return SSeq(off, get, parts=flat)


def ite_lazy(c, fa, b):
    if c is True:
        return fa()
    if c is False:
        return b
    return ite(c, fa(), b)


class SObj:
    """mutable symbolic object"""

    def _born(self):
        c = ctx()
        self.born = tuple(g.ident for g in c.generics) if c else ()
        self.gdepth = sum(len(g.guards) for g in c.generics) if c else 0

    def outer(self):
        """innermost generic iteration in which the object is external, or None if it may be mutated directly"""
        c = ctx()
        for g in reversed(c.generics):
            if g.ident not in self.born:
                return g
        if sum(len(g.guards) for g in c.generics) != self.gdepth:
            raise Unsupported('guarded mutation of an object of the iteration')
        return None

    def effect(self, kind, *payload):
        g = self.outer()
        if g is None:
            return False
        if g is not ctx().generics[-1]:
            # an external object of an outer iteration mutated in an inner one: only the innermost loop is summarised first
            pass
        top = ctx().generics[-1]
        top.effects.setdefault(id(self), (self, []))[1].append((kind, list(top.guards), payload))
        return True

    def touch(self):
        """read of the object inside generic iterations where it is external"""
        c = ctx()
        for g in c.generics:
            if g.ident not in self.born:
                if id(self) in g.effects:
                    raise Unsupported('read of an object already changed by this iteration')
                g.reads[id(self)] = self


class SList(SObj):
    def __init__(self, seq=None):
        if seq is None:
            seq = SSeq(lst=[])
        elif isinstance(seq, list):
            seq = SSeq(lst=seq)
        self._seq = seq
        self._born()

    @property
    def seq(self):
        self.touch()
        return self._seq

    def set(self, seq):
        g = self.outer()
        if g is not None:
            raise Unsupported('replacement of a list content inside an iteration')
        self._seq = seq

    def append(self, x):
        if not self.effect('append', x):
            self._seq = concat([self._seq, SSeq(lst=[x])])

    def extend(self, other):
        s = seq_of(other)
        if not self.effect('extend', s):
            self._seq = concat([self._seq, s])


class SSet(SObj):
    """set given by a sequence of (possibly repeated) members"""

    def __init__(self, seq=None):
        self._seq = seq if seq is not None else SSeq(lst=[])
        self._born()
        self._mem = None
        self._enum = None

    def seq_changed(self, seq):
        self._seq = seq
        self._mem = self._enum = None

    def update(self, other):
        s = seq_of(other)
        if not self.effect('extend', s):
            self.seq_changed(concat([self._seq, s]))

    def add(self, x):
        if not self.effect('append', x):
            self.seq_changed(concat([self._seq, SSeq(lst=[x])]))

    def member(self, x):
        """term: x is in the set"""
        self.touch()
        s = self._seq
        if s.lst is not None:
            out = []
            for y in s.lst:
                e = eq(x, y)
                if e is True:
                    return True
                if e is not False:
                    out.append(e)
            return simp(z3.Or(out)) if out else False
        mem, wit = self.predicate()
        return mem(x)

    def predicate(self):
        if self._mem is None:
            c = ctx()
            sc = [g for g in c.generics if g.ident not in self.born]
            if sc and not any(id(self) in g.effects for g in sc) and not any(g.guards for g in c.generics if g.ident in self.born):
                # the set does not depend on the iterations it is external to
                saved, c.generics = c.generics, [g for g in c.generics if g.ident in self.born]
                try:
                    r = self.predicate()
                    if c.dry:
                        self._mem = None
                    return r
                finally:
                    c.generics = saved
            s = self._seq
            sort = sample_sort(s)
            mem = c.fresh_fun('mem', sort, z3.BoolSort())
            for body in c.cache.get('of members', []):      # facts of the contract on any value, wanted for the values looked up
                y = z3.Const(c.fresh_name('y'), sort)
                if sort == z3.IntSort():
                    c.define(c.forall([y], body(y), [mem(y)]))
            wit = None
            x = z3.Const(c.fresh_name('x'), sort)
            alts = []

            def kind(vs, cond, e):
                shift = norm(lift(e) - vs[0]) if len(vs) == 1 and sort == z3.IntSort() else None
                if shift is not None and (not is_term(shift) or vs[0].decl().name() not in consts_of(shift)):      # a, a + 1, ..
                    cond2 = [z3.substitute(t, (vs[0], x - lift(shift))) for t in cond]
                    c.define(c.forall([x], z3.Implies(z3.And(cond2), mem(x)), [mem(x)]))
                    alts.append(z3.And(cond2))
                    return
                c.define(c.forall(vs, z3.Implies(z3.And(cond), mem(e)), pattern_of(e, *vs)) if vs else mem(e))
                sk = [(u, c.fresh_fun('memw', sort, z3.IntSort())(x)) for u in vs]
                t = z3.And(*cond, as_term(eq(e, x))) if cond else as_term(eq(e, x))
                alts.append(z3.substitute(t, *sk) if sk else t)
            each_item(s, kind)
            c.define(c.forall([x], z3.Implies(mem(x), z3.Or(alts)), [mem(x)]))
            if not sc:
                self._mem = (mem, wit)
            return mem, wit
        return self._mem

    def enum(self):
        """sequence of the distinct members, in an arbitrary order"""
        self.touch()
        s = self._seq
        if s.lst is not None and all(conc(x) is not None or isinstance(x, (str, tuple)) and not has_term(x) for x in s.lst):
            return SSeq(lst=list({conc(x) if conc(x) is not None else x for x in s.lst}))
        if self._enum is None:
            c = ctx()
            mem, wit = self.predicate()
            sort = sample_sort(s)
            m = c.fresh('card')
            el = c.fresh_fun('elem', z3.IntSort(), sort)
            idx = c.fresh_fun('eidx', sort, z3.IntSort())
            i, x = z3.Int(c.fresh_name('i')), z3.Const(c.fresh_name('x'), sort)
            c.define(z3.And(m >= 0, m <= lift(s.n)))
            c.define(z3.Implies(lift(s.n) > 0, m > 0))
            c.define(c.forall([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(mem(el(i)), idx(el(i)) == i)), [el(i)]))
            c.define(c.forall([x], z3.Implies(mem(x), z3.And(0 <= idx(x), idx(x) < m, el(idx(x)) == x)), [mem(x)]))
            self._enum = SSeq(m, lambda i: el(i))
            self._enum.ghost['set'] = self
            self._enum.ghost['idx'] = idx
        return self._enum


class SDict(SObj):
    """dictionary with concrete keys (d) or a symbolic mapping (map)"""

    def __init__(self, d=None, default=None, kind='dict'):
        self.d = d if d is not None else {}
        self.default = default
        self.map = None
        self.kind = kind
        self._born()


class GroupMap:
    """result of grouping a sequence by key: ng distinct keys, in order of first appearance; groups keep the order"""


def each_item(s, emit, vs=(), cond=()):
    """emit(bound variables, conditions, item) for every kind of item of the sequence (rows of flattened sequences kept apart)"""
    if s.parts is not None:
        for p in s.parts:
            each_item(p, emit, vs, cond)
        return
    if s.lst is not None:
        for e in s.lst:
            emit(list(vs), list(cond), e)
        return
    i = z3.Int(ctx().fresh_name('i'))
    rows = s.ghost.get('rows') or s.ghost.get('ragged')
    if rows is not None:
        r = rows[0]
        if r.parts is not None or r.lst is not None:
            for p in (r.parts or []):
                each_item(_flat(p), emit, vs, cond)
            for x in (r.lst or []):
                each_item(seq_of(x), emit, vs, cond)
            return
        each_item(seq_of(r.get(i)), emit, tuple(vs) + (i,), tuple(cond) + (0 <= i, i < lift(r.n)))
        return
    emit(list(vs) + [i], list(cond) + [0 <= i, i < lift(s.n)], s.get(i))


def _flat(p):
    from .models import flatten
    return flatten(p)


def sample_sort(s):
    for _, p in s.segments():
        if p.lst is not None:
            for x in p.lst:
                return lift(x).sort()
        else:
            return lift(p.get(z3.Int('sample?'))).sort()
    return z3.IntSort()


def pattern_of(e, *vs):
    """usable trigger: smallest uninterpreted application containing the variables"""
    names = {v.decl().name() for v in vs}
    best = []

    def walk(t):
        if not is_term(t) or z3.is_quantifier(t):
            return set()
        if z3.is_const(t):
            n = t.decl().name()
            return {n} & names
        got = set()
        for ch in t.children():
            got |= walk(ch)
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and got == names and not ops_inside(t):
            best.append(t)
        return got
    for x in (e if isinstance(e, (list, tuple)) else [e]):
        walk(x)
    if best:
        return [min(best, key=lambda t: len(str(t)))]
    return None


def ops_inside(t):
    for ch in t.children():
        if z3.is_app(ch) and ch.num_args() > 0:
            if ch.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT):
                return True
        if ops_inside(ch):
            return True
    return False


def has_term(x):
    if is_term(x) or isinstance(x, (SObj, SSeq, SArr)):
        return True
    if isinstance(x, (tuple, list)):
        return any(has_term(y) for y in x)
    if isinstance(x, dict):
        return any(has_term(y) for y in x.values()) or any(has_term(y) for y in x.keys())
    if isinstance(x, slice):
        return any(has_term(y) for y in (x.start, x.stop, x.step))
    return False


def as_term(b):
    return lift(b)


# ------------------------------------------------------------------ arrays
class Store(SObj):
    def __init__(self, shape, get, dtype):
        self.shape, self.get, self.dtype = tuple(norm(x) for x in shape), get, dtype
        self._born()


class SArr:
    """numpy array: a view (imap / inv) of a store"""

    def __init__(self, shape, get=None, dtype='i', store=None, imap=None, inv=None, kind=None):
        self.shape = tuple(norm(x) if is_term(x) else int(x) for x in shape)
        self.kind = kind
        if store is None:
            store = Store(self.shape, get, dtype)
            imap = lambda *i: i
            inv = lambda *b: (True, b)
        self.store, self.imap, self.inv = store, imap, inv
        self.noview = False
        self.ghost = {}

    @property
    def dtype(self):
        return self.store.dtype

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = n * s
        return norm(n) if is_term(n) else n

    def snap(self):
        """element function of the current content"""
        self.store.touch()
        g, im = self.store.get, self.imap
        return lambda *i: g(*im(*i))

    def get(self, *i):
        self.store.touch()
        return self.store.get(*self.imap(*i))

    def copy(self):
        return SArr(self.shape, self.snap(), self.dtype)

    def view(self, shape, vmap, vinv):
        im, iv = self.imap, self.inv

        def inv(*b):
            c, i = iv(*b)
            c2, j = vinv(*i)
            return and_(c, c2), j
        a = SArr(shape, store=self.store, imap=lambda *i: im(*vmap(*i)), inv=inv)
        a.noview = self.noview
        return a

    def write(self, val):
        """assign every element: val(view index) -> element"""
        if self.noview:
            raise Unsupported('write through a reshaped array')
        if self.store.effect('write', self, val):
            return
        self._write(val, self.inv)

    def _write(self, val, inv):
        old = self.store.get

        def get(*b):
            c, i = inv(*b)
            if c is False:
                return old(*b)
            if c is True:
                return val(*i)
            return ite(c, val(*i), old(*b))
        self.store.get = get

    def rows(self):
        """python sequence of first-axis items"""
        g = self.snap()
        if self.ndim == 1:
            s = SSeq(self.shape[0], lambda i: g(i))
            if self.ghost.get('grid') is not None:
                s.ghost['rows'] = self.ghost['grid']
            return s
        sh = self.shape[1:]
        return SSeq(self.shape[0], lambda i: SArr(sh, lambda *j: g(i, *j), self.dtype))

    def tolist(self):
        g = self.snap()

        def rec(shape, pre):
            if len(shape) == 1:
                return SList(SSeq(shape[0], lambda i: g(*pre, i)))
            return SList(SSeq(shape[0], lambda i: rec(shape[1:], pre + (i,))))
        if not self.shape:
            return g()
        out = rec(self.shape, ())
        if self.ghost.get('parts') and self.ndim == 1:
            out._seq = self.ghost['parts']
        elif self.ghost.get('grid') is not None and self.ndim == 1:
            out._seq.ghost['rows'] = self.ghost['grid']
        return out


def and_(*cs):
    out = []
    for c in cs:
        c = simp(c)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return True if not out else (out[0] if len(out) == 1 else z3.And(out))


def or_(*cs):
    out = []
    for c in cs:
        c = simp(c)
        if c is True:
            return True
        if c is not False:
            out.append(c)
    return False if not out else (out[0] if len(out) == 1 else z3.Or(out))


def not_(c):
    c = simp(c)
    return (not c) if isinstance(c, bool) else simp(z3.Not(c))


# ------------------------------------------------------------------ generic operations
class OpaqueStr:
    """a string whose content is not modelled (log and error messages)"""

    def __repr__(self):
        return '<text>'


def is_stext(x):
    """symbolic text (term of the string sort)"""
    return is_term(x) and z3.is_string(x)


def is_text(x):
    return isinstance(x, str) or is_stext(x)


def ltext(x):
    return z3.StringVal(x) if isinstance(x, str) else x


def text_cat(*parts):
    """concatenation, flattened, neighbouring literals joined"""
    flat = []
    stack = list(reversed(parts))
    while stack:
        x = stack.pop()
        if is_term(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            stack.extend(reversed(x.children()))
            continue
        if is_term(x) and z3.is_string_value(x):
            x = x.as_string()
        if isinstance(x, str):
            if not x:
                continue
            if flat and isinstance(flat[-1], str):
                flat[-1] += x
                continue
        flat.append(x)
    if not flat:
        return ''
    if len(flat) == 1:
        return flat[0]
    return z3.Concat(*[ltext(x) for x in flat])


def ite(c, a, b):
    c = simp(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b) or is_bool(a) and is_bool(b):
        if not is_term(a) and not is_term(b) and type(a) is type(b) and a == b:
            return a
        ta, tb = lift(a), lift(b)
        if ta.sort() != tb.sort():
            if z3.is_bool(ta) or z3.is_bool(tb):
                raise Unsupported('merge of a boolean and a number')
            ta, tb = to_real(ta), to_real(tb)
        return simp(z3.If(c, ta, tb))
    if is_term(a) and is_term(b) and a.sort() == b.sort():
        return simp(z3.If(c, a, b))
    if is_text(a) and is_text(b) and (is_term(a) or is_term(b)):
        return simp(z3.If(c, ltext(a), ltext(b)))
    if hasattr(a, 'sv_ite') and type(a) is type(b):
        return a.sv_ite(c, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
        return SList(ite_seq(c, seq_of(a), seq_of(b)))
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        return ite_seq(c, a, b)
    if isinstance(a, SSeq) and isinstance(b, tuple) or isinstance(a, tuple) and isinstance(b, SSeq):
        return ite_seq(c, seq_of(a), seq_of(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return ite_seq(c, seq_of(a), seq_of(b))
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim and a.dtype == b.dtype:
        ga, gb = a.snap(), b.snap()
        return SArr([ite(c, x, y) for x, y in zip(a.shape, b.shape)], lambda *i: ite(c, ga(*i), gb(*i)), a.dtype)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, np.generic) or isinstance(b, np.generic):
        return ite(c, a.item() if isinstance(a, np.generic) else a, b.item() if isinstance(b, np.generic) else b)
    raise Unsupported(f'merge of {type(a).__name__} and {type(b).__name__}')


class Maybe:
    """item of a list created with None: the value under the condition, None otherwise"""

    def __init__(self, cond, value):
        self.cond, self.value = cond, value

    def sv_ite(self, c, o):
        return Maybe(ite(c, self.cond, o.cond), ite(c, self.value, o.value))

    def sv_subst(self, pairs):
        return Maybe(subst(self.cond, pairs), subst(self.value, pairs))

    def sv_truth(self, it):
        raise Unsupported('truth of a value that may be None')

    def __eq__(self, o):
        raise Unsupported('comparison of a value that may be None')

    __hash__ = None


def put(c, v, old):
    """item of a list after v was stored in it under c"""
    c = simp(c)
    if c is True or c is False:
        return v if c else old
    if (old is None or isinstance(old, Maybe)) and is_num(v):
        return Maybe(c, v) if old is None else Maybe(or_(c, old.cond), ite(c, v, old.value))
    return ite(c, v, old)


def ite_seq(c, a, b):
    if a.lst is not None and b.lst is not None and len(a.lst) == len(b.lst):
        return SSeq(lst=[ite(c, x, y) for x, y in zip(a.lst, b.lst)])
    n = ite(c, a.n, b.n)

    def get(i):
        ca = a.lst is not None and not a.lst
        cb = b.lst is not None and not b.lst
        if ca:
            return b.get(i)
        if cb:
            return a.get(i)
        return ite(c, safe_get(a, i), safe_get(b, i))
    return SSeq(n, get)


def safe_get(s, i):
    """read where the index may be out of the sequence (the value is then irrelevant)"""
    if s.lst is not None:
        ci = conc(i)
        if ci is not None:
            return s.lst[min(max(ci, 0), len(s.lst) - 1)]
    return s.get(i)


def to_real(t):
    return t if t.is_real() else z3.ToReal(t)


def subst(v, pairs):
    """value with constants replaced by terms: pairs [(const, term)]"""
    if is_term(v):
        return simp(z3.substitute(v, *[(a, lift(b)) for a, b in pairs]))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, SSeq):
        if v.lst is not None:
            return SSeq(lst=[subst(x, pairs) for x in v.lst])
        if v.parts is not None:
            return concat([subst(p, pairs) for p in v.parts])
        return SSeq(subst(v.n, pairs), lambda i: subst_open(v.get, i, pairs))
    if isinstance(v, SList):
        r = SList(subst(v._seq, pairs))
        return r
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, SArr):
        g, im = v.store.get, v.imap
        base = lambda *i: g(*im(*i))
        return SArr([subst(s, pairs) for s in v.shape], lambda *i: subst_openn(base, i, pairs), v.dtype)
    if isinstance(v, SSet):
        return SSet(subst(v._seq, pairs))
    if hasattr(v, 'sv_subst'):
        return v.sv_subst(pairs)
    return v


def subst_open(get, i, pairs):
    return subst_openn(lambda j: get(j), (i,), pairs)


def subst_openn(get, idx, pairs):
    """get(idx) with pairs substituted, where idx itself may contain the substituted constants (must not be replaced)"""
    names = {a.decl().name() for a, _ in pairs}
    fresh, back, args = [], [], []
    for x in idx:
        if is_term(x) and names & consts_of(x):
            t = z3.Const(ctx().fresh_name('hole'), x.sort())
            fresh.append(t)
            back.append((t, x))
            args.append(t)
        else:
            args.append(x)
    r = subst(get(*args), pairs)
    return subst(r, back) if back else r


def seq_of(v):
    """immutable sequence of the items of an iterable value"""
    if isinstance(v, SSeq):
        return v
    if isinstance(v, SList):
        return v.seq
    if isinstance(v, (list, tuple)):
        return SSeq(lst=list(v))
    if isinstance(v, SArr):
        if not v.shape:
            raise PyRaise(TypeError('iteration over a 0-d array'))
        if v.ghost.get('parts') is not None and v.ndim == 1:
            return v.ghost['parts']
        return v.rows()
    if isinstance(v, SSet):
        return v.enum()
    if isinstance(v, SIter):
        return v.take()
    if isinstance(v, SDict):
        if v.map is not None:
            return v.map.keys()
        v.touch()
        return SSeq(lst=list(v.d.keys()))
    if isinstance(v, np.ndarray):
        return SSeq(lst=list(v))
    if isinstance(v, str):
        return SSeq(lst=list(v))
    if isinstance(v, dict):
        return SSeq(lst=list(v.keys()))
    if isinstance(v, (set, frozenset)):
        return SSeq(lst=list(v))
    if isinstance(v, range):
        return SSeq(lst=list(v))
    if hasattr(v, '__seq__'):
        return v.__seq__()
    if isinstance(v, type({}.keys())) or isinstance(v, type({}.values())) or isinstance(v, type({}.items())):
        return SSeq(lst=list(v))
    if hasattr(type(v), '__next__') or hasattr(type(v), '__iter__') and type(v).__module__ in ('builtins', 'itertools', 'collections'):
        return SSeq(lst=list(v))
    raise Unsupported(f'iteration over {type(v).__name__}')


class SIter:
    """one-shot iterator"""

    def __init__(self, seq):
        self._seq = seq
        self.used = False

    def take(self):
        if self.used:
            return SSeq(lst=[])
        self.used = True
        return self._seq


def eq(a, b):
    """python equality of two values as bool or term"""
    if a is b:
        return True
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
        if not is_term(a) and not is_term(b):
            return a == b
        ta, tb = lift(a), lift(b)
        if ta.sort() != tb.sort():
            if z3.is_bool(ta):
                ta = z3.If(ta, 1, 0)
            if z3.is_bool(tb):
                tb = z3.If(tb, 1, 0)
            if ta.sort() != tb.sort():
                ta, tb = to_real(ta), to_real(tb)
        if z3.is_int(ta) and same_int(ta, tb):
            return True
        return simp(ta == tb)
    if is_term(a) and is_term(b):
        if a.sort() != b.sort():
            return False
        return simp(a == b)
    if is_stext(a) and isinstance(b, str) or is_stext(b) and isinstance(a, str):
        return simp(ltext(a) == ltext(b))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Maybe):
            return not_(x.cond) if y is None else and_(x.cond, eq(x.value, y)) if is_num(y) else bool(x == y)
    la, lb = isinstance(a, (SList, list)), isinstance(b, (SList, list))
    ta, tb = isinstance(a, (tuple, SSeq)), isinstance(b, (tuple, SSeq))
    if la and lb or ta and tb:
        return eq_seq(seq_of(a), seq_of(b))
    if (la or ta) and (b is None or isinstance(b, (str, int))) or (lb or tb) and (a is None or isinstance(a, (str, int))):
        return False
    if la and tb or ta and lb:
        return False
    if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
        raise Unsupported('comparison of unmodelled text')
    if a is None or b is None:
        return False
    if is_term(a) or is_term(b):
        if isinstance(a, str) or isinstance(b, str):
            return False
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')
    if isinstance(a, (SObj, SArr)) or isinstance(b, (SObj, SArr)):
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')
    return bool(a == b)


def eq_seq(a, b):
    if a.lst is not None and b.lst is not None:
        if len(a.lst) != len(b.lst):
            return False
        return and_(*[eq(x, y) for x, y in zip(a.lst, b.lst)])
    i = z3.Int(ctx().fresh_name('i'))
    body = eq(a.get(i), b.get(i))
    return and_(eq(a.n, b.n), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(a.n)), as_term(body))))


# ------------------------------------------------------------------ integer division by a symbolic size
def divmod_sym(i, m):
    """(q, s) with i = q*m + s and 0 <= s < m, m > 0"""
    c = ctx()
    i, m = norm(i), norm(m)
    if isinstance(i, int) and isinstance(m, int):
        return divmod(i, m)
    if isinstance(m, int):
        if m == 1:
            return i, 0
    p, at = poly(lift(i))
    pm, atm = poly(lift(m))
    # a sum with an atom of coefficient 1 is made a single monomial: x = M - rest
    linear = [] if len(pm) == 1 else [k for k, v in pm.items() if len(k) == 1 and v == 1 and sum(k[0] in q for q in pm) == 1]
    tries = [None] if len(pm) == 1 else linear
    for x in tries:
        if x is None:
            pi, ati, (km, cm), back = p, at, list(pm.items())[0], lambda t: t
        else:
            M = z3.Int(c.fresh_name('M'))
            pM = poly(M)
            km, cm = list(pM[0])[0], 1
            rest = _padd([pM, _pscale(({k: v for k, v in pm.items() if k != x}, atm), -1)])
            pi, ati = {}, {}
            for k, v in p.items():
                q = ({tuple(a for a in k if a != x[0]): v}, at)
                for _ in range(k.count(x[0])):
                    q = _pmul(q, rest)
                pi, ati = _padd([(pi, ati), q])
            back = lambda t, M=M: norm(z3.substitute(lift(t), (M, lift(m))))
        q, r = {}, {}
        for k, v in pi.items():
            rest_ = list(k)
            ok = v % cm == 0
            for a in km:
                if a in rest_:
                    rest_.remove(a)
                else:
                    ok = False
            if ok:
                q[tuple(rest_)] = v // cm
            else:
                r[k] = v
        empty = not q
        q, r = back(unpoly((q, ati))), back(unpoly((r, ati)))
        if is_term(r) and any(x.startswith(('canon!', 'h!', 'hole!')) for x in consts_of(r)):
            continue      # nothing is known of it
        if c.proves(z3.And(lift(r) >= 0, lift(r) < lift(m))):
            return q, r
        if empty and x is None:
            continue
        if c.proves(z3.And(lift(r) >= lift(m), lift(r) < 2 * lift(m))):
            return norm(q + 1), norm(r - m)
        if c.proves(z3.And(lift(r) < 0, lift(r) >= -lift(m))):
            return norm(q - 1), norm(r + m)
    if isinstance(m, int):
        return simp(lift(i) / m), simp(lift(i) % m)
    Q, R = qdiv(), rmod()
    return Q(lift(i), lift(m)), R(lift(i), lift(m))


def qdiv():
    c = ctx()
    I = z3.IntSort()
    Q, R = z3.Function('qdiv', I, I, I), z3.Function('rmod', I, I, I)
    if 'qdiv' not in c.lemmas:
        c.lemmas.add('qdiv')
        i, m = z3.Ints('i? m?')
        c.facts.append(z3.ForAll([i, m], z3.Implies(m > 0, z3.And(i == Q(i, m) * m + R(i, m), 0 <= R(i, m), R(i, m) < m)), patterns=[Q(i, m), R(i, m)]))
        c.facts.append(z3.ForAll([i, m], z3.Implies(z3.And(m > 0, i >= 0), Q(i, m) >= 0), patterns=[Q(i, m)]))
    return Q


def rmod():
    I = z3.IntSort()
    return z3.Function('rmod', I, I, I)


def renorm_div(t):
    """rewrite qdiv/rmod applications whose quotient is now known (after instantiation of bound indices); equivalence preserving"""
    if not is_term(t):
        return t
    for _ in range(8):
        found, seen = {}, set()

        def walk(x):
            if x.get_id() in seen or z3.is_quantifier(x):
                return
            seen.add(x.get_id())
            for ch in x.children():
                walk(ch)
            if z3.is_app(x) and x.decl().name() in ('qdiv', 'rmod') and x.num_args() == 2:
                found[x.get_id()] = x
        walk(t)
        pairs = []
        for x in found.values():
            if any(z3.is_var(y) for y in _leaves(x)):
                continue
            a, m = x.children()
            q, r = divmod_sym(a, m)
            if is_term(q) and z3.is_app(q) and q.decl().name() == 'qdiv' and q.arg(0).eq(norm_term(a)) and q.arg(1).eq(norm_term(m)):
                continue
            pairs.append((x, lift(q if x.decl().name() == 'qdiv' else r)))
        if not pairs:
            return t
        t = simp(z3.substitute(t, *pairs))
        if not is_term(t):
            return t
    return t


def norm_term(a):
    return lift(norm(a))


def _leaves(t):
    if t.num_args() == 0 if z3.is_app(t) else True:
        return [t]
    return [y for ch in t.children() for y in _leaves(ch)]
