"""Meaning of builtins, containers and operators on symbolic values. numpy: np_models.py"""
import builtins
import collections
import itertools
import operator
import functools
import types
import z3
import numpy as np
from .core import (ckey, Unsupported, PyRaise, NeedGuard, is_term, is_int, is_num, is_bool, lift, simp, norm, same_int, consts_of, poly,
                   unpoly)
from .values import (Maybe, put, is_text, is_stext, text_cat, ltext, SSeq, SObj, SList, SSet, SDict, SArr, SIter, Store, OpaqueStr, concat, seq_of, ite, eq, and_, or_, not_, conc,
                     has_term, subst, ctx, sample_sort, pattern_of, divmod_sym, to_real, safe_get)
from .interp import Model, Inst, Func, Bound, Poison, StarArgs, class_in_repo

REG = {}      # function object -> model(interp, args, kwargs)
ARR_ATTR = {}


def reg(*fns):
    def deco(f):
        for x in fns:
            REG[x] = f
        return f
    return deco


def simple(*fns):
    """model given as a plain python function of the arguments"""
    def deco(f):
        for x in fns:
            REG[x] = lambda it, args, kwargs: f(it, *args, **kwargs)
        return f
    return deco


def lookup(fn):
    try:
        return REG.get(fn)
    except TypeError:
        return None


NATIVE_MODULES = ('builtins', 'math', 'itertools', 'operator', 'functools', 'collections', 'pathlib', 're', 'struct', 'string', 'os',
                  'posixpath', 'copy', 'datetime', 'types', 'numbers', 'numpy', '_struct', 'cfdtools')
FORBIDDEN = {'open', 'exec', 'eval', 'compile', 'input', '__import__', 'print'}


def native_ok(fn):
    """library functions that may be called on concrete values (no effects outside of their arguments)"""
    s = getattr(fn, '__self__', None)
    if isinstance(s, (dict, list, set)) and not isinstance(s, types.ModuleType):
        return getattr(fn, '__name__', '') in ('get', 'keys', 'items', 'values', 'copy', 'index', 'count', '__getitem__', '__len__',
                                               '__contains__', '__iter__')
    if isinstance(s, np.ndarray):
        return False
    if isinstance(s, (str, bytes, int, float, tuple)):
        return True
    import pathlib
    if isinstance(s, pathlib.PurePath):
        return getattr(fn, '__name__', '') in ('with_suffix', 'with_name', 'with_stem', 'joinpath', 'as_posix', 'relative_to', 'is_absolute')
    if fn is object:
        return True
    n = getattr(fn, '__name__', '')
    m = (getattr(fn, '__module__', None) or getattr(type(fn), '__module__', '') or '')
    if m.split('.')[0] not in NATIVE_MODULES or n in FORBIDDEN:
        return False
    if m in ('os', 'posix') or m == 'posixpath' and n in ('exists', 'isfile', 'isdir', 'realpath', 'abspath', 'getsize'):
        return False
    if isinstance(fn, type) and issubclass(fn, (pathlib.PurePath,)):
        return True
    if m == 'numpy':
        return True
    return True


# =============================================================== ghosts
def canon(f, base='cn'):
    """text identifying a function of an index"""
    k = z3.Int('canon!' + base)
    v = f(k)
    return str(ckey(lift(v)) if is_term(v) else v)


def has_ite(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo.extend(x.children())
    return False


def under(t, hyp, limit=8):
    """the term with the alternatives removed that the hypothesis (and the context) decides"""
    c = ctx()
    for _ in range(limit):
        todo, seen, found = [t], set(), None
        while todo and found is None:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE:
                a = x.arg(0)
                if c.proves(z3.Implies(hyp, a)):
                    found = (x, x.arg(1))
                elif c.proves(z3.Implies(hyp, z3.Not(a))):
                    found = (x, x.arg(2))
                elif c.proves(z3.Implies(z3.And(hyp, z3.Not(a)), x.arg(1) == x.arg(2))):
                    found = (x, x.arg(1))
            todo.extend(x.children())
        if found is None:
            return t
        t = lift(norm(z3.substitute(t, found)))
    return t


def prefix_sum(length, n):
    """S with S(0) = 0, S(i+1) = S(i) + length(i); monotonic when lengths are not negative"""
    c = ctx()
    k = z3.Int('canon!ps')
    L = lift(length(k))
    if has_ite(L):
        L2 = under(L, z3.And(k >= 0, k < lift(n)))
        if not L2.eq(L):
            L, length = L2, (lambda j, L=L2: norm(z3.substitute(L, (k, lift(j)))))
    if z3.is_int_value(L) or k.decl().name() not in consts_of(L):
        d = length(k)
        return lambda j: norm(lift(d) * lift(j))
    n = norm(n)
    pc, at = poly(L)
    if pc.get((), 0) and len(pc) > 1 and not any(g.k.decl().name() in consts_of(L) for g in c.generics):      # a constant part is summed apart
        cst = pc[()]
        S0 = prefix_sum(lambda i: norm(lift(length(i)) - cst), n)

        def S(j):
            return norm(lift(S0(j)) + cst * lift(j)) if is_term(j) else norm(S0(j) + cst * j)
        S.fun = lambda j: S0.fun(j) + cst * lift(j)
        S.decl, S.length, S.n = S0.decl, length, n
        return S
    key = ('psum', ckey(L), str(n), str([g.k for g in c.generics if g.k.decl().name() in consts_of(L)]))
    if key in c.cache:
        return c.cache[key]
    f = c.fresh_fun('psum', z3.IntSort(), z3.IntSort())

    def S(j):
        j = norm(j)
        if isinstance(j, int):
            r = 0
            if 0 <= j <= 16:
                for i in range(j):
                    r = r + length(i)
                return norm(r) if is_term(r) else r
            return f(z3.IntVal(j))
        p, at = poly(lift(j))
        cst = p.get((), 0)
        if 1 <= cst <= 8:
            x = norm(j - 1)
            return norm(S(x) + length(x))
        if -8 <= cst <= -1 and len(p) > 1:
            pass
        return f(j)
    i, j = z3.Ints('psi psj')
    c.assume(f(z3.IntVal(0)) == 0)
    nn = lift(n)
    if z3.is_const(nn):
        c.assume(z3.Implies(nn >= 1, f(nn) == f(nn - 1) + lift(length(norm(nn - 1)))))
    c.assume(z3.Implies(nn >= 0, f(nn) >= 0) if z3.simplify(L >= 0) is not None else True)
    li = lift(length(i))
    nonneg = c.proves(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn), li >= 0)))
    if nonneg:
        c.assume(c.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= nn), f(i) + li <= f(j)), [z3.MultiPattern(f(i), f(j))]))
        c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i <= nn), z3.And(f(i) >= 0, f(i) <= f(nn))), [f(i)]))
    S.fun = f
    S.decl = f(k).decl()
    S.length = length
    S.n = n
    c.cache[key] = S
    return S


def flatten(rows):
    """concatenation of the sequences rows.get(i)"""
    c = ctx()
    if rows.lst is not None:
        return concat([seq_of(r) for r in rows.lst])
    if rows.parts is not None:
        return concat([flatten(p) for p in rows.parts])
    k = z3.Int('canon!fl')
    ln = lambda i: seq_of(rows.get(i)).n
    L = ln(k)
    if not is_term(L) or 'canon!fl' not in consts_of(L):
        if isinstance(L, int) and L == 0:
            return SSeq(lst=[])

        def get(p):
            q, r = divmod_sym(p, L)
            return seq_of(rows.get(q)).get(r)
        s = SSeq(norm(lift(rows.n) * lift(L)), get)
        s.ghost['rows'] = (rows, L)
        return s
    n = rows.n
    S = prefix_sum(ln, n)
    key = ('rowof', ckey(S.fun(k)))
    if key not in c.cache:
        ro = c.fresh_fun('rowof', z3.IntSort(), z3.IntSort())
        p = z3.Int('rop')
        c.assume(c.forall([p], z3.Implies(z3.And(0 <= p, p < lift(S(n))), z3.And(0 <= ro(p), ro(p) < lift(n), S.fun(ro(p)) <= p,
                          p < S.fun(ro(p)) + lift(ln(ro(p))))), [ro(p)]))
        c.cache[key] = ro
    ro = c.cache[key]

    def get(p):
        p = norm(p)
        if is_term(p):
            pp, at = poly(p)
            for kk, co in pp.items():
                if len(kk) == 1 and co == 1 and z3.is_app(at[kk[0]]) and at[kk[0]].decl().eq(S.decl):
                    i = at[kk[0]].children()[-1]
                    r = norm(p - S.fun(i))
                    if c.proves(z3.And(lift(r) >= 0, lift(r) < lift(ln(i)), i >= 0, i < lift(n))):
                        return seq_of(rows.get(i)).get(r)
        i = ro(p)
        return seq_of(rows.get(i)).get(norm(lift(p) - S.fun(i)))
    s = SSeq(S(n), get)
    s.ghost['ragged'] = (rows, S, ro)
    return s


def offset_terms(cc, k):
    """applications f(.., k - off, ..) in the condition, one for each off: [(off, i -> f(.., i, ..))]"""
    out, seen, stack = {}, set(), [cc]
    kn = k.decl().name()
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
        if t.decl().kind() != z3.Z3_OP_UNINTERPRETED or not t.num_args():
            continue
        dep = [j for j, a in enumerate(t.children()) if kn in consts_of(a)]
        if len(dep) != 1:
            continue
        a = t.children()[dep[0]]
        if not z3.is_int(a):
            continue
        off = norm(k - a)
        if a.eq(k) or kn in consts_of(lift(off)):
            continue
        key = str(off)
        if key not in out:
            out[key] = (off, lambda i, t=t, j=dep[0]: t.decl()(*[i if q == j else x for q, x in enumerate(t.children())]))
    return list(out.values())


def filter_ghost(cond, n):
    """positions 0 <= i < n with cond(i), increasing: (pos, m)"""
    c = ctx()
    k = z3.Int('canon!flt')
    cc = lift(cond(k))
    key = ('filter', ckey(cc), ckey(lift(n)))
    if key in c.cache:
        return c.cache[key]
    I = z3.IntSort()
    m = c.fresh('fm')
    pos, rank = c.fresh_fun('fpos', I, I), c.fresh_fun('frank', I, I)
    i, j = z3.Ints('fi fj')
    nn = lift(n)
    c.define(z3.And(m >= 0, z3.Implies(nn >= 0, m <= nn)))
    c.define(c.forall([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= pos(i), pos(i) < nn, lift(cond(pos(i))), rank(pos(i)) == i)), [pos(i)]))
    c.define(c.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), pos(i) < pos(j)), [z3.MultiPattern(pos(i), pos(j))]))
    c.define(c.forall([i], z3.Implies(z3.And(0 <= i, i < nn, lift(cond(i))), z3.And(0 <= rank(i), rank(i) < m, pos(rank(i)) == i)), [rank(i)]))
    pt = pattern_of([cc], k)
    if pt:
        # condition terms of the source also give their rank
        p2 = [z3.substitute(t, (k, i)) for t in pt]
        c.define(c.forall([i], z3.Implies(z3.And(0 <= i, i < nn, lift(cond(i))), z3.And(0 <= rank(i), rank(i) < m, pos(rank(i)) == i)), p2))
    for off, t in offset_terms(cc, k):
        # same, for conditions on items of concatenated sources: t(i - off)
        x = norm(i + off)
        b = z3.simplify(z3.substitute(z3.And(0 <= k, k < nn, cc), (k, lift(x))))
        c.define(c.forall([i], z3.Implies(b, z3.And(0 <= rank(x), rank(x) < m, pos(rank(x)) == x)), [t(i)]))
    c.cache[key] = (pos, m)
    if not c.dry:
        c.ghosts.append(('filter', pos, rank, m, nn))
    c.cache[('rank', ckey(pos(k)))] = rank
    pos_rank[id(m)] = (m, rank)
    return pos, m


pos_rank = {}


def few_planes(n):
    """other numbers of positions than the one the contract wants are outside its bound"""
    c = ctx()
    if c.cache.get('few positions') is not None and is_term(n) and not c.generics:
        from .verify import Done
        raise Done()


def lex_lt(a, b, strict=True):
    """order of two values"""
    if isinstance(a, (tuple,)) and isinstance(b, tuple):
        if not a or not b:
            return (len(a) < len(b)) if strict else len(a) <= len(b)
        e = eq(a[0], b[0])
        rest = (lambda: lex_lt(a[1:], b[1:], strict))
        l = lex_lt(a[0], b[0], True)
        if e is False:
            return l
        return or_(l, and_(e, rest()))
    if isinstance(a, SList) or isinstance(b, SList):
        sa, sb = seq_of(a), seq_of(b)
        if sa.lst is not None and sb.lst is not None:
            return lex_lt(tuple(sa.lst), tuple(sb.lst), strict)
        raise Unsupported('order of sequences of symbolic length')
    isb = lambda x: is_term(x) and z3.is_bool(x)
    if (is_num(a) or isb(a) or isinstance(a, bool)) and (is_num(b) or isb(b) or isinstance(b, bool)) and (has_term(a) or has_term(b)):
        a, b = [z3.If(x, 1, 0) if isb(x) else int(x) if isinstance(x, bool) else x for x in (a, b)]
    if is_num(a) and is_num(b):
        x, y = num(a), num(b)
        return simp(x < y) if strict else simp(x <= y)
    if not has_term(a) and not has_term(b):
        return a < b if strict else a <= b
    raise Unsupported(f'order of {type(a).__name__}')


def num(x):
    if isinstance(x, bool):
        return int(x)
    if is_term(x) and z3.is_bool(x):
        return z3.If(x, 1, 0)
    return x


def sort_network(items, lt):
    """sorted list of a few symbolic values"""
    items = list(items)
    n = len(items)
    if n > 8:
        raise Unsupported('sort of many symbolic values')
    if n > 2 and any(is_term(x) for x in items) and all(is_int(x) for x in items):
        # only their being functions of the items and independent of their order is used
        return [z3.Function(f'sorted{n}_{j}', *([z3.IntSort()] * (n + 1)))(*[lift(x) for x in items]) for j in range(n)]
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = items[j], items[j + 1]
            c = lt(b, a)
            items[j], items[j + 1] = ite(c, b, a), ite(c, a, b)
    return items


def named(s, force=False):
    """the same sequence, each number of the items of a concatenation being given one element function"""
    if s.parts is None and not force or s.lst is not None or ctx().generics:
        return s
    x = s.get(z3.Int('canon!nm'))
    if not nameable(x):
        return s
    fs = names_of(s, x, lambda y: y)
    return s if fs is None else SSeq(s.n, fs)


def nameable(x):
    if isinstance(x, (tuple, SList)):
        q = x if isinstance(x, tuple) else x._seq.lst
        return q is not None and all(nameable(y) for y in q)
    return is_term(x) and (z3.is_int(x) or z3.is_real(x)) or isinstance(x, (int, float, str)) or x is None


def names_of(s, x, path):
    """i -> item, with the component path(item) (whose generic value is x) named"""
    if isinstance(x, tuple):
        sub = [names_of(s, y, lambda e, j=j: path(e)[j]) for j, y in enumerate(x)]
        return lambda i: tuple(f(i) for f in sub)
    if isinstance(x, SList):
        sub = [names_of(s, y, lambda e, j=j: seq_of(path(e)).get(j)) for j, y in enumerate(x._seq.lst)]
        return lambda i: SList(SSeq(lst=[f(i) for f in sub]))
    if not is_term(x):
        return lambda i: x
    c = ctx()
    key = ('named', ckey(x), ckey(lift(s.n)))
    if key not in c.cache:
        f = c.fresh_fun('cat', z3.IntSort(), x.sort())
        i = z3.Int('nmi')
        c.define(c.forall([i], z3.Implies(z3.And(0 <= i, i < lift(s.n)), f(i) == lift(path(s.get(i)))), [f(i)]), heavy=True)
        for off, p in s.segments():
            if p.lst is not None:
                for j, e in enumerate(p.lst):
                    c.define(f(lift(off) + j) == lift(path(e)), heavy=True)
                continue
            y = lift(path(p.get(i)))
            pt = pattern_of(y, i)
            c.define(c.forall([i], z3.Implies(z3.And(0 <= i, i < lift(p.n)), f(lift(off) + i) == y), pt), heavy=True)
        c.cache[key] = f
    f = c.cache[key]
    return lambda i: f(i)


def sorted_seq(it, s, key=None, reverse=False):
    if key is None:
        s = named(s)
    kf = (lambda x: it.call_value(key, [x], {})) if key is not None else (lambda x: x)
    if s.lst is not None:
        if not any(has_term(x) or isinstance(x, Inst) for x in s.lst) and key is None:
            try:
                return SSeq(lst=sorted((it.to_native(x) for x in s.lst), reverse=reverse))
            except TypeError as e:
                raise PyRaise(e)
        ks = [kf(x) for x in s.lst]
        if not any(has_term(x) for x in ks):
            order = sorted(range(len(ks)), key=lambda i: it.to_native(ks[i]), reverse=reverse)
            return SSeq(lst=[s.lst[i] for i in order])
        if len(s.lst) == 1:
            return s
        if (key is not None or any(isinstance(x, (tuple, SList)) for x in s.lst)) and not reverse:
            if ctx().generics or len(s.lst) > 6:
                raise Unsupported('sort with key of symbolic values')
            done = []     # insertion sort, the order of each pair of keys being decided by path
            for x, k in zip(s.lst, ks):
                j = len(done)
                while j and it.truth(lex_lt(k, done[j - 1][1])):
                    j -= 1
                done.insert(j, (x, k))
            return SSeq(lst=[x for x, _ in done])
        if reverse:
            raise Unsupported('reverse sort of symbolic values')
        return SSeq(lst=sort_network(s.lst, lambda a, b: lex_lt(a, b)))
    if reverse:
        raise Unsupported('reverse sort of a symbolic sequence')
    sig, inv = sort_perm(lambda i: kf(s.get(i)), s.n)
    out = SSeq(s.n, lambda i: s.get(sig(i)))
    out.ghost['perm'] = (sig, inv)
    return out


def first_of(x):
    return first_of(x[0]) if isinstance(x, tuple) else x


def is_permutation(f, n):
    """are f(0), .. f(n-1) distinct integers of [0, n)"""
    c = ctx()
    k = z3.Int('canon!pe')
    key = ('perm', ckey(lift(f(k))), ckey(lift(n)), len(c.facts))
    if key not in c.cache:
        a, b = z3.Ints('sa sb')
        n = lift(n)
        inr = z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(0 <= lift(f(a)), lift(f(a)) < n)))
        dis = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), lift(f(a)) != lift(f(b))))
        c.cache[key] = c.constrained(f(k)) and c.proves(inr, 1000) and c.proves(dis, 3000)
    return c.cache[key]


def sort_perm(keyof, n):
    """stable sorting permutation sig (position in result -> position in source) and inverse"""
    c = ctx()
    k = z3.Int('canon!so')
    f = first_of(keyof(k))
    if not is_num(f):
        raise Unsupported(f'sort of {type(f).__name__}')
    key = ('sort', ckey(lift(f)), ckey(lift(n)), not isinstance(keyof(k), tuple))
    if key in c.cache:
        return c.cache[key]
    I = z3.IntSort()
    sig, inv = c.fresh_fun('sig', I, I), c.fresh_fun('sinv', I, I)
    i, j = z3.Ints('si sj')
    nn = lift(n)
    c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= sig(i), sig(i) < nn, inv(sig(i)) == i)), [sig(i)]))
    c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= inv(i), inv(i) < nn, sig(inv(i)) == i)), [inv(i)]))
    kk = lambda i: lift(first_of(keyof(i)))
    scalar = not isinstance(keyof(k), tuple)
    c.assume(c.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nn), kk(sig(i)) <= kk(sig(j))), [z3.MultiPattern(sig(i), sig(j))]))
    pt = pattern_of([kk(k)], k)
    if pt:
        # every source position has an image in the sorted sequence
        p2 = [z3.substitute(t, (k, i)) for t in pt]
        c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(0 <= inv(i), inv(i) < nn, sig(inv(i)) == i)), p2))
    if scalar:
        c.assume(c.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nn, kk(sig(i)) == kk(sig(j))), sig(i) < sig(j)),
                          [z3.MultiPattern(sig(i), sig(j))]))
    # lemma (pigeonhole): n distinct integers of [0, n) in increasing order are 0 .. n-1
    a, b = z3.Ints('sa sb')
    if kk(k).is_int() if z3.is_arith(kk(k)) else False:
        if is_permutation(kk, nn):
            c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < nn), kk(sig(i)) == i), [sig(i)]))
            c.assume(c.forall([a], z3.Implies(z3.And(0 <= a, a < nn), inv(a) == kk(a)), [inv(a)]))
            c.assumptions.add('lemma: n distinct integers of [0, n) sorted increasingly are 0..n-1 (pigeonhole)')
    c.cache[key] = (sig, inv)
    return sig, inv


# =============================================================== dictionaries with symbolic keys
class PairMap:
    """dict(zip(keys, values)): the last pair of a key wins"""

    def __init__(self, pairs):
        self.pairs = pairs
        self._pos = None
        self.born = {g.ident for g in ctx().generics}

    def key_at(self, i):
        return self.pairs.get(i)[0]

    def pos(self):
        """ghost: key -> position"""
        if self._pos is None:
            c = ctx()
            # the dictionary does not depend on the iterations it is external to
            saved, c.generics = c.generics, [g for g in c.generics if g.ident in self.born]
            try:
                r = self.define(c)
            finally:
                c.generics = saved
            if c.dry:
                return r
            self._pos = r
        return self._pos

    def define(self, c):
        n = lift(self.pairs.n)
        k0 = self.key_at(z3.Int('canon!pm'))
        sorts = [lift(x).sort() for x in k0] if isinstance(k0, tuple) else [lift(k0).sort()]
        P = c.fresh_fun('dpos', *sorts, z3.IntSort())
        has = c.fresh_fun('dhas', *sorts, z3.BoolSort())
        tup = lambda k: [lift(x) for x in k] if isinstance(k, tuple) else [lift(k)]
        i, x = z3.Int('pmi'), z3.Int('pmk')
        if len(self.pairs.segments()) == 1 and len(sorts) == 1 and sorts[0] == z3.IntSort() and not isinstance(k0, tuple):
            shift = norm(lift(self.key_at(i)) - i)
            if not is_term(shift) or 'pmi' not in consts_of(shift):      # keys a, a + 1, ..
                return (lambda k: norm(lift(k) - shift)), (lambda k: simp(z3.And(lift(shift) <= lift(k), lift(k) < shift + n)))
        for off, p in self.pairs.segments():
            ki = tup(p.get(i)[0])
            shift = norm(ki[0] - i) if len(ki) == 1 and ki[0].sort() == z3.IntSort() else i
            if not is_term(shift) or 'pmi' not in consts_of(shift):      # keys a, a + 1, ..
                c.define(c.forall([x], z3.Implies(z3.And(lift(shift) <= x, x < lift(shift) + lift(p.n)),
                                                  z3.And(has(x), lift(off) + x - lift(shift) <= P(x))), [has(x)]))
                c.define(c.forall([x], z3.Implies(z3.And(lift(shift) <= x, x < lift(shift) + lift(p.n)),
                                                  z3.And(has(x), lift(off) + x - lift(shift) <= P(x))), [P(x)]))
                continue
            c.define(c.forall([i], z3.Implies(z3.And(0 <= i, i < lift(p.n)), z3.And(has(*ki), lift(off) + i <= P(*ki))), pattern_of(ki, i)))
        xs = [z3.Const(f'pmx{j}', s) for j, s in enumerate(sorts)]
        kp = tup(self.key_at(P(*xs)))
        c.define(c.forall(xs, z3.Implies(has(*xs), z3.And(0 <= P(*xs), P(*xs) < n, *[a == b for a, b in zip(kp, xs)])),
                          [P(*xs), has(*xs)]))
        return (lambda k: P(*tup(k))), (lambda k: has(*tup(k)))

    def keys(self):
        c = ctx()
        i, j = z3.Ints('pma pmb')
        a, b = group_of(self.key_at(i)), group_of(self.key_at(j))
        if a and b and a[0].g is b[0].g:
            # keys of two groups: distinct groups
            dist = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < lift(self.pairs.n)), a[1] != b[1]))
            if c.proves(dist):
                return self.pairs.map(lambda p: p[0])
        if not c.proves(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < lift(self.pairs.n)),
                                                     z3.Not(lift(eq(self.key_at(i), self.key_at(j)))))), 4000):
            raise Unsupported('keys of a dict built from possibly repeated keys')
        return self.pairs.map(lambda p: p[0])

    def items(self):
        self.keys()
        return self.pairs

    def values(self):
        self.keys()
        return self.pairs.map(lambda p: p[1])

    def has(self, k):
        return self.pos()[1](k)

    def get(self, k):
        return self.pairs.get(self.pos()[0](k))[1]


def make_dict(it, pairs):
    """dict of a sequence of pairs"""
    if pairs.lst is not None:
        ps = []
        for p in pairs.lst:
            s = seq_of(p)
            if s.lst is None or len(s.lst) != 2:
                raise Unsupported('dict of non pairs')
            ps.append(tuple(s.lst))
        if not any(has_term(k) for k, _ in ps):
            return SDict({key(k): v for k, v in ps})
    d = SDict()
    d.map = PairMap(SSeq(lst=[tuple(seq_of(p).lst) for p in pairs.lst]) if pairs.lst is not None
                    else pairs.map(lambda p: p if isinstance(p, tuple) else tuple(seq_of(p).lst)))
    return d


def key(k):
    if isinstance(k, SList) or isinstance(k, SArr) or isinstance(k, SDict):
        raise PyRaise(TypeError('unhashable type'))
    if is_term(k):
        s = simp(k)
        if is_term(s):
            raise Unsupported('symbolic key')
        return s
    if isinstance(k, SSeq):
        raise Unsupported('symbolic key')
    if isinstance(k, tuple):
        return tuple(key(x) for x in k)
    if isinstance(k, OpaqueStr):
        raise Unsupported('unmodelled text as key')
    return k


def symbolic_key(k):
    return has_term(k)


def concrete_items(it, o):
    if isinstance(o, SDict):
        if o.map is not None:
            raise Unsupported('expansion of a symbolic dict')
        o.touch()
        return dict(o.d)
    if isinstance(o, dict):
        return dict(o)
    raise Unsupported(f'expansion of {type(o).__name__}')


class DictView:
    """keys / items / values of an SDict (live)"""

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __seq__(self):
        d = self.d
        if d.map is not None:
            d.touch()
            return getattr(d.map, self.kind)()
        d.touch()
        return SSeq(lst=list(getattr(d.d, self.kind)()))

    def sv_getattr(self, it, name):
        raise Unsupported(f'dict view .{name}')

    def sv_truth(self, it):
        s = self.__seq__()
        return simp(lift(s.n) > 0)


def dict_has(d, k):
    if isinstance(d, dict):
        if symbolic_key(k):
            return or_(*[eq(k, x) for x in d])
        return k in d
    d.touch()
    if d.map is not None:
        return d.map.has(k)
    if symbolic_key(k):
        return or_(*[eq(k, x) for x in d.d])
    return key(k) in d.d


def dict_get(it, d, k, default=None, missing='raise'):
    c = ctx()
    if isinstance(d, SDict):
        d.touch()
        if d.map is not None:
            if missing == 'raise' and d.default is builtins.list and isinstance(d.map, GroupMap) and d.map.alive is None and d.map.g is None:
                return GroupHandle(d, k)     # still being filled
            h = d.map.has(k)
            if missing == 'raise':
                c.must(h, KeyError('symbolic key'))
                return d.map.get(k)
            if c.branch(h):
                return d.map.get(k)
            return default
        if d.default is not None and missing == 'raise' and not (not symbolic_key(k) and key(k) in d.d):
            if symbolic_key(k):
                return it.models.default_symbolic(it, d, k)
            if d.outer() is not None:
                raise Unsupported('new default entry in a loop of symbolic length')
            v = it.call_value(d.default, [], {})
            d.d[key(k)] = v
            return v
        table = d.d
    else:
        table = d
    if not symbolic_key(k):
        kk = key(k)
        try:
            if kk in table:
                return table[kk]
        except TypeError as e:
            raise PyRaise(e)
        if missing == 'raise':
            c.must(False, KeyError(kk))
            raise PyRaise(KeyError(kk))
        return default
    opts = [x for x in table if eq(k, x) is not False]
    if c.depends_generic(k if is_term(k) else lift(0)):
        c.must(or_(*[eq(k, x) for x in opts]), KeyError('symbolic key'))
        r = table[opts[-1]]
        for x in reversed(opts[:-1]):
            r = ite(eq(k, x), table[x], r)
        return r
    i = c.decide([(str(x), lift(eq(k, x))) for x in opts] + [('absent', lift(not_(or_(*[eq(k, x) for x in opts]))))])
    if i < len(opts):
        return table[opts[i]]
    if missing == 'raise':
        raise PyRaise(KeyError('symbolic key'))
    return default


def default_symbolic(it, d, k):
    """defaultdict(list)[symbolic key]: handle that can only be appended to"""
    if d.d:
        raise Unsupported('mixed concrete and symbolic keys')
    return GroupHandle(d, k)


class GroupHandle:
    def __init__(self, d, k):
        self.d, self.k = d, k

    def sv_getattr(self, it, name):
        if name == 'append':
            def app(x):
                if not self.d.effect('group', self.k, x):
                    group_append(self.d, SSeq(lst=[(self.k, x)]))
            return Model(app)
        raise Unsupported(f'default entry .{name}')


def group_append(d, pairs):
    if d.map is None:
        d.map = GroupMap(pairs)
    elif isinstance(d.map, GroupMap) and d.map.alive is None:
        d.map = GroupMap(concat([d.map.pairs, pairs]))
    else:
        raise Unsupported('grouping after removal')


def group_of(k):
    """(groups, g) if the key is written as the key of the group g"""
    ks = [lift(x) for x in k] if isinstance(k, tuple) else [lift(k)]
    stack, seen = [ks[0]], set()
    while stack:
        t = stack.pop()
        if not z3.is_app(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        gm = ctx().cache.get(('items', t.decl().name())) if t.num_args() == 2 else None
        if gm is not None and conc(t.arg(1)) == 0:
            gk = gm.keyterms(gm.group_key(t.arg(0)))
            if len(gk) == len(ks) and all(x.eq(y) for x, y in zip(gk, ks)):
                return gm, t.arg(0)
        stack.extend(t.children())
    return None


class GroupMap:
    """defaultdict(list) filled by d[key].append(value): groups in order of first appearance, items in order"""

    def __init__(self, pairs, alive=None):
        self.pairs, self.alive = pairs, alive
        self.g = None
        self.born = {g.ident for g in ctx().generics}

    def keyterms(self, k):
        return [lift(x) for x in k] if isinstance(k, tuple) else [lift(k)]

    def ghost(self):
        if self.g is None and ctx().generics:
            c = ctx()
            born = [g for g in c.generics if g.ident in self.born]
            if len(born) < len(c.generics) and not born:
                saved, c.generics = c.generics, born
                try:
                    r = self.ghost()
                    if c.dry:
                        self.g = None
                    return r
                finally:
                    c.generics = saved
        if self.g is None:
            c = ctx()
            I = z3.IntSort()
            self.pairs = named(self.pairs, True)
            n = lift(self.pairs.n)
            K = lambda p: self.keyterms(self.pairs.get(p)[0])
            ng = c.fresh('ng')
            grp, rank = c.fresh_fun('grp', I, I), c.fresh_fun('grank', I, I)
            cnt, item = c.fresh_fun('gcnt', I, I), c.fresh_fun('gitem', I, I, I)
            p, q, g, h, j = z3.Ints('gp gq gg gh gj')
            rng = lambda x, m: z3.And(0 <= x, x < m)
            c.assume(z3.And(ng >= 0, ng <= n, z3.Implies(n > 0, ng > 0)))
            k0 = K(p)[0]
            plain = [k0] if z3.is_app(k0) and k0.num_args() == 1 and k0.arg(0).eq(p) else []
            c.assume(c.forall([p], z3.Implies(rng(p, n), z3.And(rng(grp(p), ng), rng(rank(p), cnt(grp(p))), item(grp(p), rank(p)) == p)), [grp(p)] + plain))
            c.assume(c.forall([g, j], z3.Implies(z3.And(rng(g, ng), rng(j, cnt(g))), z3.And(rng(item(g, j), n), grp(item(g, j)) == g,
                              rank(item(g, j)) == j)), [item(g, j)]))
            c.assume(c.forall([g], z3.Implies(rng(g, ng), z3.And(cnt(g) >= 1, rng(item(g, 0), n), grp(item(g, 0)) == g)), [cnt(g)]))
            c.assume(c.forall([g, h, j], z3.Implies(z3.And(rng(g, ng), 0 <= h, h < j, j < cnt(g)), item(g, h) < item(g, j)),
                              [z3.MultiPattern(item(g, h), item(g, j))]))
            c.assume(c.forall([g, h], z3.Implies(z3.And(0 <= g, g < h, h < ng), item(g, 0) < item(h, 0)),
                              [z3.MultiPattern(item(g, 0), item(h, 0))]))
            same = z3.And(*[a == b for a, b in zip(K(p), K(q))])
            c.assume(c.forall([p, q], z3.Implies(z3.And(rng(p, n), rng(q, n)), same == (grp(p) == grp(q))),
                              [z3.MultiPattern(grp(p), grp(q))]))
            for m in (1, 2):
                # the first items of a group exist as terms
                c.define(c.forall([g], z3.Implies(z3.And(rng(g, ng), cnt(g) > m), z3.And(rng(item(g, m), n), grp(item(g, m)) == g, rank(item(g, m)) == m)), [cnt(g)]), heavy=m > 1)
                # at most m items in each group: n <= m * ng
                c.define(z3.Implies(z3.ForAll([g], z3.Implies(rng(g, ng), cnt(g) <= m)), n <= m * ng), heavy=True)
            if not c.dry:
                c.ghosts.append(('group', self, grp, item, cnt, rank))
            c.assumptions.add('cardinality: a sequence grouped into ng groups of at most m items has at most m * ng items')
            self.g = dict(ng=ng, grp=grp, rank=rank, cnt=cnt, item=item, K=K, n=n)
            if not c.generics:
                c.cache[('items', item(p, 0).decl().name())] = self
        return self.g

    def group_key(self, g):
        G = self.ghost()
        return self.pairs.get(G['item'](g, 0))[0]

    def group_items(self, g):
        G = self.ghost()
        return SSeq(G['cnt'](g), lambda j: self.pairs.get(G['item'](g, j))[1])

    def index(self):
        """sequence of the groups still present"""
        G = self.ghost()
        if self.alive is None:
            return SSeq(G['ng'], lambda g: g)
        pos, m = filter_ghost(self.alive, G['ng'])
        return SSeq(m, lambda i: pos(i))

    def keys(self):
        return self.index().map(self.group_key)

    def values(self):
        return self.index().map(lambda g: SList(self.group_items(g)))

    def items(self):
        return self.index().map(lambda g: (self.group_key(g), SList(self.group_items(g))))

    def lookup(self):
        """ghost: key -> group, presence"""
        c = ctx()
        G = self.ghost()
        if 'look' not in G:
            sorts = [x.sort() for x in self.keyterms(self.pairs.get(z3.Int('canon!gm'))[0])]
            gof, has = c.fresh_fun('gof', *sorts, z3.IntSort()), c.fresh_fun('ghas', *sorts, z3.BoolSort())
            g = z3.Int('glg')
            kg = self.keyterms(self.group_key(g))
            c.assume(c.forall([g], z3.Implies(z3.And(0 <= g, g < G['ng']), z3.And(has(*kg), gof(*kg) == g)), [G['item'](g, 0)]))
            xs = [z3.Const(f'glx{j}', s) for j, s in enumerate(sorts)]
            kp = self.keyterms(self.group_key(gof(*xs)))
            c.assume(c.forall(xs, z3.Implies(has(*xs), z3.And(0 <= gof(*xs), gof(*xs) < G['ng'], *[a == b for a, b in zip(kp, xs)])), [gof(*xs), has(*xs)]))
            G['look'] = gof, has
        return G['look']

    def find(self, k):
        """(group of the key, the key is there)"""
        r = group_of(k)
        if r is not None and r[0].g is self.g:
            return r[1], and_(0 <= r[1], r[1] < self.g['ng'])
        gof, has = self.lookup()
        ks = self.keyterms(k)
        return gof(*ks), has(*ks)

    def has(self, k):
        g, t = self.find(k)
        return and_(t, self.alive(g)) if self.alive is not None else t

    def get(self, k):
        return SList(self.group_items(self.find(k)[0]))

    def remove_many(self, it, popkey, n):
        """dict.pop(popkey(k)) for every k < n"""
        c = ctx()
        self.ghost()
        k = z3.Int('rmk')
        alive = self.alive or (lambda g: True)
        popped, wit = c.fresh_fun('popped', z3.IntSort(), z3.BoolSort()), c.fresh_fun('popw', z3.IntSort(), z3.IntSort())
        i, j = z3.Ints('rmi rmj')
        ok = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(n)), lift(self.has(popkey(i)))))
        c.must(ok, KeyError('pop'))
        gk = lambda q: self.find(popkey(q))[0]
        dis = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < lift(n)), gk(i) != gk(j)))
        c.must(dis, KeyError('pop twice'))
        c.assume(c.forall([k], z3.Implies(z3.And(0 <= k, k < lift(n)), popped(gk(k))), pattern_of(gk(k), k)))
        g = z3.Int('rmg')
        c.assume(c.forall([g], z3.Implies(popped(g), z3.And(0 <= wit(g), wit(g) < lift(n), gk(wit(g)) == g)), [popped(g), self.g['cnt'](g)]))
        new = GroupMap(self.pairs, lambda g: and_(alive(g), z3.Not(popped(g))))
        new.g = self.g
        return new


# =============================================================== iteration
def iterate(it, v):
    if isinstance(v, StarArgs):
        return v.seq
    if isinstance(v, Inst):
        f = it.getattr(v, '__iter__') if hasattr(v.cls, '__iter__') else None
        if f is not None:
            return iterate(it, it.call_value(f, [], {}))
        if hasattr(v.cls, 'keys') or hasattr(v.cls, '__getitem__'):
            raise Unsupported('iteration by __getitem__')
        raise PyRaise(TypeError(f'{v.cls.__name__} object is not iterable'))
    if hasattr(v, 'sv_iter'):
        return v.sv_iter(it)
    if isinstance(v, (int, float)) or v is None or is_term(v):
        raise PyRaise(TypeError(f'{type(v).__name__} object is not iterable'))
    if hasattr(v, '__seq__'):
        return v.__seq__()
    s = seq_of(v)
    if s.lst is not None and any(isinstance(x, (np.generic, np.ndarray)) for x in s.lst):
        s = SSeq(lst=[it.from_native(x) for x in s.lst])
    return s


# =============================================================== operators
OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
       'Mod': operator.mod, 'Pow': operator.pow, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
       'LShift': operator.lshift, 'RShift': operator.rshift, 'MatMult': operator.matmul}


def scalar_op(op, a, b):
    """arithmetic on scalars (python or terms)"""
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if not is_term(a) and not is_term(b):
        try:
            return OPS[op](a, b)
        except Exception as e:
            raise PyRaise(e)
    c = ctx()
    a0, b0 = a, b
    if is_bool(a) and is_bool(b) and op in ('BitAnd', 'BitOr', 'BitXor'):
        return {'BitAnd': and_, 'BitOr': or_}[op](a, b) if op != 'BitXor' else simp(z3.Xor(lift(a), lift(b)))
    a, b = num(a), num(b)
    if not (is_num(a) and is_num(b)):
        raise Unsupported(f'{op} of {type(a).__name__} and {type(b).__name__}')
    ta, tb = lift(a), lift(b)
    if op in ('Add', 'Sub', 'Mult'):
        if ta.is_int() and tb.is_int():
            return norm({'Add': ta + tb, 'Sub': ta - tb, 'Mult': ta * tb}[op])
        ta, tb = to_real(ta), to_real(tb)
        return simp({'Add': ta + tb, 'Sub': ta - tb, 'Mult': ta * tb}[op])
    if op == 'Div':
        ta, tb = to_real(ta), to_real(tb)
        c.must(tb != 0, ZeroDivisionError('division by zero'))
        return simp(ta / tb)
    if op in ('FloorDiv', 'Mod'):
        if not (ta.is_int() and tb.is_int()):
            raise Unsupported('floor division of reals')
        c.must(tb != 0, ZeroDivisionError('integer division by zero'))
        if not c.proves(tb > 0):
            raise Unsupported('floor division by a possibly negative number')
        q, r = divmod_sym(a, b)
        return q if op == 'FloorDiv' else r
    if op == 'Pow':
        e = conc(b)
        if e is not None and 0 <= e <= 6:
            r = 1
            for _ in range(e):
                r = scalar_op('Mult', r, a)
            return r
        return power(ta, tb)
    raise Unsupported(f'{op} of symbolic numbers')


def power(a, b):
    R = z3.RealSort()
    return z3.Function('pow', R, R, R)(to_real(lift(a)), to_real(lift(b)))


def binop(it, op, a, b):
    if hasattr(a, 'sv_binop'):
        r = a.sv_binop(it, op, b, False)
        if r is not NotImplemented:
            return r
    if hasattr(b, 'sv_binop'):
        r = b.sv_binop(it, op, a, True)
        if r is not NotImplemented:
            return r
    if isinstance(a, np.ndarray):
        a = it.from_native(a)
    if isinstance(b, np.ndarray):
        b = it.from_native(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return it.models.arr_binop(it, op, a, b)
    if isinstance(a, Inst) or isinstance(b, Inst):
        nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv'}.get(op)
        if isinstance(a, Inst) and hasattr(a.cls, f'__{nm}__'):
            return it.call_value(it.getattr(a, f'__{nm}__'), [b], {})
        if isinstance(b, Inst) and hasattr(b.cls, f'__r{nm}__'):
            return it.call_value(it.getattr(b, f'__r{nm}__'), [a], {})
        raise PyRaise(TypeError(f'unsupported operand types for {op}'))
    if isinstance(a, (SList, list)) or isinstance(b, (SList, list)):
        if op == 'Add' and isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
            return SList(concat([seq_of(a), seq_of(b)]))
        if op == 'Mult':
            l, n = (a, b) if isinstance(a, (SList, list)) else (b, a)
            return SList(repeat(seq_of(l), n))
        raise PyRaise(TypeError(f'unsupported operand types for {op}'))
    ta, tb = isinstance(a, (tuple, SSeq)), isinstance(b, (tuple, SSeq))
    if ta or tb:
        if op == 'Add' and ta and tb:
            s = concat([seq_of(a), seq_of(b)])
            return tuple(s.lst) if s.lst is not None else s
        if op == 'Mult':
            l, n = (a, b) if ta else (b, a)
            s = repeat(seq_of(l), n)
            return tuple(s.lst) if s.lst is not None else s
        if not (op == 'Mod' and isinstance(a, str)):
            raise PyRaise(TypeError(f'unsupported operand types for {op}'))
    if isinstance(a, SSet) or isinstance(b, SSet) or isinstance(a, (set, frozenset)):
        return set_op(it, op, a, b)
    if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
        return OpaqueStr()
    if op == 'Add' and is_text(a) and is_text(b) and (is_term(a) or is_term(b)):
        return text_cat(a, b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        try:
            na, nb = it.to_native(a), it.to_native(b)
        except Exception:
            return packing_format(op, a, b) or OpaqueStr()
        try:
            return OPS[op](na, nb)
        except Exception as e:
            raise PyRaise(e)
    if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
        return scalar_op(op, a, b)
    if is_term(a) or is_term(b):
        raise Unsupported(f'{op} of {type(a).__name__} and {type(b).__name__}')
    if isinstance(a, (SObj, Poison)) or isinstance(b, (SObj, Poison)):
        raise Unsupported(f'{op} of {type(a).__name__} and {type(b).__name__}')
    try:
        return it.from_native(OPS[op](a, b))
    except Exception as e:
        raise PyRaise(e)


def packing_format(op, a, b):
    """texts of symbolic length which may be formats of binary data"""
    from . import bin_models as B
    if op == 'Mult':
        t, n = (a, b) if isinstance(a, str) else (b, a)
        if isinstance(t, str) and is_term(n) and n.is_int():
            return B.text_repeat(t, n)
    if op == 'Mod' and isinstance(a, str) and a.count('%') == 1 and a.count('%d') == 1:
        if isinstance(b, tuple) and len(b) == 1:
            b = b[0]
        if is_term(b) and b.is_int():
            return B.text_number(a, b)


def repeat(s, n):
    k = conc(n)
    if k is not None:
        return concat([s] * max(k, 0)) if k <= 64 or s.lst is None else SSeq(len(s.lst) * k, lambda i: s.get(divmod_sym(i, s.n)[1]))
    if s.lst is not None and len(s.lst) == 1:
        x = s.lst[0]
        return SSeq(ite(simp(lift(n) > 0), n, 0), lambda i: x)
    c = ctx()
    if not c.proves(lift(n) >= 0):
        raise Unsupported('repetition a possibly negative number of times')
    return SSeq(norm(lift(n) * lift(s.n)), lambda i: s.get(divmod_sym(i, s.n)[1]))


def as_set(v):
    if isinstance(v, SSet):
        return v
    if isinstance(v, (set, frozenset)):
        return SSet(SSeq(lst=list(v)))
    raise PyRaise(TypeError('set operation'))


def set_op(it, op, a, b):
    a, b = as_set(a), as_set(b)
    if op == 'BitOr':
        return SSet(concat([a._seq, b._seq]))
    if op not in ('Sub', 'BitAnd'):
        raise Unsupported(f'set {op}')
    keep = (lambda x: not_(b.member(x))) if op == 'Sub' else b.member
    s = a.enum()
    return SSet(filter_seq(s, keep))


def filter_seq(s, cond):
    parts = []
    for _, p in s.segments():
        if p.lst is not None:
            for x in p.lst:
                if ctx().branch(cond(x)):
                    parts.append(SSeq(lst=[x]))
        else:
            k = z3.Int('canon!fs')
            cc = cond(p.get(k))
            if cc is True:
                parts.append(p)
            elif cc is not False:
                pos, m = filter_ghost(lambda i, p=p: cond(p.get(i)), p.n)
                parts.append(SSeq(m, lambda i, p=p, pos=pos: p.get(pos(i))))
    return concat(parts)


def augop(it, op, a, b):
    if hasattr(a, 'sv_binop'):
        return binop(it, op, a, b)
    if isinstance(a, SList) and op == 'Add':
        a.extend(iterate(it, b))
        return a
    if isinstance(a, SArr):
        it.models.arr_augassign(it, op, a, b)
        return a
    if isinstance(a, SSet) and op == 'BitOr':
        a.update(iterate(it, b))
        return a
    return binop(it, op, a, b)


def compare(it, op, a, b):
    if op in ('Is', 'IsNot'):
        r = a is b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Maybe):
                r = not_(x.cond) if y is None else False
                return r if op == 'Is' else not_(r)
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            r = a is b
        elif is_term(a) or is_term(b):
            raise Unsupported('identity of symbolic values')
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        r = contains(it, b, a)
        return r if op == 'In' else not_(r)
    if hasattr(a, 'sv_compare'):
        r = a.sv_compare(it, op, b)
        if r is not NotImplemented:
            return r
    if hasattr(b, 'sv_compare') and op in ('Eq', 'NotEq'):
        r = b.sv_compare(it, op, a)
        if r is not NotImplemented:
            return r
    if isinstance(a, np.ndarray):
        a = it.from_native(a)
    if isinstance(b, np.ndarray):
        b = it.from_native(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return it.models.arr_compare(it, op, a, b)
    if isinstance(a, DictView):
        a = as_dictview(a)
    if isinstance(b, DictView):
        b = as_dictview(b)
    if isinstance(a, Inst) or isinstance(b, Inst):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst) and op in ('Eq', 'NotEq') and x.cls.__eq__ is not object.__eq__:
                r = it.truth_term(it.call_value(it.getattr(x, '__eq__'), [y], {}))
                return r if op == 'Eq' else not_(r)
        if op in ('Eq', 'NotEq'):
            return (a is b) if op == 'Eq' else (a is not b)
        raise PyRaise(TypeError('order of instances'))
    if op in ('Eq', 'NotEq'):
        r = value_eq(it, a, b)
        return r if op == 'Eq' else not_(r)
    if isinstance(a, SSet) or isinstance(b, SSet):
        raise Unsupported('set inclusion')
    f = {'Lt': lambda: lex_lt(a, b), 'LtE': lambda: lex_lt(a, b, False), 'Gt': lambda: lex_lt(b, a), 'GtE': lambda: lex_lt(b, a, False)}[op]
    try:
        return f()
    except TypeError as e:
        raise PyRaise(e)


def as_dictview(v):
    s = v.__seq__()
    return SSet(s) if v.kind == 'keys' else SList(s)


def value_eq(it, a, b):
    if isinstance(a, SSet) and isinstance(b, SSet):
        sa, sb = a._seq, b._seq
        if sa.lst is not None and sb.lst is not None:
            return and_(*[b.member(x) for x in sa.lst], *[a.member(x) for x in sb.lst])
        i = z3.Int(ctx().fresh_name('i'))
        return and_(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(sa.n)), lift(b.member(safe_get(sa, i))))),
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lift(sb.n)), lift(a.member(safe_get(sb, i))))))
    if isinstance(a, SDict) and isinstance(b, SDict):
        if a.map is None and b.map is None:
            a.touch(), b.touch()
            if a.d.keys() != b.d.keys():
                return False
            return and_(*[it.truth_term(compare(it, 'Eq', a.d[k], b.d[k])) for k in a.d])
    return eq(a, b)


def contains(it, c, x):
    if hasattr(c, 'sv_contains'):
        return c.sv_contains(it, x)
    if isinstance(c, DictView):
        if c.kind == 'keys':
            return dict_has(c.d, x)
        c = SList(c.__seq__())
    if isinstance(c, (SDict, dict)):
        return dict_has(c, x)
    if isinstance(c, type({}.keys())):
        return or_(*[eq(x, y) for y in c]) if has_term(x) else x in c
    if isinstance(c, (SSet, set, frozenset)):
        return as_set(c).member(x)
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        raise Unsupported('membership in text')
    if isinstance(c, Inst):
        if hasattr(c.cls, '__contains__'):
            return it.truth_term(it.call_value(it.getattr(c, '__contains__'), [x], {}))
        s = iterate(it, c)
    else:
        s = iterate(it, c)
    if isinstance(c, SArr) and c.ndim == 1 or not isinstance(c, SArr):
        if s.lst is None and isinstance(x, (SList, list, tuple)):
            return or_(*[it.truth_term(compare(it, 'Eq', x, y)) for _, p in s.segments() if p.lst is not None or not never_equal(it, p, x)
                         for y in (p.lst if p.lst is not None else unsup('membership in a symbolic list'))])
        return set_of_seq(s).member(x) if s.lst is None else or_(*[it.truth_term(compare(it, 'Eq', x, y)) for y in s.lst])
    raise Unsupported('membership in an array')


def set_of_seq(s):
    if s.ghost.get('set') is not None:
        return s.ghost['set']
    if s.ghost.get('asset') is None:
        s.ghost['asset'] = SSet(s)
    return s.ghost['asset']


# =============================================================== items
def norm_index(it, i, n, exc):
    """valid non negative index"""
    c = ctx()
    if isinstance(i, np.generic):
        i = i.item()
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            c.must(False, exc)
        return i + n if i < 0 else i
    if isinstance(i, int) and i < 0:
        c.must(lift(n) + i >= 0, exc)
        return norm(n + i)
    if c.proves(lift(i) >= 0):
        c.must(lift(i) < lift(n), exc)
        return norm(i)
    c.must(z3.And(lift(i) < lift(n), lift(i) >= -lift(n)), exc)
    if c.proves(lift(i) >= 0) or c.dry:
        return norm(i)
    return ite(simp(lift(i) >= 0), i, norm(i + n))


def norm_slice(it, sl, n):
    """(lo, length, step)"""
    c = ctx()
    step = 1 if sl.step is None else conc(sl.step)
    if step is None:
        step = norm(sl.step)
        if not (c.dry or c.proves(lift(step) >= 1)):
            raise Unsupported('slice with symbolic step')
        lo, ln, _ = norm_slice(it, slice(sl.start, sl.stop), n)
        return lo, divmod_sym(norm(lift(ln) + step - 1), step)[0], step
    if step == 0:
        raise PyRaise(ValueError('slice step cannot be zero'))

    def clamp(x, default):
        if x is None:
            return default
        if isinstance(x, np.generic):
            x = x.item()
        if not is_int(x):
            raise PyRaise(TypeError('slice indices must be integers'))
        if isinstance(x, int) and isinstance(n, int):
            return min(max(x + n if x < 0 else x, 0), n)
        if isinstance(x, int) and x < 0:
            x = norm(n + x)
            if c.proves(lift(x) >= 0):
                return x
            return ite(simp(lift(x) >= 0), x, 0)
        if c.proves(lift(x) >= 0):
            if c.proves(lift(x) <= lift(n)) or c.dry:
                return norm(x)
            return ite(simp(lift(x) <= lift(n)), x, n)
        if c.dry:
            return norm(x)
        y = ite(simp(lift(x) >= 0), x, norm(x + n))
        y = ite(simp(lift(y) >= 0), y, 0)
        return ite(simp(lift(y) <= lift(n)), y, n)
    if step > 0:
        lo, hi = clamp(sl.start, 0), clamp(sl.stop, n)
        d = norm(hi - lo) if is_term(hi) or is_term(lo) else hi - lo
        if isinstance(d, int):
            ln = max(0, -(-d // step))
        else:
            if step != 1:
                d2 = simp((d + (step - 1)) / step)
            else:
                d2 = d
            ln = d2 if (c.proves(lift(d) >= 0) or c.dry) else ite(simp(lift(d) >= 0), d2, 0)
        return lo, ln, step
    if sl.start is None and sl.stop is None and step == -1:
        return norm(lift(n) - 1) if is_term(n) else n - 1, n, -1
    if isinstance(n, int) and not has_term(sl):
        r = range(*sl.indices(n))
        return r.start, len(r), r.step
    raise Unsupported('negative step')


def seq_item(it, s, i, exc):
    j = norm_index(it, i, s.n, exc)
    if s.parts is not None and any(p.lst is not None and isinstance(p.lst[0], SList) for p in s.parts):
        # lists of different lengths: the part is found by proof
        c = ctx()
        for o, p in s.segments():
            t = norm(lift(j) - lift(o))
            if isinstance(t, int) and not (p.lst is not None and 0 <= t < len(p.lst)) and not (t == 0 and p.lst is None):
                continue
            if c.proves(z3.And(lift(t) >= 0, lift(t) < lift(p.n))):
                return p.get(t)
    return s.get(j)


def pieces(s):
    """sequence cut where the contract asks for it (ctx().cuts: length -> positions): loops are summarised piece by piece"""
    cuts = ctx().cuts
    if not cuts:
        return s
    out = []
    for _, p in s.segments():
        at = [c for n, c in cuts if p.lst is None and is_term(p.n) and norm(p.n - n) == 0]
        if not at:
            out.append(p)
            continue
        ends = list(at[0]) + [p.n]
        for a, b in zip([0] + ends, ends):
            out.append(SSeq(norm(lift(b) - lift(a)), lambda i, a=a, p=p: p.get(norm(lift(i) + lift(a)))))
    return concat(out)


def cut_parts(s, lo, hi):
    """slice of a concatenation between two positions that fall in concrete parts or between parts"""
    out, on = [], False
    segs = s.segments()
    for o, p in segs:
        a, b = norm(lift(lo) - lift(o)), norm(lift(hi) - lift(o))
        inside = lambda t: isinstance(t, int) and (p.lst is not None and 0 <= t < len(p.lst) or t == 0)
        first, last = 0, None
        if not on and inside(a):
            on, first = True, a
        if on:
            if inside(b):
                if b > first:
                    out.append(SSeq(lst=p.lst[first:b]))
                return concat(out)
            out.append(SSeq(lst=p.lst[first:]) if p.lst is not None else p)
    if on and norm(lift(hi) - lift(s.n)) == 0:
        return concat(out)
    return None


def seq_slice(it, s, sl):
    lo, ln, step = norm_slice(it, sl, s.n)
    if s.lst is not None and isinstance(ln, int) and isinstance(lo, int):
        return SSeq(lst=[s.lst[lo + step * i] for i in range(ln)])
    if s.parts is not None and step == 1:
        r = cut_parts(s, lo, norm(lift(lo) + lift(ln)))
        if r is not None:
            return r
    return SSeq(ln, lambda i: s.get(norm(lo + step * i)))


def getitem(it, o, i):
    if hasattr(o, 'sv_getitem'):
        return o.sv_getitem(it, i)
    if isinstance(o, Inst):
        return it.call_value(it.getattr(o, '__getitem__'), [i], {})
    if isinstance(o, (SDict, dict)):
        return dict_get(it, o, i)
    if isinstance(o, np.ndarray):
        o = it.from_native(o)
    if isinstance(o, SArr):
        return it.models.arr_getitem(it, o, i)
    if isinstance(o, (SList, list, tuple, SSeq, range)):
        s = seq_of(o)
        istup = isinstance(o, (tuple, SSeq))
        if isinstance(i, slice):
            r = seq_slice(it, s, i)
            return (tuple(r.lst) if r.lst is not None else r) if istup else SList(r)
        if is_bool(i) and not isinstance(i, bool):
            i = z3.If(i, 1, 0)
        if isinstance(i, (bool, np.generic)):
            i = int(i)
        if not is_int(i):
            raise PyRaise(TypeError(f'{"tuple" if istup else "list"} indices must be integers or slices, not {type(i).__name__}'))
        return seq_item(it, s, i, IndexError('index out of range'))
    if isinstance(o, (str, bytes)):
        try:
            return o[it.to_native(i)]
        except (IndexError, TypeError) as e:
            raise PyRaise(e)
    if isinstance(o, OpaqueStr):
        raise Unsupported('item of unmodelled text')
    if isinstance(o, (int, float)) or o is None or is_term(o):
        raise PyRaise(TypeError(f"'{type(o).__name__}' object is not subscriptable"))
    if isinstance(o, type):
        return o
    if isinstance(o, DictView):
        raise PyRaise(TypeError("'dict view' object is not subscriptable"))
    if isinstance(o, (SSet, set, SIter)):
        raise PyRaise(TypeError("object is not subscriptable"))
    raise Unsupported(f'item of {type(o).__name__}')


def setitem(it, o, i, v):
    if hasattr(o, 'sv_setitem'):
        return o.sv_setitem(it, i, v)
    if isinstance(o, Inst):
        return it.call_value(it.getattr(o, '__setitem__'), [i, v], {})
    if isinstance(o, SDict):
        if o.map is not None:
            raise Unsupported('item assignment in a symbolic dict')
        k = key(i)
        if o.effect('setkey', k, v):
            return
        o.d[k] = v
        return
    if isinstance(o, SArr):
        return it.models.arr_setitem(it, o, i, v)
    if isinstance(o, SList):
        s = o._seq if o.outer() is not None and not isinstance(i, slice) else o.seq
        if isinstance(i, slice):
            lo, ln, step = norm_slice(it, i, s.n)
            new = iterate(it, v)
            if step != 1:
                raise Unsupported('extended slice assignment')
            o.set(concat([s.slice(0, lo), new, s.slice(norm(lo + ln), s.n)]))
            return
        j = norm_index(it, i, s.n, IndexError('list assignment index out of range'))
        if o.effect('setitem', j, v):
            return
        if s.lst is not None and isinstance(j, int):
            l = list(s.lst)
            l[j] = v
            o.set(SSeq(lst=l))
        else:
            o.set(SSeq(s.n, lambda q: put(simp(lift(q) == lift(j)), v, s.get(q))))
        return
    if isinstance(o, (tuple, SSeq)):
        raise PyRaise(TypeError("'tuple' object does not support item assignment"))
    raise Unsupported(f'item assignment on {type(o).__name__}')


def delitem(it, o, i):
    if isinstance(o, SDict) and o.map is None:
        if o.outer() is not None:
            raise Unsupported('removal in a loop of symbolic length')
        k = key(i)
        if k not in o.d:
            raise PyRaise(KeyError(k))
        del o.d[k]
        return
    if isinstance(o, Inst):
        return it.call_value(it.getattr(o, '__delitem__'), [i], {})
    raise Unsupported(f'del item of {type(o).__name__}')


def augitem(it, op, o, i, v):
    if isinstance(o, SArr):
        return it.models.arr_augitem(it, op, o, i, v)
    setitem(it, o, i, augop(it, op, getitem(it, o, i), v))


# =============================================================== attributes and methods
def attribute(it, o, name):
    if isinstance(o, SList):
        f = LIST.get(name)
        if f is None:
            raise PyRaise(AttributeError(f"'list' object has no attribute '{name}'"))
        return Model(lambda *a, **k: f(it, o, *a, **k), 'list.' + name)
    if isinstance(o, SDict):
        f = DICT.get(name)
        if f is None:
            raise PyRaise(AttributeError(f"'dict' object has no attribute '{name}'"))
        return Model(lambda *a, **k: f(it, o, *a, **k), 'dict.' + name)
    if isinstance(o, SSet):
        f = SET.get(name)
        if f is None:
            raise Unsupported(f'set.{name}')
        return Model(lambda *a, **k: f(it, o, *a, **k), 'set.' + name)
    if isinstance(o, (tuple, SSeq)):
        if name in ('index', 'count') and isinstance(o, tuple) and not has_term(o):
            return getattr(o, name)
        if hasattr(o, '_fields'):
            return getattr(o, name)
        raise PyRaise(AttributeError(f"'tuple' object has no attribute '{name}'"))
    if isinstance(o, SArr):
        return it.models.arr_attribute(it, o, name)
    if isinstance(o, np.ndarray):
        return it.models.arr_attribute(it, it.from_native(o), name)
    if isinstance(o, OpaqueStr):
        if name in ('format', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'join', 'ljust', 'rjust', 'center', 'replace'):
            return Model(lambda *a, **k: OpaqueStr())
        raise Unsupported('method of unmodelled text')
    if isinstance(o, str):
        if name == 'format':
            return Model(lambda *a, **k: str_format(it, o, a, k))
        if name == 'join':
            def join(x):
                s = iterate(it, x)
                if s.lst is not None and all(isinstance(y, str) for y in s.lst):
                    return o.join(s.lst)
                if s.lst is not None and any(not isinstance(y, (str, OpaqueStr)) and not is_term(y) for y in s.lst):
                    raise PyRaise(TypeError('sequence item: expected str instance'))
                return OpaqueStr()
            return Model(join)
    if isinstance(o, dict):
        f = DICT.get(name)
        if name in ('get', 'items', 'keys', 'values', 'copy') and f:
            if name in ('items', 'keys', 'values'):
                return Model(lambda: getattr(o, name)())
            if name == 'copy':
                return Model(lambda: SDict(dict(o)))
            return Model(lambda k, d=None: dict_get(it, o, k, d, 'default'))
    if is_term(o):
        if name in ('item',):
            return Model(lambda: o)
        if name in ('shape',):
            return ()
        if name in ('size',):
            return 1
        if name == 'astype':
            return Model(lambda t, **k: o)
        if name == 'tolist':
            return Model(lambda: o)
        if z3.is_string(o):
            raise Unsupported(f'string method {name}')
        raise Unsupported(f'attribute {name} of a symbolic number')
    if isinstance(o, (int, float)) and not isinstance(o, bool) and name in ('item', 'tolist', 'astype', 'shape', 'size', 'ndim'):
        # numpy scalar results are python numbers in the engine
        return {'item': Model(lambda: o), 'tolist': Model(lambda: o), 'astype': Model(lambda t, **k: o), 'shape': (), 'size': 1, 'ndim': 0}[name]
    if isinstance(o, type) and class_in_repo(o):
        import inspect
        d = inspect.getattr_static(o, name, None)
        if isinstance(d, classmethod):
            return Bound(o, d.__func__, name)
        return NotImplemented
    return NotImplemented


def str_format(it, s, a, k):
    try:
        return s.format(*[it.to_native(x) for x in a], **{n: it.to_native(v) for n, v in k.items()})
    except Exception:
        return OpaqueStr()


def fstring(it, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, Inst) or has_term(v) and not is_term(v) or isinstance(v, (OpaqueStr, Poison)) or isinstance(spec, OpaqueStr):
            return OpaqueStr()
        if is_term(v):
            s = simp(v)
            if is_term(s):
                return symbolic_text(it, parts)
            v = s
        if hasattr(v, 'sv_str'):
            return symbolic_text(it, parts)
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        try:
            out.append(format(v, spec))
        except Exception as e:
            raise PyRaise(e)
    return ''.join(out)


def symbolic_text(it, parts):
    """text with symbolic integers or strings: a term of the string sort"""
    acc = []
    for p in parts:
        if isinstance(p, str):
            acc.append(z3.StringVal(p))
            continue
        v, conv, spec = p
        if conv != -1 or spec not in ('', None):
            return OpaqueStr()
        if hasattr(v, 'sv_str'):
            v = v.sv_str(it)
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            acc.append(z3.StringVal(str(v)))
        elif is_term(v) and z3.is_string(v):
            acc.append(v)
        elif is_term(v) and z3.is_arith(v) and v.is_int():
            acc.append(z3.Function('str_of_int', z3.IntSort(), z3.StringSort())(v))
        else:
            return OpaqueStr()
    return text_cat(*acc)


def l_append(it, l, x):
    l.append(x)


def l_extend(it, l, x):
    l.extend(iterate(it, x))


def l_pop(it, l, i=-1):
    s = l.seq
    j = norm_index(it, i, s.n, IndexError('pop from empty list'))
    v = s.get(j)
    l.set(concat([s.slice(0, j), s.slice(norm(j + 1) if is_term(j) else j + 1, s.n)]))
    return v


def l_insert(it, l, i, x):
    s = l.seq
    lo, ln, _ = norm_slice(it, slice(i, None), s.n)
    l.set(concat([s.slice(0, lo), SSeq(lst=[x]), s.slice(lo, s.n)]))


def l_index(it, l, x):
    for o, p in l.seq.segments():
        if p.lst is None:
            if never_equal(it, p, x):
                continue
            raise Unsupported('index in a symbolic list')
        for i, y in enumerate(p.lst):
            if ctx().branch(it.truth_term(compare(it, 'Eq', y, x))):
                return norm(lift(o) + i) if is_term(o) else o + i
    raise PyRaise(ValueError('not in list'))


def never_equal(it, p, x):
    """no item of the sequence can be x, by its shape alone"""
    c = ctx()
    g = c.new_generic(p.n)
    c.generics.append(g)
    try:
        return it.truth_term(compare(it, 'Eq', p.get(g.k), x)) is False
    finally:
        c.generics.pop()


def l_remove(it, l, x):
    i = l_index(it, l, x)
    l.set(SSeq(lst=l.seq.lst[:i] + l.seq.lst[i + 1:]))


def l_sort(it, l, key=None, reverse=False):
    l.set(sorted_seq(it, l.seq, key, reverse))


def l_reverse(it, l):
    s = l.seq
    l.set(reverse_seq(s))


def reverse_seq(s):
    if s.lst is not None:
        return SSeq(lst=list(reversed(s.lst)))
    return SSeq(s.n, lambda i: s.get(norm(s.n - 1 - i)))


LIST = dict(append=l_append, extend=l_extend, pop=l_pop, insert=l_insert, index=l_index, remove=l_remove, sort=l_sort, reverse=l_reverse,
            copy=lambda it, l: SList(l.seq), clear=lambda it, l: l.set(SSeq(lst=[])),
            count=lambda it, l, x: sum_conds([eq(y, x) for y in l.seq.lst]) if l.seq.lst is not None else unsup('count'))


def unsup(m):
    raise Unsupported(m)


def sum_conds(cs):
    r = 0
    for c in cs:
        r = scalar_op('Add', r, num(c) if isinstance(c, bool) else z3.If(c, 1, 0))
    return r


def d_pop(it, d, k, *default):
    if d.map is not None or has_term(k):
        if d.effect('pop', k):
            return None
        if isinstance(d.map, GroupMap):
            v = d.map.get(k)
            d.map = d.map.remove_many(it, lambda i: k, 1)
            return v
        raise Unsupported('pop of a symbolic key')
    if d.outer() is not None:
        raise Unsupported('pop in a loop of symbolic length')
    kk = key(k)
    if kk in d.d:
        return d.d.pop(kk)
    if default:
        return default[0]
    raise PyRaise(KeyError(kk))


def d_update(it, d, *a, **k):
    if d.outer() is not None:
        raise Unsupported('update in a loop of symbolic length')
    if d.map is not None:
        raise Unsupported('update of a symbolic dict')
    for o in a:
        if isinstance(o, (SDict, dict)):
            d.d.update(concrete_items(it, o))
        else:
            d.d.update(make_dict(it, iterate(it, o)).d)
    d.d.update(k)


def d_setdefault(it, d, k, v=None):
    if d.map is not None or has_term(k):
        raise Unsupported('setdefault')
    kk = key(k)
    if kk not in d.d:
        if d.outer() is not None:
            raise Unsupported('setdefault in a loop of symbolic length')
        d.d[kk] = v
    return d.d[kk]


def d_copy(it, d):
    d.touch()
    n = SDict(dict(d.d), d.default, d.kind)
    n.map = d.map
    return n


DICT = dict(items=lambda it, d: DictView(d, 'items'), keys=lambda it, d: DictView(d, 'keys'), values=lambda it, d: DictView(d, 'values'),
            get=lambda it, d, k, default=None: dict_get(it, d, k, default, 'default'), pop=d_pop, update=d_update, copy=d_copy,
            setdefault=d_setdefault, clear=lambda it, d: d.d.clear() if d.outer() is None and d.map is None else unsup('clear'))

SET = dict(add=lambda it, s, x: s.add(x), update=lambda it, s, *xs: [s.update(iterate(it, x)) for x in xs] and None,
           copy=lambda it, s: SSet(s._seq),
           union=lambda it, s, *xs: SSet(concat([s._seq] + [iterate(it, x) for x in xs])),
           difference=lambda it, s, x: set_op(it, 'Sub', s, SSet(iterate(it, x))),
           intersection=lambda it, s, x: set_op(it, 'BitAnd', s, SSet(iterate(it, x))),
           issubset=lambda it, s, x: all_of(it, s._seq, lambda y: contains(it, x, y)),
           issuperset=lambda it, s, x: all_of(it, iterate(it, x), lambda y: s.member(y)))


def instattr(it, o, name):
    return None


# =============================================================== builtins
@simple(builtins.len)
def b_len(it, v):
    if isinstance(v, Inst):
        return it.call_value(it.getattr(v, '__len__'), [], {})
    if hasattr(v, 'sv_len'):
        return v.sv_len(it)
    if isinstance(v, SArr):
        if not v.shape:
            raise PyRaise(TypeError('len() of unsized object'))
        return v.shape[0]
    if isinstance(v, SSet):
        q = v._seq.lst
        if q is not None and 1 < len(q) <= 4 and all(is_num(x) for x in q) and has_term(q) and not ctx().generics:
            seen = []
            for x in q:
                if not any(ctx().branch(lift(eq(x, y))) for y in seen):
                    seen.append(x)
            return len(seen)
        s = v.enum()
        count_distinct(it, v, s)
        return s.n
    if isinstance(v, (SIter,)):
        raise PyRaise(TypeError('object of type generator has no len()'))
    if isinstance(v, (str, bytes, dict, set, frozenset, range)):
        return len(v)
    if isinstance(v, OpaqueStr):
        raise Unsupported('length of unmodelled text')
    if isinstance(v, (int, float)) or v is None or is_term(v) and z3.is_arith(v):
        raise PyRaise(TypeError(f'object of type {type(v).__name__} has no len()'))
    return iterate(it, v).n


def count_distinct(it, v, s):
    """the number of members of set(values) is that of the distinct values"""
    c = ctx()
    q = v._seq
    if s.lst is not None or q.lst is not None or c.generics or c.dry or q.parts is not None or q.ghost:
        return
    x = q.get(z3.Int('canon!cd'))
    if is_term(x) and z3.is_int(x) and 'counted' not in s.ghost:
        s.ghost['counted'] = True
        u = REG[np.unique](it, [SArr([q.n], lambda i: q.get(i), 'i')], {})
        c.assume(lift(s.n) == lift(u.shape[0]))


@simple(builtins.range)
def b_range(it, a, b=None, step=1):
    lo, hi = (0, a) if b is None else (a, b)
    for x in (lo, hi, step):
        if isinstance(x, SArr):
            raise Unsupported('range of array')
        if not is_int(x) and not isinstance(x, (bool, np.integer)):
            raise PyRaise(TypeError('range() arguments must be integers'))
    st = conc(step)
    if st is None:
        raise Unsupported('range with symbolic step')
    if conc(lo) is not None and conc(hi) is not None:
        r = range(conc(lo), conc(hi), st)
        return r if len(r) <= UNROLL_RANGE else SRange(SSeq(len(r), lambda i: norm(r.start + st * i)))
    if st not in (1, -1):
        raise Unsupported('range with a step and symbolic bounds')
    c = ctx()
    d = norm((hi - lo) * st)
    n = d if (c.dry or c.proves(lift(d) >= 0)) else ite(simp(lift(d) >= 0), d, 0)
    return SRange(SSeq(n, lambda i: norm(lo + st * i)))


UNROLL_RANGE = 400


class SRange:
    def __init__(self, seq):
        self.seq = seq

    def __seq__(self):
        return self.seq

    def sv_getitem(self, it, i):
        return seq_item(it, self.seq, i, IndexError('range object index out of range'))

    def sv_getattr(self, it, name):
        raise Unsupported(f'range.{name}')


@simple(builtins.list)
def b_list(it, v=None):
    return SList(iterate(it, v)) if v is not None else SList()


@simple(builtins.tuple)
def b_tuple(it, v=()):
    s = iterate(it, v)
    return tuple(s.lst) if s.lst is not None else s


@simple(builtins.set)
def b_set(it, v=None):
    return SSet(iterate(it, v)) if v is not None else SSet()


@simple(builtins.frozenset)
def b_fset(it, v=None):
    return SSet(iterate(it, v)) if v is not None else SSet()


def b_dict(it, args, kwargs):
    if not args:
        return SDict(dict(kwargs))
    v = args[0]
    if isinstance(v, SDict):
        d = d_copy(it, v)
        d.default = None
    elif isinstance(v, dict):
        d = SDict(dict(v))
    elif isinstance(v, Inst) and hasattr(v.cls, 'keys'):
        ks = iterate(it, it.call_value(it.getattr(v, 'keys'), [], {}))
        d = make_dict(it, ks.map(lambda k: (k, it.call_value(it.getattr(v, '__getitem__'), [k], {}))))
    else:
        d = make_dict(it, iterate(it, v))
    if kwargs:
        d.d.update(kwargs)
    return d


REG[dict] = b_dict
REG[collections.OrderedDict] = b_dict


@simple(collections.defaultdict)
def b_defaultdict(it, default=None, *a):
    d = b_dict(it, list(a), {})
    d.default = default
    return d


@simple(builtins.zip)
def b_zip(it, *vs, strict=False):
    seqs = []
    for v in vs:
        if isinstance(v, StarArgs):
            return unzip(it, vs)
        seqs.append(iterate(it, v))
    if not seqs:
        return SIter(SSeq(lst=[]))
    if all(s.lst is not None for s in seqs):
        return SIter(SSeq(lst=[tuple(t) for t in zip(*[s.lst for s in seqs])]))
    # align segments when all sequences have the same part lengths
    n = seqs[0].n
    c = ctx()
    for s in seqs[1:]:
        if same_int(n, s.n):
            continue
        if c.proves(lift(n) <= lift(s.n)):
            continue
        if c.proves(lift(s.n) <= lift(n)):
            n = s.n
            continue
        n = ite(simp(lift(n) <= lift(s.n)), n, s.n)
    segs = [s.segments() for s in seqs]
    if len({len(g) for g in segs}) == 1 and len(segs[0]) > 1 and all(same_int(g[j][1].n, segs[0][j][1].n) for g in segs for j in range(len(g))):
        return SIter(concat([zip_seq([g[j][1] for g in segs], segs[0][j][1].n) for j in range(len(segs[0]))]))
    if any(len(g) > 1 for g in segs):
        # cut at the segments of the most divided sequence
        best = max(segs, key=len)
        if all(same_int(s.n, seqs[0].n) for s in seqs):
            parts = []
            for off, p in best:
                parts.append(zip_seq([s.slice(off, norm(off + p.n)) if s is not None else None for s in seqs], p.n))
            return SIter(concat(parts))
    return SIter(zip_seq(seqs, n))


def zip_seq(seqs, n):
    if isinstance(n, int) and all(s.lst is not None for s in seqs):
        return SSeq(lst=[tuple(t) for t in zip(*[s.lst for s in seqs])])
    return SSeq(n, lambda i: tuple(s.get(i) for s in seqs))


def unzip(it, vs):
    """zip(*rows) for rows of a fixed number of columns"""
    if len(vs) != 1:
        raise Unsupported('zip of star arguments')
    rows = vs[0].seq
    c = ctx()
    c.must(lift(rows.n) >= 0, ValueError())
    if not c.branch(lift(rows.n) > 0):
        return SIter(SSeq(lst=[]))
    r = seq_of(rows.get(z3.Int('canon!uz')))
    if r.lst is None:
        raise Unsupported('zip of rows of symbolic length')
    m = len(r.lst)
    return SIter(SSeq(lst=[SSeq(rows.n, lambda i, j=j: seq_of(rows.get(i)).get(j)) for j in range(m)]))


@simple(builtins.enumerate)
def b_enumerate(it, v, start=0):
    s = iterate(it, v)
    if s.lst is not None:
        return SIter(SSeq(lst=[(i + start, x) for i, x in enumerate(s.lst)]))
    if s.parts is not None:
        return SIter(concat([SSeq(p.n, lambda i, p=p, o=o: (norm(i + o + start), p.get(i))) if p.lst is None else
                             SSeq(lst=[(norm(o + start + i), x) for i, x in enumerate(p.lst)]) for o, p in s.segments()]))
    return SIter(SSeq(s.n, lambda i: (norm(i + start) if is_term(i) or is_term(start) else i + start, s.get(i))))


@simple(builtins.map)
def b_map(it, f, *vs):
    if len(vs) == 1:
        s = iterate(it, vs[0])
        g = lambda x: it.call_value(f, [x], {})
    else:
        s = b_zip(it, *vs).take()
        g = lambda x: it.call_value(f, list(x), {})
    return SIter(it.flatmap(s, lambda x: (True, lambda: SSeq(lst=[g(x)]))))


@simple(builtins.filter)
def b_filter(it, f, v):
    s = iterate(it, v)

    def body(x):
        cond = it.truth_term(it.call_value(f, [x], {})) if f is not None else it.truth_term(x)
        return cond, lambda: SSeq(lst=[x])
    return SIter(it.flatmap(s, body))


@simple(builtins.sorted)
def b_sorted(it, v, key=None, reverse=False):
    return SList(sorted_seq(it, iterate(it, v), key, reverse))


@simple(builtins.reversed)
def b_reversed(it, v):
    return SIter(reverse_seq(iterate(it, v)))


def all_of(it, s, f):
    parts = []
    for _, p in s.segments():
        if p.lst is not None:
            parts += [f(x) for x in p.lst]
        else:
            k = z3.Int(ctx().fresh_name('i'))
            b = f(p.get(k))
            if b is not True:
                parts.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < lift(p.n)), lift(b))))
    return and_(*parts)


@simple(builtins.all)
def b_all(it, v):
    return all_of(it, iterate(it, v), it.truth_term)


@simple(builtins.any)
def b_any(it, v):
    return not_(all_of(it, iterate(it, v), lambda x: not_(it.truth_term(x))))


@simple(builtins.sum)
def b_sum(it, v, start=0):
    s = iterate(it, v)
    acc = start
    for _, p in s.segments():
        if p.lst is not None:
            for x in p.lst:
                acc = binop(it, 'Add', acc, x)
        else:
            k = z3.Int('canon!sum')
            x = p.get(k)
            if isinstance(x, SList):
                acc = binop(it, 'Add', acc, SList(flatten(p)))
            elif is_num(x):
                if lift(x).is_int():
                    acc = binop(it, 'Add', acc, prefix_sum(p.get, p.n)(p.n))
                else:
                    raise Unsupported('sum of reals')
            else:
                raise Unsupported('sum')
    return acc


def constants(s, best):
    """extreme value of a sequence made of parts of constant value"""
    if s.parts is None:
        return None
    sure, maybe = set(), set()
    for _, p in s.segments():
        there = ctx().proves(lift(p.n) >= 1)
        for x in p.lst if p.lst is not None else [p.get(ctx().fresh('cst'))]:
            x = simp(x) if is_term(x) else x
            if not isinstance(x, (int, float)):
                return None
            maybe.add(x)
            if there:
                sure.add(x)
    return best(maybe) if sure and best(maybe) in sure else None


def minmax(it, args, kwargs, lt):
    key = kwargs.get('key')
    if 'default' in kwargs:
        raise Unsupported('min/max default')
    s = iterate(it, args[0]) if len(args) == 1 else SSeq(lst=list(args))
    if key is not None:
        raise Unsupported('min/max with key')
    c = ctx()
    c.must(simp(lift(s.n) > 0), ValueError('min() arg is an empty sequence'))
    if s.lst is not None:
        r = s.lst[0]
        for x in s.lst[1:]:
            r = ite(lt(x, r), x, r)
        return r
    r = constants(s, min if lt(1, 2) is True else max)
    if r is not None:
        return r
    k = z3.Int('canon!mm')
    x = lift(num(s.get(k)))
    key = ('minmax', lt(1, 2), ckey(x), ckey(lift(s.n)))
    if key not in c.cache:
        m = c.fresh('ext', x.sort())
        w = c.fresh('extw')
        i = z3.Int('mmi')
        c.assume(z3.And(0 <= w, w < lift(s.n), m == lift(num(s.get(w)))))
        xi = lift(num(s.get(i)))
        c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < lift(s.n)), z3.Not(lift(lt(xi, m)))), pattern_of([xi], i)))
        c.cache[key] = m
    return c.cache[key]


REG[builtins.min] = lambda it, a, k: minmax(it, a, k, lambda x, y: lex_lt(x, y))
REG[builtins.max] = lambda it, a, k: minmax(it, a, k, lambda x, y: lex_lt(y, x))


@simple(builtins.slice)
def b_slice(it, *a):
    return slice(*a)


@simple(builtins.abs)
def b_abs(it, v):
    if isinstance(v, SArr):
        return it.models.arr_unary(it, 'Abs', v)
    if is_term(v):
        return simp(z3.If(v >= 0, v, -v))
    return abs(it.to_native(v))


@simple(builtins.int)
def b_int(it, v=0, *a):
    if is_term(v):
        if z3.is_bool(v):
            return z3.If(v, 1, 0)
        if z3.is_string(v):
            raise Unsupported('int of symbolic text')
        if v.is_int():
            return v
        num, den = int_over(v)
        if num is not None:      # quotient of an integer by a positive constant
            if ctx().proves(num >= 0):
                return divmod_sym(num, den)[0]
            return simp(z3.If(num >= 0, num / den, -((-num) / den)))
        return simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
    if isinstance(v, SArr):
        return b_int(it, it.models.arr_item(it, v))
    if hasattr(v, 'sv_int'):
        return v.sv_int(it)
    try:
        return int(it.to_native(v), *a) if a else int(it.to_native(v))
    except (ValueError, TypeError, OverflowError) as e:
        raise PyRaise(e)


def int_over(v):
    """(integer term, positive integer) of which the real v is the quotient"""
    v = simp(v)
    if z3.is_mul(v) and v.num_args() == 2 and z3.is_rational_value(v.arg(0)) and v.arg(1).decl().kind() == z3.Z3_OP_TO_REAL:
        return lift(norm(v.arg(1).arg(0) * v.arg(0).numerator_as_long())), v.arg(0).denominator_as_long()
    return None, None


@simple(builtins.float)
def b_float(it, v=0.0):
    if is_term(v):
        if z3.is_bool(v):
            v = z3.If(v, 1, 0)
        return to_real(v)
    if isinstance(v, SArr):
        return b_float(it, it.models.arr_item(it, v))
    if hasattr(v, 'sv_float'):
        return v.sv_float(it)
    try:
        return float(it.to_native(v))
    except (ValueError, TypeError) as e:
        raise PyRaise(e)


@simple(builtins.bool)
def b_bool(it, v=False):
    return it.truth_term(v)


@simple(builtins.str)
def b_str(it, v='', *a):
    if hasattr(v, 'sv_str'):
        return v.sv_str(it)
    if isinstance(v, (Inst, OpaqueStr)) or has_term(v):
        if is_term(v):
            if z3.is_string(v):
                return v
            return symbolic_text(it, [(v, -1, '')])
        return OpaqueStr()
    return str(it.to_native(v), *a) if a else str(it.to_native(v))


@simple(builtins.repr)
def b_repr(it, v):
    return OpaqueStr() if isinstance(v, Inst) or has_term(v) else repr(it.to_native(v))


TYPES = {SList: list, SDict: dict, SSet: set}


def type_of(v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, SDict):
        return {'dict': dict}.get(v.kind, dict) if v.default is None else collections.defaultdict
    for k, t in TYPES.items():
        if isinstance(v, k):
            return t
    if isinstance(v, SArr):
        return np.ndarray
    if isinstance(v, SSeq):
        return tuple
    if is_term(v):
        if z3.is_bool(v):
            return bool
        if z3.is_string(v):
            return str
        return int if v.is_int() else float
    if isinstance(v, OpaqueStr):
        return str
    if isinstance(v, SRange):
        return range
    if hasattr(v, 'sv_type'):
        return v.sv_type()
    if isinstance(v, (Func, Bound, Model)):
        return types.FunctionType
    return type(v)


@simple(builtins.type)
def b_type(it, v):
    return type_of(v)


@simple(builtins.isinstance)
def b_isinstance(it, v, cls):
    t = type_of(v)
    if isinstance(cls, SSeq) or isinstance(cls, tuple) or isinstance(cls, types.UnionType) or isinstance(cls, type):
        if t is float and not isinstance(v, float) or t is float:
            # numpy floats and python floats are not distinguished
            pass
        cl = cls if isinstance(cls, tuple) else (cls,)
        return any(issubclass(t, c) if isinstance(c, type) else isinstance(v, c) for c in cl)
    raise Unsupported('isinstance')


@simple(builtins.issubclass)
def b_issubclass(it, a, b):
    return issubclass(a, b)


@simple(builtins.hasattr)
def b_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


@simple(builtins.getattr)
def b_getattr(it, o, name, *d):
    try:
        return it.getattr(o, name)
    except PyRaise as e:
        if isinstance(e.exc, AttributeError) and d:
            return d[0]
        raise


@simple(builtins.setattr)
def b_setattr(it, o, name, v):
    it.setattr(o, name, v)


@simple(builtins.callable)
def b_callable(it, v):
    return isinstance(v, (Func, Bound, Model, type)) or callable(v)


@simple(builtins.iter)
def b_iter(it, v):
    return v if isinstance(v, SIter) else SIter(iterate(it, v))


@simple(builtins.next)
def b_next(it, v, *d):
    if isinstance(v, SIter):
        if v.used:
            raise PyRaise(StopIteration())
        s = v._seq
        if ctx().generics and not v_is_local(v):
            raise Unsupported('next in a loop of symbolic length')
        if not ctx().branch(lift(s.n) > 0):
            if d:
                return d[0]
            raise PyRaise(StopIteration())
        x = s.get(0)
        v._seq = s.slice(1, s.n)
        return x
    raise Unsupported('next')


def v_is_local(v):
    return False


@simple(builtins.round)
def b_round(it, v, nd=None):
    if is_term(v):
        raise Unsupported('round')
    return round(it.to_native(v), nd) if nd is not None else round(it.to_native(v))


@simple(builtins.id)
def b_id(it, v):
    return id(v)


REG[builtins.print] = lambda it, a, k: None
REG[builtins.divmod] = lambda it, a, k: (scalar_op('FloorDiv', a[0], a[1]), scalar_op('Mod', a[0], a[1]))


# itertools
@simple(itertools.chain)
def i_chain(it, *vs):
    if any(isinstance(v, StarArgs) for v in vs):
        parts = []
        for v in vs:
            parts.append(flatten(v.seq.map(lambda x: seq_of(x))) if isinstance(v, StarArgs) else iterate(it, v))
        return SIter(concat(parts))
    return SIter(concat([iterate(it, v) for v in vs]))


def i_chain_it(it, args, kwargs):
    return SIter(flatten(iterate(it, args[0])))


REG[itertools.chain.from_iterable] = i_chain_it


@simple(itertools.product)
def i_product(it, *vs, repeat=1):
    seqs = [iterate(it, v) for v in vs] * repeat
    if all(s.lst is not None for s in seqs):
        return SIter(SSeq(lst=[tuple(t) for t in itertools.product(*[s.lst for s in seqs])]))
    n = 1
    for s in seqs:
        n = norm(lift(n) * lift(s.n))
    c = ctx()
    for s in seqs:
        c.assume(lift(s.n) >= 0)

    def get(p):
        out = []
        for s in reversed(seqs[1:]):
            if isinstance(s.n, int) and s.n == 1:
                out.append(s.get(0))
                continue
            p, r = divmod_sym(p, s.n)
            out.append(s.get(r))
        out.append(seqs[0].get(p if not (isinstance(seqs[0].n, int) and seqs[0].n == 1) else 0))
        return tuple(reversed(out))
    r = SSeq(n, get)
    r.ghost['product'] = seqs
    return SIter(r)


@simple(functools.reduce)
def f_reduce(it, f, v, *init):
    s = iterate(it, v)
    if s.lst is None:
        raise Unsupported('reduce of a symbolic sequence')
    l = list(init) + list(s.lst)
    if not l:
        raise PyRaise(TypeError('reduce() of empty iterable'))
    acc = l[0]
    for x in l[1:]:
        acc = it.call_value(f, [acc, x], {})
    return acc


@simple(itertools.accumulate)
def i_accumulate(it, v, func=None, initial=None):
    if func is not None:
        raise Unsupported('accumulate with a function')
    s = iterate(it, v)
    init = initial if initial is not None else None
    if s.lst is not None:
        out = [] if init is None else [init]
        acc = init
        for x in s.lst:
            acc = x if acc is None else binop(it, 'Add', acc, x)
            out.append(acc)
        return SIter(SSeq(lst=out))
    S = prefix_sum(s.get, s.n)
    if init is None:
        return SIter(SSeq(s.n, lambda i: S(norm(i + 1))))
    return SIter(SSeq(norm(s.n + 1), lambda i: norm(init + S(i))))


# operator
REG[operator.itemgetter] = lambda it, a, k: Model(lambda x: getitem(it, x, a[0]) if len(a) == 1 else tuple(getitem(it, x, j) for j in a))
REG[operator.attrgetter] = lambda it, a, k: Model(lambda x: it.getattr(x, a[0]))
for _n, _f in (('Add', operator.add), ('Sub', operator.sub), ('Mult', operator.mul), ('Div', operator.truediv)):
    REG[_f] = lambda it, a, k, _n=_n: binop(it, _n, a[0], a[1])
REG[operator.eq] = lambda it, a, k: compare(it, 'Eq', a[0], a[1])
REG[operator.contains] = lambda it, a, k: contains(it, a[0], a[1])

import copy as _copy  # noqa: E402


def copy_value(it, v, deep, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Inst):
        n = Inst(v.cls)
        memo[id(v)] = n
        n.attrs = {k: (copy_value(it, x, deep, memo) if deep else x) for k, x in v.attrs.items()}
        return n
    if isinstance(v, SList):
        return SList(v.seq if not deep else v.seq.map(lambda x: copy_value(it, x, deep, memo)))
    if isinstance(v, SDict):
        n = d_copy(it, v)
        memo[id(v)] = n
        if deep:
            n.d = {k: copy_value(it, x, deep, memo) for k, x in n.d.items()}
        return n
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, SSet):
        return SSet(v._seq)
    if isinstance(v, tuple):
        return tuple(copy_value(it, x, deep, memo) for x in v)
    if isinstance(v, (int, float, str, bytes, type(None), bool)) or is_term(v):
        return v
    raise Unsupported(f'copy of {type(v).__name__}')


REG[_copy.copy] = lambda it, a, k: copy_value(it, a[0], False, {})
REG[_copy.deepcopy] = lambda it, a, k: copy_value(it, a[0], True, {})


# context managers
def enter(it, m):
    if hasattr(m, 'sv_enter'):
        return m.sv_enter(it)
    if isinstance(m, Inst) and hasattr(m.cls, '__enter__'):
        return it.call_value(it.getattr(m, '__enter__'), [], {})
    raise Unsupported(f'context manager {type(m).__name__}')


def exit(it, m):
    if hasattr(m, 'sv_exit'):
        return m.sv_exit(it)
    if isinstance(m, Inst) and hasattr(m.cls, '__exit__'):
        it.call_value(it.getattr(m, '__exit__'), [None, None, None], {})


class NoOp:
    """object whose operations have no effect (timers)"""

    def sv_getattr(self, it, name):
        return Model(lambda *a, **k: None)

    def sv_enter(self, it):
        return self

    def sv_exit(self, it):
        return None


# =============================================================== summary of the effects of a loop
def summarise(it, obj, effs, g, n, read):
    """effects of one generic iteration on an outer object, for all iterations in order"""
    c = ctx()
    k = g.k

    def at(v):
        return lambda i: subst(v, [(k, i)])
    if isinstance(obj, (SList, SSet)):
        if read:
            raise Unsupported('list both read and extended in a loop of symbolic length')
        kinds = {e[0] for e in effs}
        if kinds <= {'append', 'extend'}:
            if len(effs) == 1:
                kind, guards, (x,) = effs[0]
                src_n, idx = n, (lambda i: i)
                if guards:
                    cond = and_(*guards)
                    pos, m = filter_ghost(at(cond), n)
                    src_n, idx = m, pos
                if kind == 'append':
                    obj.extend(SSeq(src_n, lambda i: at(x)(idx(i))))
                else:
                    if x.lst is not None and len(x.lst) == 1:
                        y = x.lst[0]
                        obj.extend(SSeq(src_n, lambda i: at(y)(idx(i))))
                    else:
                        obj.extend(flatten(SSeq(src_n, lambda i: at(x)(idx(i)))))
                return
            if not any(e[1] for e in effs):
                row = concat([SSeq(lst=[e[2][0]]) if e[0] == 'append' else e[2][0] for e in effs])
                obj.extend(flatten(SSeq(n, at(row))))
                return
            # guarded alternatives: exactly one append on each side
            merged = merge_guarded(effs)
            if merged is not None:
                obj.extend(SSeq(n, at(merged)))
                return
            raise Unsupported('several conditional appends in a loop')
        if kinds == {'setitem'} and len(effs) == 1:
            _, guards, (j, v) = effs[0]
            s = obj._seq
            W = last_writer(lambda i, b: and_(*[subst(x, [(k, i)]) for x in guards], eq(subst(j, [(k, i)]), b[0])), n, 1,
                            solve_index(j, k) if not guards else None)
            obj.set(SSeq(s.n, lambda q: put(W[0](q), subst(v, [(k, W[1](q))]), s.get(q))))
            return
        raise Unsupported(f'{kinds} in a loop of symbolic length')
    if isinstance(obj, Store):
        return it.models.summarise_store(it, obj, effs, g, n, read)
    if isinstance(obj, SDict):
        kinds = {e[0] for e in effs}
        if read and kinds != {'pop'} and kinds != {'group'}:
            raise Unsupported('dict both read and changed in a loop of symbolic length')
        if kinds == {'group'} and len(effs) == 1 and not effs[0][1]:
            kk, x = effs[0][2]
            group_append(obj, SSeq(n, at((kk, x))))
            return
        if kinds == {'setkey'} and not any(e[1] for e in effs) and obj.map is None:
            # the same keys at every iteration: the last one wins
            for _, _, (kk, x) in effs:
                last = subst(x, [(k, norm(n - 1))])
                if c.proves(lift(n) >= 1):
                    obj.d[kk] = last
                elif kk in obj.d:
                    obj.d[kk] = ite(simp(lift(n) >= 1), last, obj.d[kk])
                else:
                    raise Unsupported('key set in a loop that may be empty')
            return
        if kinds == {'pop'} and len(effs) == 1 and not effs[0][1]:
            if not isinstance(obj.map, GroupMap):
                raise Unsupported('pop of a symbolic dict')
            obj.map = obj.map.remove_many(it, at(effs[0][2][0]), n)
            return
        raise Unsupported(f'dict {kinds} in a loop of symbolic length')
    if hasattr(obj, 'sv_summarise'):
        return obj.sv_summarise(it, effs, g, n, read)
    raise Unsupported(f'effects on {type(obj).__name__} in a loop of symbolic length')


def merge_guarded(effs):
    """appends under guards c and not c: the value of the single append of each iteration"""
    if len(effs) != 2 or any(e[0] != 'append' for e in effs):
        return None
    (_, ga, (a,)), (_, gb, (b,)) = effs
    ca, cb = and_(*ga), and_(*gb)
    if ctx().proves(lift(ca) == z3.Not(lift(cb))):
        return ite(ca, a, b)
    return None


def solve_index(j, k):
    """j = k + c  ->  k = b - c"""
    t = norm(lift(j) - k)
    if k.decl().name() not in consts_of(lift(t)):
        return lambda b: norm(b[0] - t)
    return None


def last_writer(cond, n, nd, solved=None):
    """(written(*b), index of the last iteration writing b)"""
    c = ctx()
    if solved is not None:
        def written(*b):
            i = solved(b)
            return and_(simp(lift(i) >= 0), simp(lift(i) < lift(n)), cond(i, b))
        return written, (lambda *b: solved(b))
    I = z3.IntSort()
    W = c.fresh_fun('lastw', *([I] * nd), I)
    bs = [z3.Int(f'lw{j}') for j in range(nd)]
    i = z3.Int('lwi')
    w = W(*bs)
    cond_w = lift(cond(w, bs))
    cond_i = lift(cond(i, bs))
    c.assume(c.forall(bs, z3.Or(w == -1, z3.And(0 <= w, w < lift(n), cond_w)), [w]))
    if nd == 1:
        for q in (0, 1):     # ground instances, as trigger terms
            c.assume(z3.substitute(z3.Or(w == -1, z3.And(0 <= w, w < lift(n), cond_w)), (bs[0], z3.IntVal(q))))
    for body in c.cache.get('of written', []) if nd == 1 else []:      # facts of the contract on any location, wanted for the locations looked up
        c.define(c.forall(bs, body(bs[0]), [w]))
    # the writer of a location is at least every iteration that writes it
    direct = None
    if nd == 1 and z3.is_eq(cond_i):
        l, r = cond_i.children()
        for a, b in ((l, r), (r, l)):
            if z3.is_int(a):
                t = norm(a - b + bs[0])
                if 'lw0' not in consts_of(lift(t)):
                    direct = lift(t)
    if direct is not None:
        c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < lift(n)), i <= W(direct)), pattern_of([direct], i)))
        f = lambda x: simp(z3.substitute(direct, (i, lift(x))))
        if not c.generics and is_permutation(f, n):
            q = bs[0]
            c.assume(c.forall([q], z3.Implies(z3.And(0 <= q, q < lift(n)), z3.And(0 <= W(q), W(q) < lift(n), lift(f(W(q))) == q)), [W(q)]))
            c.assumptions.add('lemma: n distinct integers of [0, n) sorted increasingly are 0..n-1 (pigeonhole)')
    else:
        c.assume(c.forall([i] + bs, z3.Implies(z3.And(0 <= i, i < lift(n), cond_i), i <= w)))
    return (lambda *b: simp(W(*[lift(x) for x in b]) >= 0)), (lambda *b: W(*[lift(x) for x in b]))
