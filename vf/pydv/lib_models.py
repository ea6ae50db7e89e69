"""Contracts assumed on the scientific libraries: numpy.polynomial, numpy.linalg, scipy.special."""
import z3
import numpy as np
import numpy.linalg as lin
import numpy.polynomial.legendre as polyL
import numpy.polynomial.polynomial as polyP
from .core import Unsupported, PyRaise, is_term, lift, simp, norm, same_int, ckey
from .values import SSeq, SArr, ite, eq, conc, ctx, seq_of, concat, subst
from . import models as M, np_models as N
from .models import simple

I, R = z3.IntSort(), z3.RealSort()


# ---- polynomial series: P_s(j, x) is the basis polynomial of degree j, D_s(j, x) its derivative (uninterpreted: only their being
#      polynomials of degree j and derivative matters)
def basis(series, der, j, x):
    f = z3.Function(f'{"D" if der else "P"}_{series}', I, R, R)
    return f(lift(j), N_real(x))


def N_real(x):
    x = lift(x)
    return z3.ToReal(x) if z3.is_int(x) else x


class Series:
    """value of numpy.polynomial.X(coef): coef is a sequence, or the derivative of such"""
    def __init__(self, series, coef, der=0):
        self.series, self.coef, self.der = series, coef, der

    def sv_subst(self, pairs):
        r = Series(self.series, subst(self.coef, pairs), self.der)
        return r

    def at(self, x):
        s = self.coef
        tot = None
        for off, p in s.segments():
            if p.lst is not None:
                for i, c in enumerate(p.lst):
                    if conc(c) == 0:
                        continue
                    t = basis(self.series, self.der, norm(lift(off) + i), x)
                    if conc(c) != 1:
                        t = N_real(c) * t
                    tot = t if tot is None else tot + t
                continue
            k = z3.Int('canon!poly')
            if conc(p.get(k)) == 0:
                continue
            raise Unsupported('polynomial with many coefficients')
        return simp(tot) if tot is not None else z3.RealVal(0)

    def sv_call(self, it, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported('evaluation of a polynomial')
        x = args[0]
        if isinstance(x, SArr):
            g = x.snap()
            return SArr(x.shape, lambda *i: self.at(g(*i)), 'f')
        return self.at(x)

    def sv_getattr(self, it, name):
        if name == 'deriv':
            def deriv(m=1):
                if conc(m) != 1 or self.der:
                    raise Unsupported('higher derivative')
                return Series(self.series, self.coef, 1)
            return M.Model(deriv, 'deriv')
        if name == 'coef':
            return self.coef if not self.der else DerCoef(self)
        if name == 'degree':
            raise Unsupported('degree')
        raise Unsupported(f'attribute {name} of a polynomial')


class DerCoef:
    """coefficients of a derivative, in the basis of its series"""

    def __init__(self, s):
        self.s = s

    def sv_subst(self, pairs):
        return DerCoef(self.s.sv_subst(pairs))


def make_series(name):
    def mk(it, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported('polynomial with a domain')
        c = args[0]
        if isinstance(c, DerCoef):
            if c.s.series == name:
                return Series(name, c.s.coef, 1)
            return Mixed(name, c.s)
        return Series(name, M.iterate(it, c))
    return mk


class Mixed(Series):
    """coefficients of the derivative in one basis read in another basis"""

    def __init__(self, series, s):
        super().__init__(series, s.coef, 1)
        self.series = f'{series}_of_{s.series}'


M.REG[polyL.Legendre] = make_series('legendre')
M.REG[polyP.Polynomial] = make_series('polynomial')


# ---- quadrature points
from scipy.special import roots_legendre  # noqa: E402


@simple(roots_legendre)
def m_roots_legendre(it, n, mu=False):
    c = ctx()
    c.assumptions.add('scipy.special.roots_legendre(n): n distinct abscissae in (-1, 1) and n weights')
    c.must(lift(n) >= 1, ValueError('n must be a positive integer.'))
    r, w = z3.Function('legendre_root', I, I, R), z3.Function('legendre_weight', I, I, R)
    i, j = z3.Ints('rli rlj')
    return SArr([n], lambda i: r(lift(n), lift(i)), 'f'), SArr([n], lambda i: w(lift(n), lift(i)), 'f')


# ---- linear systems: inv(A) @ b and solve(A, b) are a w with A w = b; only that is known of it (ghost 'solves')
class Inverse:
    def __init__(self, a):
        self.a = a

    def sv_type(self):
        return np.ndarray

    def sv_binop(self, it, op, other, reflected):
        if not reflected and op == 'MatMult' and isinstance(other, SArr):
            return solution(it, self.a, other)
        raise Unsupported('operation on an inverse matrix')

    def sv_getattr(self, it, name):
        if name == 'dot':
            return M.Model(lambda b: solution(it, self.a, N.as_arr(it, b)), 'dot')
        raise Unsupported(f'attribute {name} of an inverse matrix')


def square(it, a):
    a = N.as_arr(it, a)
    if a.ndim != 2:
        raise Unsupported('inverse of an array that is not a matrix')
    ctx().must(eq(a.shape[0], a.shape[1]), lin.LinAlgError('Last 2 dimensions of the array must be square'))
    ctx().assumptions.add('numpy.linalg: inv(A) @ b and solve(A, b) are the solution of A w = b (A regular)')
    return a


def solution(it, a, b):
    c = ctx()
    c.must(eq(a.shape[1], b.shape[0]), ValueError('matmul: mismatch'))
    f = c.fresh_fun('solution', *([I] * b.ndim), R)
    r = SArr([a.shape[0]] + list(b.shape[1:]), lambda *i: f(*i), 'f')
    r.ghost['solves'] = (a.copy(), b.copy())
    return r


@simple(lin.inv)
def m_inv(it, a):
    return Inverse(square(it, a).copy())


@simple(lin.solve)
def m_solve(it, a, b):
    return solution(it, square(it, a), N.as_arr(it, b))


# ---- nearest neighbour search, timers
import scipy.spatial as spatial  # noqa: E402
import time as _time  # noqa: E402


def same_square(t):
    """t*t, kept as a product of two identical terms"""
    return M.scalar_op('Mult', t, t)


def squares(t):
    """[u, v ..] when t is u*u + v*v + .., else None"""
    out = []
    for x in (t.children() if z3.is_add(t) else [t]):
        if z3.is_rational_value(x) and x.numerator_as_long() == 0:
            continue
        ch = x.children() if z3.is_mul(x) else []
        if len(ch) == 2 and ch[0].eq(ch[1]):
            out.append(ch[0])
        elif x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(ch := x.arg(1)) and ch.as_fraction() == 2:
            out.append(x.arg(0))
        else:
            return None
    return out


def mag(t):
    """|t|, the same term for t and -t"""
    t = z3.simplify(t)
    u = z3.simplify(-t)
    if ckey(u) < ckey(t):
        t, u = u, t
    return z3.If(t >= 0, t, u)


def root(t):
    """square root; that of a sum of squares is the Euclidean norm, a function of the magnitudes of the components"""
    c = ctx()
    q = squares(t)
    if q is None:
        r = z3.Function('np_sqrt', R, R)(t)
        return r
    if not q:
        return z3.RealVal(0)
    f = z3.Function(f'norm{len(q)}', *([R] * len(q)), R)
    r = f(*[mag(x) for x in q])
    key = ('norm', len(q))
    if key not in c.cache:
        c.cache[key] = True
        v = [z3.Real(f'nq{k}') for k in range(len(q))]
        c.define(f(*[z3.RealVal(0)] * len(q)) == 0)
        c.define(c.forall(v, z3.And(f(*v) >= 0, z3.Implies(z3.And(*[x == 0 for x in v]), f(*v) == 0)), [f(*v)]))
        c.assumptions.add('the Euclidean norm is a non negative function of the magnitudes of the components, zero for the null vector; nothing else of the square root is used')
    return r


def dist_term(a, b):
    """Euclidean distance of two tuples of reals, as np.sqrt(np.sum(np.square(a - b))) gives it"""
    tot = 0
    for x, y in zip(a, b):
        tot = M.scalar_op('Add', tot, same_square(M.scalar_op('Sub', x, y)))
    return root(N_real(tot)) if is_term(tot) else tot ** .5


class Tree:
    def __init__(self, pts):
        self.pts = pts

    def sv_getattr(self, it, nm):
        if nm == 'query':
            return M.Model(lambda x, k=1, eps=0, p=2, **o: self.query(it, x, k, p, o), nm)
        if nm == 'n':
            return self.pts.shape[0]
        if nm == 'data':
            return self.pts.copy()
        raise Unsupported(f'attribute {nm} of a KDTree')

    def query(self, it, x, k, p, o):
        if conc(k) != 1 or conc(p) != 2 or set(o) - {'workers'}:
            raise Unsupported('options of KDTree.query')
        c = ctx()
        c.assumptions.add('scipy.spatial.KDTree.query: index of a nearest point and its Euclidean distance')
        x = N.as_arr(it, x)
        pts, g = self.pts.snap(), x.snap()
        d = conc(self.pts.shape[1])
        if x.ndim != 2 or d is None:
            raise Unsupported('shape of the points of KDTree.query')
        c.must(eq(x.shape[1], d), ValueError('x must consist of vectors of the dimension of the tree'))
        n, m = lift(x.shape[0]), lift(self.pts.shape[0])
        ix = c.fresh_fun('nearest', I, I)
        dd = lambda i: dist_term([g(i, a) for a in range(d)], [pts(ix(lift(i)), a) for a in range(d)])
        i, j = z3.Ints('kdi kdj')
        far = c.fresh_fun('distance', I, R)
        if not c.dry:
            c.ghosts.append(('nearest', ix, n, far, dd))
        c.define(c.forall([i], z3.Implies(z3.And(0 <= i, i < n), far(i) == N_real(dd(i))), [far(i), ix(i)]))
        c.assume(c.forall([i], z3.Implies(z3.And(0 <= i, i < n, m > 0), z3.And(0 <= ix(i), ix(i) < m)), [ix(i)]))
        c.define(c.forall([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < m),
                 dd(i) <= dist_term([g(i, a) for a in range(d)], [pts(j, a) for a in range(d)])), [z3.MultiPattern(ix(i), lift(pts(j, 0)))]) if is_term(pts(j, 0)) else z3.BoolVal(True), heavy=True)
        return SArr([x.shape[0]], lambda i: far(lift(i)), 'f'), SArr([x.shape[0]], lambda i: ix(lift(i)), 'i')


@simple(spatial.KDTree, spatial.cKDTree)
def m_kdtree(it, data, *a, **k):
    return Tree(N.as_arr(it, data).copy())


@simple(_time.perf_counter, _time.time, _time.monotonic)
def m_clock(it):
    return ctx().fresh('clock', R)
