"""Contracts assumed on numpy numerical functions: text tables, square root, logarithm, Fourier transform."""
import numpy as np
from .core import z3, Unsupported, PyRaise, is_term, is_num, lift, norm, simp
from .values import SArr, SSeq, SList, eq, ctx, conc, to_real, ltext, and_, divmod_sym
from . import models as M, np_models as N, io_models as IO
from .models import simple

R = z3.RealSort()


def unary(fn, name):
    f = z3.Function(name, R, R)

    def value(x):
        if not is_term(x):
            return float(fn(x))
        return f(to_real(lift(x)))

    @simple(fn)
    def model(it, a, **k):
        if k:
            raise Unsupported(f'options of {name}')
        if is_num(a):
            return value(a)
        a = N.as_arr(it, a)
        return N.elementwise(it, value, [a], 'f')
    return value


SQRT = unary(np.sqrt, 'sqrt')
LOG = unary(np.log, 'log')


def tables():
    return ctx().cache.setdefault('tables', [])


@simple(np.genfromtxt)
def m_genfromtxt(it, fname, delimiter=None, **k):
    if delimiter != ' ' or k:
        raise Unsupported('options of genfromtxt')
    ctx().assumptions.add('numpy.genfromtxt: table of the numbers of a text file, of dimension 1 when the file has one line')
    t = ltext(fname)
    for name, arr in tables():
        if z3.simplify(name == t) is True or z3.is_true(z3.simplify(name == t)) or ctx().proves(name == t):
            return arr.copy()
    n, m = ctx().fresh('lines'), ctx().fresh('columns')
    ctx().assume(z3.And(n >= 2, m >= 4))
    f = ctx().fresh_fun('othertable', z3.IntSort(), z3.IntSort(), R)
    arr = SArr([n, m], lambda i, j: f(i, j), 'f')
    tables().append((t, arr))
    return arr.copy()


# ------------------------------------------------------------------ sums of reals
def telescoped(s):
    """sum of f(k+1) - f(k): difference of the ends"""
    if s.lst is not None:
        return None
    k = z3.Int('canon!sum')
    x = simp(to_real(lift(N.num(s.get(k)))))
    if z3.is_add(x) and x.num_args() == 2:
        for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
            if z3.is_mul(b) and b.num_args() == 2 and z3.is_rational_value(b.arg(0)) and b.arg(0).as_fraction() == -1:
                f = b.arg(1)
                if eq(simp(z3.substitute(f, (k, k + 1))), a) is True:
                    at = lambda j: simp(z3.substitute(f, (k, lift(j))))
                    return at(s.n) - at(0)
    return None


def real_sum(s, plain=N.real_sum):
    r = telescoped(s)
    return plain(s) if r is None else simp(r)


N.real_sum = real_sum


@simple(np.std)
def m_std(it, a, axis=None):
    a = N.as_arr(it, a)
    if axis is None and a.ndim != 1:
        raise Unsupported('standard deviation of a table')
    if axis is not None and a.ndim > 1:
        if axis < 0:
            axis += a.ndim
        if not isinstance(a.shape[axis], int):
            raise Unsupported('standard deviation of many values along an axis')
        return N.axis_reduce(it, a, axis, lambda s: m_std(it, SArr((s.n,), lambda i: s.get(i), 'f')), 'f')
    m = N.m_mean(it, a)
    d = M.binop(it, 'Sub', a, m)
    return SQRT(to_real(lift(N.m_mean(it, M.binop(it, 'Mult', d, d)))))


# ------------------------------------------------------------------ Fourier transform
MOD = RE = IM = None


class Complex:
    """value of a transform: modulus, real and imaginary part"""

    def __init__(self, re, im, mod, phase=None):
        self.re, self.im, self.mod, self.phase = re, im, mod, phase


def transform_of(get, n):
    """the discrete Fourier transform of n values, as a function of the frequency index: uninterpreted functional of the values"""
    k = z3.Int('canon!dft')
    A = z3.Lambda([k], simp(z3.If(z3.And(0 <= k, k < lift(n)), to_real(lift(get(k))), 0)))
    fs = [z3.Function(f'dft_{s}', A.sort(), z3.IntSort(), z3.IntSort(), R) for s in ('mod', 're', 'im')]
    return lambda q: tuple(f(A, lift(n), lift(q)) for f in fs)


def modulus(get, n, q):
    return transform_of(get, n)(q)[0]


def values_transform(vals, ortho=True):
    """transform of a few values: (modulus, real part, imaginary part, phase) of the frequency q"""
    n = len(vals)
    fs = [z3.Function(f'dft{n}_{"ortho_" if ortho else ""}{s}', *([R] * n), z3.IntSort(), R) for s in ('mod', 're', 'im', 'phase')]
    vs = [to_real(lift(x)) for x in vals]
    return lambda q: tuple(f(*vs, lift(q)) for f in fs)


def dft_axis(it, a, norm_, axis):
    a = N.as_arr(it, a)
    if axis < 0:
        axis += a.ndim
    n = a.shape[axis]
    if axis != 0 or not isinstance(n, int) or not 1 <= n <= 8 or norm_ not in (None, 'backward', 'ortho') or a.dtype not in ('f', 'i', 'f4'):
        raise Unsupported('transform along an axis')
    ctx().assumptions.add('numpy.fft: discrete Fourier transform, an uninterpreted functional of the values and their number')
    g = a.snap()

    def get(q, *i):
        m, r, im, ph = values_transform([g(k, *i) for k in range(n)], norm_ == 'ortho')(q)
        return Complex(r, im, m, ph)
    return SArr(a.shape, get, 'c')


def dft(it, a, count):
    a = N.as_arr(it, a)
    if a.ndim != 1 or a.dtype not in ('f', 'i', 'f4'):
        raise Unsupported('transform of a multi-dimensional array')
    ctx().must(lift(a.shape[0]) >= 1, ValueError('Invalid number of FFT data points (0) specified.'))
    ctx().assumptions.add('numpy.fft: discrete Fourier transform, an uninterpreted functional of the values and their number')
    f = transform_of(a.snap(), a.shape[0])

    def get(q):
        m, r, i = f(q)
        return Complex(r, i, m)
    return SArr((count(a.shape[0]),), get, 'c')


def half(n):
    return divmod_sym(n, 2)[0]


@simple(np.fft.fft)
def m_fft(it, a, n=None, axis=-1, norm=None):
    if n is not None:
        raise Unsupported('length of a transform')
    a = N.as_arr(it, a)
    if a.ndim > 1 or norm is not None:
        return dft_axis(it, a, norm, axis)
    return dft(it, a, lambda n: n)


@simple(np.fft.rfft)
def m_rfft(it, a):
    return dft(it, a, lambda n: norm(half(n) + 1))


def abs_c(v, plain=N.b_abs_v):
    return v.mod if isinstance(v, Complex) else plain(v)


N.b_abs_v = M.b_abs_v = abs_c


@simple(np.abs, np.absolute)
def m_abs(it, a):
    if is_num(a) or isinstance(a, Complex):
        return abs_c(a)
    a = N.as_arr(it, a)
    g = a.snap()
    return SArr(a.shape, lambda *i: abs_c(g(*i)), 'f' if a.dtype == 'c' else a.dtype)


@simple(np.angle)
def m_angle(it, a):
    if isinstance(a, Complex) and a.phase is not None:
        return a.phase
    a = N.as_arr(it, a)
    if a.dtype != 'c':
        raise Unsupported('angle of reals')
    g = a.snap()

    def get(*i):
        x = g(*i)
        if x.phase is None:
            raise Unsupported('phase of a transform')
        return x.phase
    return SArr(a.shape, get, 'f')


@simple(np.fft.fftfreq)
def m_fftfreq(it, n, d=1.0):
    nn = z3.ToReal(lift(n))
    h = half(norm(lift(n) + 1))
    return SArr((n,), lambda q: simp(z3.ToReal(lift(z3.If(lift(q) < lift(h), lift(q), lift(q) - lift(n)))) / (nn * to_real(lift(d)))), 'f')


@simple(np.fft.rfftfreq)
def m_rfftfreq(it, n, d=1.0):
    nn = z3.ToReal(lift(n))
    return SArr((norm(half(n) + 1),), lambda q: simp(z3.ToReal(lift(q)) / (nn * to_real(lift(d)))), 'f')


HANN = z3.Function('hanning', z3.IntSort(), z3.IntSort(), R)


@simple(np.hanning)
def m_hanning(it, m):
    return SArr((m,), lambda j: HANN(lift(j), lift(m)), 'f')


def same(a, b):
    """goal that implies a = b: the same functional is applied to the same values"""
    a, b = lift(a), lift(b)
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        c, x, y = a.children()
        return z3.And(z3.Implies(c, same(x, b)), z3.Implies(z3.Not(c), same(y, b)))
    if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args():
        return z3.And(*[same(x, y) for x, y in zip(a.children(), b.children())])
    if z3.is_quantifier(a) and z3.is_quantifier(b) and a.is_lambda() and b.is_lambda():
        j = z3.Int('same!j')
        return z3.ForAll([j], z3.substitute_vars(a.body(), j) == z3.substitute_vars(b.body(), j))
    return lift(eq(a, b)) if not z3.is_array(a) else a == b
