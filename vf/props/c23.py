import numpy as np
from fractions import Fraction
from ..common import Fail, req, eq
from .. import gen


def case_exact(rng, k, scratch):
    from cfdtools.utils.polybase import poly1d
    order = 1 + k % 12
    series = ['legendre', 'polynomial'][k // 12 % 2]
    b = poly1d(order, series=series) if series != 'legendre' or rng.random() < 0.5 else poly1d(order)
    roots = np.array(b._roots)
    eq(len(roots), order, 'number of points')
    for i in range(3):
        x = rng.choice([-1.0, 1.0, 0.0, rng.uniform(-1, 1), rng.uniform(-1.3, 1.3), float(roots[rng.randrange(order)])])
        if i == 2:
            x = int(rng.choice([-1, 0, 1]))
        w, g = np.asarray(b.interp_weights(x)), np.asarray(b.diff_weights(x))
        eq((w.shape, g.shape), ((order,), (order,)), 'shape of weights')
        req(np.array_equal(np.asarray(b.value_weights(x)), w) and np.array_equal(np.asarray(b.gradv_weights(x)), g), 'aliases of the weights')
        for deg in range(order):
            c = [rng.uniform(-1, 1) for _ in range(deg + 1)]
            f = sum(a * roots**p for p, a in enumerate(c))
            v = float(sum(Fraction(a) * Fraction(float(x))**p for p, a in enumerate(c)))
            d = float(sum(p * Fraction(a) * Fraction(float(x))**(p - 1) for p, a in enumerate(c) if p))
            tol = 1e-11 * 4.0**order * (1 + sum(map(abs, c)))
            req(abs(w @ f - v) <= tol * 1e-1, f'{series} order {order} degree {deg} at {x}: value {w @ f} expected {v}')
            req(abs(g @ f - d) <= tol * order**2, f'{series} order {order} degree {deg} at {x}: gradient {g @ f} expected {d}')


def case_points(rng, k, scratch):
    """array of abscissae"""
    from cfdtools.utils.polybase import poly1d
    order = 1 + k % 8
    series = ['legendre', 'polynomial'][k // 8 % 2]
    b = poly1d(order, series=series)
    x = np.array([rng.uniform(-1, 1) for _ in range(rng.randint(1, 5))])
    roots = np.array(b._roots)
    w = np.asarray(b.interp_weights(x))
    eq(w.shape, (order, len(x)), 'shape')
    for p in range(order):
        req(np.all(np.abs(w.T @ roots**p - x**p) < 1e-9), f'{series} {order}: monomial {p}')


def case_again(rng, k, scratch):
    """weights depend on the values of the abscissae at the time of the call, and on nothing asked for before"""
    from cfdtools.utils.polybase import poly1d
    order = 1 + k % 6
    b = poly1d(order, series=['legendre', 'polynomial'][k // 6 % 2])
    x = np.array([rng.uniform(-1, 1) for _ in range(rng.randint(1, 4))])
    roots = np.array(b._roots)
    for i in range(4):
        for w, der in rng.sample([(b.interp_weights, 0), (b.diff_weights, 1), (b.value_weights, 0), (b.gradv_weights, 1)], rng.randint(1, 4)):
            got = w(x)
            eq(got.shape, (order, len(x)), 'shape')
            for p in range(order):
                want = (p * x**max(p - 1, 0)) if der else x**p
                req(np.all(np.abs(got.T @ roots**p - want) < 1e-9), f'order {order}: {w.__name__} of monomial {p}, call {i + 1}')
        x[rng.randrange(len(x))] = rng.uniform(-1, 1)


CASES = [(case_again, 60), (case_exact, 480), (case_points, 48)]
