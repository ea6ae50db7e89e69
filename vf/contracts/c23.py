"""C23: interpolation and gradient weights."""
from ..pydv.core import z3, lift
from ..pydv.verify import contract
from ..pydv.values import SArr, eq
from ..pydv.lib_models import basis

LEMMA = ('mathematics: for both series the polynomials P_0 .. P_{n-1} (P_i of degree i) span the polynomials of degree below n; the two sides '
         'of sum_j w_j p(r_j) = p(x) (and of its derivative) are linear in p, so it is enough to have them for the P_i')


def weights(v, b, series, n, w, x, der, m=None):
    """w solves sum_j P_i(r_j) w_j = P_i(x) (or D_i(x)) for every i < n"""
    sol = getattr(w, 'ghost', {}).get('solves') if isinstance(w, SArr) else None
    if sol is None:
        from ..pydv.core import Unsupported
        raise Unsupported('weights that are not the solution of a linear system')
    a, rhs = sol
    roots = v.attr(b, '_roots')
    v.prove('one weight for each point', [eq(w.shape[0], n), eq(roots.shape[0], n)])
    v.prove('one equation for each degree below the order', [eq(a.shape[0], n), eq(a.shape[1], n), eq(rhs.shape[0], n)])
    v.prove_all('coefficients: value of the basis polynomial at the point', [n, n], lambda i, j: eq(a.get(i, j), basis(series, 0, i, roots.get(j))))
    if m is None:
        v.prove('one set of weights', w.ndim == 1)
        v.prove_all('right hand side', n, lambda i: eq(rhs.get(i), basis(series, der, i, x)))
    else:
        v.prove('sets of weights', w.ndim == 2 and eq(w.shape[1], m))
        v.prove_all('right hand side', [n, m], lambda i, q: eq(rhs.get(i, q), basis(series, der, i, x.get(q))))


@contract('C23', assumes=[LEMMA, 'exact arithmetic (rounding accuracy is covered by the bounded side only)'], variants=['legendre', 'polynomial', 'default'])
def exact_on_polynomials(v, series):
    from cfdtools.utils.polybase import poly1d
    n = v.int('order', 1)
    b = v.call(poly1d, n) if series == 'default' else v.call(poly1d, n, series=series)
    series = 'legendre' if series == 'default' else series
    if v.choose('scalar', 'array') == 'scalar':
        x, m = v.choose(v.real('x'), v.int('xi')), None
    else:
        m = v.int('m', 1)
        x = v.array('x', [m], 'f')
    for name, der in v.choose((('interp_weights', 0), ('diff_weights', 1), ('interp_weights', 0)), (('gradv_weights', 1), ('value_weights', 0))):
        weights(v, b, series, n, v.meth(b, name, x), x, der, m)
