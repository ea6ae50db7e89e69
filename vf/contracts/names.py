"""numbered names of files"""
from ..pydv.core import z3, lift
from ..pydv.values import ctx, text_cat


def num(i):
    return z3.Function('str_of_int', z3.IntSort(), z3.StringSort())(lift(i))


def small_numbers():
    """texts of the first numbers"""
    c = ctx()
    if 'small numbers' not in c.cache:
        c.cache['small numbers'] = True
        for k in range(4):
            c.assume(num(k) == z3.StringVal(str(k)))


def candidate(stem, suff, i):
    small_numbers()
    return text_cat(stem, '(', num(i), ')', suff)
