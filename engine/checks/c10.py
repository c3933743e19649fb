from fw import *
from checks.std_common import std_policy

EXPLAIN = ("Matrices, right-hand sides, Hessian patterns and row maps of the standard problem of a symbolic model are value-numbered "
           "and compared with the entries of its standard components at the variables' indices.")
S = "numopt_spec::c10::"
FLOOR = 3


def run(c):
    coo_invariant(c.prog)
    for n, r in (("linear", "A and b hold each entry of the components at its row and variable index"),
                 ("nonlinear", "J and Hessian patterns hold each entry at its rows and indices, Hessians lower triangular"),
                 ("rows", "row maps name the constraint of the row")):
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, policy=std_policy(c.prog), what=("ret",), panic="free")
