from fw import *
from checks.std_common import std_policy

EXPLAIN = ("The model's standard components and the class and linear objective of its standard problem are value-numbered for a "
           "symbolic model (any objective, any constraints) and compared with the requirement.")
S = "numopt_spec::c08::"
FLOOR = 4


def run(c):
    coo_invariant(c.prog)
    for n, r in (("objective", "the minimised objective is the objective, its negation, or a constant"),
                 ("constraints", "the components of all constraints, rows numbered from zero")):
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, policy=std_policy(c.prog, False), what=("ret",))
    for n, r in (("class", "linear iff objective affine and no nonlinear row; integer iff some variable is integer"),
                 ("linear", "coefficients of the linear objective at the variables' indices")):
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, policy=std_policy(c.prog), what=("ret",),
                alt=(S + "s_class_count",) if n == "class" else ())
