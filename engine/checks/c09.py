from fw import *
from checks.std_common import std_policy

EXPLAIN = ("The variable map, integrality flags and initial point of the standard problem of a symbolic model are value-numbered: "
           "the key set is that of the objective and constraint properties, the index hit counts are all one, flags and initial "
           "values are those of the variable at each index.")
S = "numopt_spec::c09::"
FLOOR = 4


def run(c):
    coo_invariant(c.prog)
    for n, r in (("vars", "exactly the variables of the objective and the constraints are indexed"),
                 ("hits", "every index from 0 to n-1 belongs to exactly one variable"),
                 ("flags", "integrality flags are those of the variable at the index"),
                 ("start", "initial values are those of the variable at the index, else zero")):
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, policy=std_policy(c.prog), what=("ret",), panic="free")
