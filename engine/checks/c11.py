from fw import *
from checks.std_common import std_policy

EXPLAIN = "Limits and bound maps of the standard problem of a symbolic model are value-numbered and compared with the tightest bounds."
S = "numopt_spec::c11::"
FLOOR = 2


def run(c):
    coo_invariant(c.prog)
    for n, r in (("limits", "limits are the tightest of the bounds and +-1e8"), ("maps", "bound maps name a constraint attaining the limit")):
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, policy=std_policy(c.prog), what=("ret",))
