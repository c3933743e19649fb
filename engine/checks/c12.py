from fw import *
from checks.std_common import std_policy

EXPLAIN = "The evaluation of the standard problem of a symbolic model at a symbolic point is value-numbered slot by slot."
S = "numopt_spec::c12::"
FLOOR = 2


def run(c):
    coo_invariant(c.prog)
    for n in ("nlp", "minlp"):
        c.equiv(n, "every slot holds the value of its expression with each variable bound to its component",
                S + "i_" + n, S + "s_" + n, policy=std_policy(c.prog), what=("ret",))
