from fw import *

EXPLAIN = ("The combined Hessian's structure at construction and its values after combine_h are value-numbered for any number of "
           "constraint Hessians with any number of entries and compared with the concatenation of the weighted entries.")
S = "numopt_spec::c15::"
FLOOR = 7


def run(c):
    coo_invariant(c.prog)
    for n in ("minlp", "nlp"):
        c.equiv("structure_" + n, "one entry per entry of each constraint Hessian, same row, column and order",
                S + "i_" + n, S + "s_" + n, what=("ret",), panic="free")
    for n in ("combine", "combine_nlp", "again"):
        c.equiv(n, "value = multiplier of its constraint times the entry it stands for; multipliers of wrong length are rejected",
                S + "i_" + n, S + "s_" + n, what=("ret",), panic="free")
    for n in ("minlp", "nlp"):
        c.equiv("reject_" + n, "multipliers of wrong length are rejected", S + "r_" + n, S + "q_" + n, what=(), panic=("panic",))
