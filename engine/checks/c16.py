from fw import *

EXPLAIN = ("Each matrix operation is value-numbered on symbolic matrices of any shape and any number of entries (loops become "
           "closed sums, maps, counts and scatters) and compared with the operation's definition.")
FLOOR = 11
S = "numopt_spec::c16::"
RULES = {
    "new": "the constructor keeps shape, indices and data", "pattern": "the constructor keeps shape and indices, data is zero",
    "nnz": "the constructor makes nnz zero entries", "csr_new": "the constructor keeps shape, pointers, indices and data",
    "iter": "iteration yields every stored triplet once, in storage order",
    "set_row": "only the addressed entry changes", "set_col": "only the addressed entry changes", "set_data": "only the addressed entry changes",
    "mul": "product = sum over stored entries of value times component", "to_csr": "same triplets grouped by row in storage order",
    "sum": "entries of equal row and column are added, others kept",
}


def run(c):
    coo_invariant(c.prog)
    for n, r in RULES.items():
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, what=("ret",), panic="same" if n in ("new", "pattern", "csr_new") else "free" if n in ("to_csr", "sum") else None)
