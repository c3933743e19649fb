from fw import *
import nodes

EXPLAIN = ("Every comparison builder (3 relations, with and without tag, 5 pairings of expressions and numbers), the constraint "
           "constructor, clone and violation are value-numbered on symbolic arguments and compared with the stated constraint.")
S = "numopt_spec::c06::"
FLOOR = 33


def run(c):
    pol = {nodes.N_EVAL: "opaque"}
    for k in sorted(c.prog.fns):
        if k.startswith(S + "i_"):
            n = k[len(S) + 2:]
            rule = "violation is |l-r|, (l-r)+ or (r-l)+ according to the relation" if n == "viol" else \
                "the constraint has the stated relation, sides and tag"
            c.equiv(n, rule, k, S + "s_" + n, policy=pol, panic=("panic", "unwrap"))
