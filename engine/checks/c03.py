from fw import *
import nodes

EXPLAIN = ("Structural induction over expressions: the properties of each kind of expression are value-numbered with the properties of "
           "its operands as unknowns and compared with the affine form and variable set its operation requires.")
S = "numopt_spec::c03::"
FLOOR = 11
N = "<numopt::model::node::Node as numopt::model::node_std::NodeStd>::std_properties"


def run(c):
    fs = [q for q in c.prog.fns if q.endswith("::std_properties") and "numopt_spec" not in q]
    c.equiv("node", "constants and variables are affine; others follow their operation", S + "i_node", S + "s_node",
            policy={q: "opaque" for q in fs if "::function::" in q}, what=("ret",))
    pol = {N: "opaque"}
    for n in ("add", "mul", "div", "cos", "sin"):
        c.equiv(n + ":vars", "the variable set is the union of those of the operands", S + "i_%s_vars" % n, S + "s_%s_vars" % n,
                policy=pol, what=("ret",))
        c.equiv(n + ":form", "affine exactly when the operation keeps it, with the resulting coefficients and constant",
                S + "i_" + n, S + "s_" + n, policy=pol, what=("ret",))
