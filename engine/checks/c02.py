from fw import *
import nodes

EXPLAIN = ("Structural induction over expressions. Chain rule: for each operation the sum over its argument occurrences of partial times "
           "derivative of the argument is value-numbered and compared with the derivative of the operation, for every pattern of equal "
           "arguments. Composition: the derivative is the sum over all argument paths of the product of the partials along the path.")
S = "numopt_spec::c02::"
FLOOR = 10
N = "<numopt::model::node::Node as numopt::model::"
PARTIAL = N + "node_base::NodeBase>::partial"
DERIVS = N + "node_diff::NodeDiff>::derivatives"
DERIV = N + "node_diff::NodeDiff>::derivative"
PATHS = N + "node_diff::NodeDiff>::all_simple_paths"
ARGS = N + "node_base::NodeBase>::arguments"


EQ = "<numopt::model::node::Node as core::cmp::PartialEq>::eq"


def any_order(t):
    """the paths to a variable in a fixed order"""
    import seqs
    es = seqs.entries(t)
    if es is None or any(e.op != "tup" or e.args[1].op != "seq" for e in es):
        return t
    return tup(*[tup(e.args[0], mk("seq", *sorted(e.args[1].args, key=okey))) for e in es])


def run(c):
    import models
    # equality of expressions is identity (C05)
    same = {EQ: lambda I, f, a, e: eq(models.val(I, a[0]), models.val(I, a[1]))}
    al = dict(nodes.algebra(c.prog), **same)
    kinds = {q: "opaque" for q in c.prog.fns if "::function::" in q and (q.endswith("::partial") or q.endswith("::arguments"))}
    for n in ("add", "mul", "div", "cos", "sin"):
        c.equiv("chain:" + n, "partials times derivatives of the arguments add up to the derivative of the operation",
                S + "i_" + n, S + "s_" + n, policy=dict(al, **{DERIV: "opaque", DERIVS: "opaque"}), what=("ret",))
    c.equiv("arguments", "an expression's arguments are those of its operation", S + "i_arguments", S + "s_arguments", policy=kinds, what=("ret",))
    c.equiv("partial", "an expression's partials are those of its operation", S + "i_partial", S + "s_partial", policy=kinds, what=("ret",))
    c.equiv("leaf", "a variable changes with itself alone, a constant with nothing", S + "i_leaf", S + "s_leaf", policy=al, what=("ret",))
    c.equiv("paths", "every argument path from the expression to a requested variable is found once", S + "i_paths", S + "s_paths",
            policy=dict(same, **{ARGS: "opaque"}), what=("ret",), small=(same, [(S + "i_small_%d" % k, S + "s_small_%d" % k) for k in range(14)]),
            sort=any_order)
    c.equiv("derivatives", "one entry per requested variable: the sum over its paths of the products of partials",
            S + "i_derivatives", S + "s_derivatives", policy=dict(al, **{PARTIAL: "opaque", PATHS: "opaque"}), what=("ret",))
    c.equiv("derivative", "the derivative is the entry of its variable", S + "i_derivative", S + "s_derivative",
            policy={DERIVS: "opaque"}, what=("ret",))
