from fw import *
import nodes
import models

EXPLAIN = ("The standard components of a symbolic expression are value-numbered and compared with the required gradient and Hessian "
           "entries; derivatives are the function decided by C02, properties those decided by C03.")
S = "numopt_spec::c04::"
FLOOR = 3
DIFF = "<numopt::model::node::Node as numopt::model::node_diff::NodeDiff>::"


def diff_policy(pol):
    """derivatives as a function of expression and variable (C02)"""
    def one(I, f, a, e):
        return app("derivative", models.val(I, a[0]), models.val(I, a[1]))

    def many(I, f, a, e):
        x = models.val(I, a[0])
        vs = models.S(I, a[1], e, 1)
        return SQ.mkmset(MEMPTY, SQ.seqmap(vs, lambda v: tup(v, app("derivative", x, v))))
    pol[DIFF + "derivative"] = one
    pol[DIFF + "derivatives"] = many
    return pol


def run(c):
    pol = diff_policy(nodes.algebra(c.prog))
    for q in c.prog.fns:
        if q.endswith("::std_properties"):
            pol[q] = "opaque"
    for n, r, alt in (("phi", "the components hold the expression and its properties", ()),
                      ("gradient", "one gradient entry per variable, its derivative", ()),
                      ("hessian", "one entry per unordered pair of variables unless the second derivative is constantly zero",
                       ("s_hessian_lower",))):
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, policy=pol, what=("ret",), alt=tuple(S + a for a in alt))
