from fw import *
from checks.std_common import std_policy

EXPLAIN = ("The standard components of a symbolic constraint are value-numbered part by part and compared with the required bound, "
           "linear row or nonlinear row, over every relation and every shape of the left-minus-right side.")
S = "numopt_spec::c07::"
FLOOR = 5


def run(c):
    pol = std_policy(c.prog)
    for q in c.prog.fns:
        if "constraint::Constraint as" in q and q.endswith("::std_components"):
            pol.pop(q, None)
    for n, r in (("rows", "exactly one row, or a bound only for an inequality in one variable with coefficient one"),
                 ("bounds", "bound -b on the variable, or 0 on the slack: upper for <=, lower for >="),
                 ("linear", "row entries are the coefficients and -1 for the slack, right-hand side -b"),
                 ("nonlinear", "row function is the difference minus the slack with its gradient and Hessian entries"),
                 ("vars", "all variables and the slack are handed on for indexing")):
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, policy=pol, what=("ret",))
