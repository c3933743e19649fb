from fw import *

EXPLAIN = ("Every problem constructor (Minlp, Nlp, Milp, Lp), every view of a problem as another class and every evaluation is "
           "value-numbered on symbolic data of any size; reported data, the set of inputs on which construction panics and the "
           "evaluated objective are compared with the requirement.")
S = "numopt_spec::c14::"
NEW = ["minlp", "nlp", "nlp_as_minlp", "milp", "lp", "lp_as_milp", "milp_as_minlp", "lp_as_minlp", "lp_as_nlp"]
EVAL = ["milp_eval", "lp_eval", "lp_eval_minlp", "minlp_eval", "nlp_eval"]
FLOOR = 20


def run(c):
    coo_invariant(c.prog)
    for n in NEW:
        c.equiv(n, "the constructed problem reports exactly the given data; construction panics exactly on inconsistent dimensions",
                S + "i_" + n, S + "s_" + n, what=("ret",), panic=("panic",))
    for n in EVAL:
        c.equiv(n, "evaluation stores the objective's value and gradient / calls the evaluation function with the problem's data",
                S + "i_" + n, S + "s_" + n, what=("ret",), panic="free")
    c.equiv("sol", "a new solution has the given dimensions", S + "i_sol", S + "s_sol")
