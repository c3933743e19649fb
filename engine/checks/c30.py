from fw import *

EXPLAIN = ("Every constructor and every building call of models, objectives, constraints, variables and constants is value-numbered on "
           "arbitrary arguments and an arbitrary earlier model, and what the accessors report afterwards is compared with the requirement.")
S = "numopt_spec::c30::"
FLOOR = 16
RULES = {
    "new": "a new model has an empty objective, no constraints, no values and no status",
    "minimize": "the objective holds the given expression and direction", "maximize": "the objective holds the given expression and direction",
    "empty": "the empty objective has no expression",
    "set_objective": "setting the objective replaces it and changes nothing else",
    "add": "the constraint is appended and nothing else changes", "add_all": "the constraints are appended in order and nothing else changes",
    "initial": "exactly the values of the last call are kept, and nothing else changes",
    "continuous": "a variable keeps its name and kind", "integer": "a variable keeps its name and kind",
    "constant": "a constant keeps its value", "zero": "zero is the constant 0", "is_constant": "exactly constants are constant",
    "constraint": "a constraint keeps its sides, relation and label",
    "status": "a status is shown by its own word", "same_status": "statuses are equal exactly when they are the same",
}


def run(c):
    for n, r in RULES.items():
        c.equiv(n, r, S + "i_" + n, S + "s_" + n, what=("ret",), panic="none")
