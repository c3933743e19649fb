#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, symbols):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=s, where=", ".join(files)) for s in symbols])))

p("C01", "Operators and cos/sin build expressions with the exact mathematical value",
  "For all operands (expressions or numbers, by value or by reference) and all variable values, the expression built by +, -, *, /, unary minus, cos or sin evaluates to the corresponding mathematical combination of the values of its operands, whatever constant folding, flattening or distribution takes place. Evaluating an expression reads each variable's value from the supplied map and yields NaN for a missing variable.",
  ["inputs", "programs"], "every pair of operand shapes and every operator overload",
  "Tests try a few operand shapes of a few overloads; the overloads are separate macro expansions and the folding branches depend on the shape and value of both operands.",
  ["src/model/node.rs", "src/model/node_base.rs", "src/model/node_func.rs", "src/model/function/add.rs", "src/model/function/mul.rs", "src/model/function/div.rs", "src/model/function/sin.rs", "src/model/function/cos.rs", "src/model/constant.rs"],
  ["Node", "NodeBase::evaluate", "NodeFunc"])
p("C02", "Automatic derivatives are exact",
  "The derivative of any expression with respect to any variable is an expression whose value is the mathematical derivative, for every expression graph, including shared sub-expressions, repeated arguments of one operation, and variables that do not occur (derivative zero). The partial of a variable is one with respect to itself and zero with respect to every other expression, also one of the same name. The derivatives of a set of variables contain exactly one entry per requested variable.",
  ["inputs", "programs"], "every expression graph and every set of variables",
  "Tests differentiate a handful of small expressions; sharing and repeated-argument patterns are unbounded.",
  ["src/model/node_diff.rs", "src/model/node_base.rs", "src/model/function/add.rs", "src/model/function/mul.rs", "src/model/function/div.rs", "src/model/function/sin.rs", "src/model/function/cos.rs"],
  ["NodeDiff::derivatives", "NodeDiff::derivative", "NodeDiff::all_simple_paths", "NodeBase::partial", "NodeBase::arguments"])
p("C03", "Affine detection is sound and finds every variable",
  "If an expression is reported affine with coefficients a and constant b, its value equals the sum of coefficient times variable plus b for all variable values; sums, products with and quotients by variable-free affine expressions of affine expressions are reported affine. Whether affine or not, the reported variable set contains every variable that occurs in the expression.",
  ["inputs", "programs"], "every expression graph",
  "Tests check a few shapes; soundness quantifies over all nestings, in particular variable-free non-affine factors and repeated variables.",
  ["src/model/node_std.rs", "src/model/function/add.rs", "src/model/function/mul.rs", "src/model/function/div.rs", "src/model/function/sin.rs", "src/model/function/cos.rs"],
  ["NodeStd::std_properties", "NodeStdProp"])
p("C04", "Standard gradient and Hessian entries of an expression are complete",
  "The standard components of an expression hold the expression itself, one gradient entry per variable equal to its derivative, and at most one Hessian entry for each unordered pair of variables, equal to the second derivative with respect to that pair. A pair is omitted only when its second derivative is the constant zero.",
  ["inputs", "programs"], "every expression and every iteration order of its variable map",
  "The pairing depends on hash-map iteration order and the number of variables; tests use up to three variables.",
  ["src/model/node_std.rs"], ["NodeStd::std_components", "NodeStdComp"])
p("C05", "Expressions, variables and constraints are identified by object, immutably",
  "Two expressions (or two constraints) are equal exactly when one is a clone of the other, equal ones hash equally, and a clone is equal to its original. Names, labels, kinds and values play no part in equality, and nothing reachable from an expression or constraint can be changed after construction.",
  ["inputs", "histories"], "every pair of expressions or constraints, and every use of them after construction",
  "Tests compare a few nodes; the law has to hold for every variant pair and every history of use.",
  ["src/model/node.rs", "src/model/constraint.rs", "src/model/constant.rs", "src/model/variable.rs"],
  ["Node", "Constraint", "VariableScalar", "ConstantScalar"])
p("C06", "Comparison builders make the stated constraint and violation measures it",
  "Each of equal, geq and leq (with or without tag, for every supported pairing of expressions and numbers) yields a constraint with exactly that relation, the receiver as left side, the argument as right side, and the given tag (empty if none). Its violation at a point is |left-right| for an equality, and the positive part of left-right or right-left for <= and >= respectively.",
  ["inputs", "programs"], "every overload and every operand and point",
  "There are thirty separate method bodies from macro expansion; tests look at a few of them.",
  ["src/model/node_cmp.rs", "src/model/constraint.rs"], ["NodeCmp", "Constraint::new", "Constraint::violation"])
p("C07", "Standardised constraints are equivalent to the original constraint",
  "Each constraint is turned either into a variable bound (only for an inequality whose left-minus-right side is affine in one single variable with coefficient one), into one linear equality row, or into one nonlinear equality row, such that a point satisfies the original constraint exactly when it satisfies the standardised ones for some value of the slack. Inequalities that become rows get a fresh slack with coefficient -1, bounded above by 0 for <= and below by 0 for >=, rows are numbered consecutively, gradient and Hessian entries belong to the row's expression, and each row and bound refers back to the constraint it came from.",
  ["inputs", "programs"], "every constraint kind and every left and right expression",
  "Tests cover one or two expressions per kind; the case split is on arbitrary expressions.",
  ["src/model/constraint_std.rs"], ["ConstraintStd::std_components", "ConstraintStdComp"])
p("C08", "Model standardisation keeps the objective and picks the right problem class",
  "The standard problem minimises the model's objective expression, or its negation when the model maximises, or a constant when there is none, over all of the model's constraints. It is linear exactly when the objective is affine and no constraint is nonlinear, and it is mixed-integer exactly when some variable of the model is an integer variable, so that no nonlinearity or integrality is lost.",
  ["inputs", "programs"], "every model",
  "Tests build a few fixed models; classification depends on the combination of all objective and constraint parts.",
  ["src/model/model_std.rs", "src/model/model.rs"], ["ModelStd::std_components", "ModelStd::std_problem"])
p("C09", "Variable indexing is a bijection shared by all problem data",
  "Every variable of the objective and of the constraints, including slacks, gets exactly one index, indices are distinct and run from 0 to the number of variables minus 1. The integrality flag at an index is set exactly for integer variables, and the initial point holds the user's initial value of the variable at its index, and zero where none was given.",
  ["inputs", "programs"], "every model and every hash-map iteration order",
  "Depends on set and map iteration order and on which variables appear where; tests use a few small models.",
  ["src/model/model_std.rs", "src/model/model.rs"], ["ModelStd::std_problem", "Model::set_init_primals"])
p("C10", "Matrices, right-hand sides and Hessian patterns follow rows and indices",
  "In the standard problem, every linear row, nonlinear row, Jacobian entry and Hessian entry of every constraint appears at its row and at the index of its variables, with its value and nothing else, and the row-to-constraint maps name the constraint of that row. Hessian entries lie in the lower triangle, at the pair of indices of their two variables, and the matrix dimensions are the numbers of rows and of variables.",
  ["inputs", "programs"], "every model",
  "Alignment of a dozen parallel arrays must hold for any number of rows and entries; tests check a few models.",
  ["src/model/model_std.rs"], ["ModelStd::std_problem"])
p("C11", "Variable bounds are the tightest ones and remember their constraint",
  "For each variable the upper (lower) limit of the standard problem is the smallest (largest) of the bounds derived from the model's constraints and the default infinity of 1e8 (-1e8). The upper (lower) bound map names, for every bounded variable, a constraint that attains that limit.",
  ["inputs", "programs"], "every multiset and order of bound constraints",
  "The result must not depend on the order or number of bounds; tests have at most two per variable.",
  ["src/model/model_std.rs"], ["ModelStd::std_problem"])
p("C12", "Problem evaluation writes each value at the position of its expression",
  "Evaluating a standard nonlinear problem at x stores the objective value, each gradient entry at the index of its variable, each objective Hessian entry, constraint value, Jacobian entry and constraint Hessian entry in the slot of the entry whose row and column the problem reports, all computed with each variable bound to x at its index.",
  ["inputs", "programs"], "every model and every point",
  "Data and pattern arrays are built separately and matched by position only; tests check fixed small models.",
  ["src/model/model_std.rs", "src/problem/minlp.rs"], ["ModelStd::std_problem", "ProblemMinlp::evaluate"])
p("C13", "Solving a model reports the solver's answer against the right objects",
  "After a successful solve, the status is the solver's, every variable's final value is the solution entry at its index, and every constraint's dual is the multiplier of the row it became or, for a bound or a row with slack, the multiplier of the upper or lower bound it produced. Results of an earlier solve are discarded when a new one starts, and a failed solve returns the error and leaves no status and no values.",
  ["inputs", "histories", "fault_sequences"], "every model, every solver answer, and every sequence of solves",
  "Tests solve once, mostly successfully; stale state and dual assignment need sequences and all constraint kinds.",
  ["src/model/model.rs"], ["Model::solve", "Model::final_primals", "Model::final_duals"])
p("C14", "Problem constructors reject inconsistent dimensions and keep the data given",
  "Constructing a problem whose vectors and matrices (objective, Hessian, linear and nonlinear constraints, limits, integrality flags, initial point) disagree in dimension panics instead of producing a problem. A constructed problem, also when viewed as another problem class, reports exactly the data it was given, and its evaluation gives the linear objective's value and gradient for linear classes.",
  ["inputs"], "every combination of argument dimensions and values",
  "Each accessor and each view is a separate forwarding path; tests construct only consistent problems.",
  ["src/problem/minlp.rs", "src/problem/milp.rs", "src/problem/lp.rs", "src/problem/nlp.rs", "src/problem/base.rs"],
  ["ProblemMinlp::new", "ProblemMilp::new", "ProblemLp::new", "ProblemNlp::new", "ProblemSol::new"])
p("C15", "The combined constraint Hessian is the multiplier-weighted sum",
  "The combined Hessian of a problem has one entry for each entry of each constraint Hessian, at the same row and column and in the same order, and combining with multipliers sets each of its values to the multiplier of its constraint times the value of the entry it stands for. A multiplier vector of the wrong length is rejected.",
  ["inputs"], "every number of constraints and entries per constraint",
  "The position in the flat array depends on all preceding matrices; tests use two constraints.",
  ["src/problem/minlp.rs"], ["ProblemMinlp::new", "ProblemMinlp::combine_h"])
p("C16", "Sparse matrix operations preserve the matrix",
  "For every coordinate matrix with in-range indices (any order, duplicates, empty rows or columns), conversion to compressed rows represents the same matrix with entries of a row in their original order, summing duplicates keeps the represented matrix and leaves at most one entry per row and column, and multiplication by a vector is the matrix-vector product. Construction rejects index and data arrays of different lengths, and iteration yields every entry once.",
  ["inputs"], "every matrix",
  "Index arithmetic over arbitrary patterns; tests use a few fixed patterns.",
  ["src/matrix/coo.rs", "src/matrix/csr.rs"], ["CooMat", "CsrMat", "CooMatIter"])
p("C17", "The LP file describes exactly the problem",
  "The LP file written for a problem contains the minimisation objective, one equality row per linear constraint with its right-hand side, both limits of every variable, and the integer section listing exactly the integer variables, with every nonzero coefficient at its own variable with its own sign and magnitude (to at least 11 significant digits) and no other coefficients. Any failure to create or write the file, including the final flush, is reported as an error.",
  ["inputs", "fault_sequences"], "every mixed-integer linear problem",
  "Tests write one problem; sign, unit, zero and duplicate coefficients interact with text formatting.",
  ["src/problem/milp.rs"], ["ProblemMilpIO::write_to_lp_file"])
p("C18", "Reading a solution file maps status and values correctly and never panics",
  "For every file content the reader returns a status, a solution or an error and never panics: only the solver's own success word gives a solved status and only its infeasibility word an infeasible one, and a missing file gives the error status. In a solved file each column line sets the value and reduced cost (positive to the lower-limit multiplier, otherwise negated to the upper-limit multiplier) of the variable whose index it names, each row line sets that row's dual, and a malformed line or an index outside the problem is an error.",
  ["inputs", "fault_sequences"], "every file content",
  "Tests read three well-formed files; external solver output is arbitrary.",
  ["src/solver/cbc_cmd.rs"], ["SolverCbcCmd::read_sol_file"])
p("C19", "Command-line solvers remove their temporary files on every exit",
  "When a command-line solver's solve returns, whether with a result or with any error, the problem file and the solution file it created or let the external program create in the working directory are gone.",
  ["fault_sequences", "inputs"], "every exit of solve, under every failure of file, process or parameter access",
  "Failure exits are not exercised by the tests.",
  ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs"], ["SolverCbcCmd", "SolverClpCmd"])
p("C20", "Solvers get exactly the problem, classes they support, and the parameters set",
  "A solver refuses every problem class it cannot represent (integrality or nonlinearity is never silently dropped) and solves the very problem passed in. Cbc and Clp are run on the file just written, with the current log level and the solution file that is then read back with the conventions of that same solver, and a failure to write, run or read is returned as an error.",
  ["inputs", "configurations", "fault_sequences"], "every problem class, parameter value and failure",
  "Tests run a few supported combinations only.",
  ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs"], ["SolverCbcCmd", "SolverClpCmd", "SolverIpopt"])
p("C21", "Ipopt callbacks touch foreign memory only after validation and within bounds",
  "In every callback each foreign pointer is checked to be non-null before it is used, and the dimensions reported by the library are checked against the problem before anything sized by the problem is read or written. Every write goes to an index below the number of entries checked, the user-data pointer is cast to the type it was created from, and no unsafe code exists outside the Ipopt interface.",
  ["inputs", "fault_sequences"], "every argument combination the library could pass",
  "Tests run only against a well-behaved library; rejected calls never happen there.",
  ["src/solver/ipopt.rs", "src/solver/cipopt.rs"], ["eval_f_cb", "eval_grad_f_cb", "eval_g_cb", "eval_jac_g_cb", "eval_h_cb"])
p("C22", "Ipopt callbacks deliver the problem's functions and derivatives",
  "The callbacks return the objective, its gradient, the constraint values (A x - b followed by f), the Jacobian (entries of A followed by those of J) and the Lagrangian Hessian (objective factor times the objective Hessian followed by the combined constraint Hessian for the multipliers passed in), re-evaluating the problem whenever x is new. Structure and values are delivered in the same order, and the values are right for every combination of new-x and new-multiplier flags.",
  ["inputs", "histories"], "every sequence of callback calls",
  "The library decides the call sequence and flags; tests see only the sequences of a few solves.",
  ["src/solver/ipopt.rs"], ["eval_f_cb", "eval_grad_f_cb", "eval_g_cb", "eval_jac_g_cb", "eval_h_cb"])
p("C23", "The native Ipopt problem is freed exactly once on every exit",
  "Whenever a native problem was created, it is freed exactly once before solve returns, on success and on every error return, and it is not used after being freed or when creation failed.",
  ["fault_sequences"], "every exit of solve",
  "Error exits are not exercised, and a leak does not fail a test.",
  ["src/solver/ipopt.rs"], ["SolverIpopt"])
p("C24", "Ipopt gets the right problem data and its answer is mapped correctly",
  "The native problem is created with the variable limits, zero constraint limits, numbers of variables, constraints and nonzeros of the problem, and solved from its initial point (zeros if none) with the user's options. Return codes 0 and 1 mean solved, 2 infeasible and anything else error; the solution, bound multipliers (lower to lower, upper to upper) and negated constraint multipliers, split into linear then nonlinear rows, are copied unchanged.",
  ["inputs", "fault_sequences"], "every problem, return code and solution vector",
  "Tests check a few solves; codes other than success hardly occur.",
  ["src/solver/ipopt.rs"], ["SolverIpopt"])
p("C25", "Setting a solver parameter preserves its type and rejects unknown names",
  "Setting a parameter succeeds exactly when the name is known and the new value has the type of the current one, and then exactly that parameter has exactly that value. Otherwise an error is returned and no parameter changes; every solver starts with its documented parameters.",
  ["inputs", "histories"], "every name, value and sequence of settings",
  "Tests set one parameter to valid values.",
  ["src/solver/base.rs", "src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs"], ["Solver::set_param", "Solver::get_param"])
p("C26", "Building and differentiating expressions panics only on division by zero",
  "No sequence of operator, cos, sin, derivative, evaluation or standardisation calls on expressions panics, whatever the operands, except division by a constant zero and differentiation with respect to something that is not a variable.",
  ["inputs", "programs"], "every expression-building program",
  "Panics depend on cancellation and shapes that a handful of tests do not meet.",
  ["src/model/node.rs", "src/model/node_func.rs", "src/model/node_diff.rs", "src/model/node_std.rs", "src/model/node_base.rs", "src/model/function/add.rs"],
  ["Node", "FunctionAdd::new", "NodeDiff", "NodeStd"])
p("C27", "Displayed expressions, constraints and models read back as what they are",
  "The text of an expression, read with the usual precedence and left associativity, denotes the same operations on the same operands: every sum inside a product or quotient, and every quotient or product where regrouping would change the meaning, is parenthesised. The text of a constraint shows left side, relation and right side, and the text of a model shows the direction, objective and all constraints with their labels.",
  ["inputs", "programs"], "every nesting of operations",
  "Tests print a few expressions; the rule quantifies over all parent and child pairs.",
  ["src/model/node.rs", "src/model/function/add.rs", "src/model/function/mul.rs", "src/model/function/div.rs", "src/model/function/cos.rs", "src/model/function/sin.rs", "src/model/constraint.rs", "src/model/model.rs"],
  ["Node", "Constraint", "Model"])
p("C28", "An optimal solution is returned with numerical accuracy",
  "When a solver reports success, the returned point is optimal and feasible to the solver's tolerance.",
  ["inputs"], "every problem", "Numerical quality is a matter of the external solvers' floating point behaviour.",
  ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs"], ["SolverCbcCmd", "SolverClpCmd", "SolverIpopt"])
p("C29", "Differentiation and standardisation finish in reasonable time and stack",
  "Building, differentiating and standardising an expression takes time and stack that are acceptable for the size of the expression graph, also for heavily shared graphs.",
  ["inputs"], "every expression graph", "The number of paths and the recursion depth grow with the input.",
  ["src/model/node_diff.rs", "src/model/node_base.rs"], ["NodeDiff::all_simple_paths", "NodeBase::evaluate"])
p("C30", "A model and its elements keep exactly what they are given",
  "A new model has an empty objective, no constraints, no initial or final values, no duals and no status. Setting the objective replaces it, adding constraints appends them in the given order, setting initial values leaves exactly those of the last call, and none of these calls changes anything else the model holds. Objectives, constraints, variables and constants report exactly the expression, direction, sides, relation, label, name, kind and value they were made with, only constants are constant, and a solver status is equal only to itself and is shown by its own word.",
  ["inputs", "histories"], "every sequence of building calls and all arguments",
  "Tests build a few models and read back parts of them; that nothing is dropped, reordered, merged or normalised has to hold for every argument and every earlier state.",
  ["src/model/model.rs", "src/model/constraint.rs", "src/model/variable.rs", "src/model/constant.rs", "src/model/node.rs", "src/solver/base.rs"],
  ["Model::add_constraint", "Model::add_constraints", "Model::set_objective", "Model::set_init_primals", "Model::new", "Objective", "VariableScalar", "ConstantScalar"])
p("C31", "Solves running at the same time cannot interfere",
  "Every file a command-line solve writes, passes to the program, reads or removes has a random name of at least four characters made by that very solve, so that no other solve, in another thread or process, uses the same file. The library keeps no mutable global or thread-local state, and changes nothing of the process: not its environment, working directory, hooks or signal handling, and it never terminates it.",
  ["schedules", "inputs"], "every interleaving of solves in any number of threads and processes",
  "The tests run the solvers one at a time; a shared name or variable shows only under particular interleavings.",
  ["src/solver/cbc_cmd.rs", "src/solver/clp_cmd.rs", "src/solver/ipopt.rs"],
  ["SolverCbcCmd", "SolverClpCmd", "SolverIpopt"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
