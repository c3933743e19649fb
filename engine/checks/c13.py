from fw import *
import models

EXPLAIN = ("Model::solve is summarised for a symbolic model, an arbitrary earlier result, an arbitrary standard problem and an arbitrary "
           "answer of the solver; what the accessors then report is compared with a reference that maps the answer back, for success "
           "and for failure.")
S = "numopt_spec::c13::"
FLOOR = 2
MODEL = "numopt::model::model::Model::"


def std_of_contents(prog):
    """the standard problem as a function of the objective, the constraints
    and the initial values (C08-C12), whatever results the model holds"""
    views = []
    for g in ("objective", "constraints", "init_primals"):
        I = analyse(prog, MODEL + g)
        views.append((I.argterms[0], models.val(I, I.result)))

    def std(I, f, a, e):
        m = models.val(I, a[0])
        return app("standard problem", *[subst(v, {p: m}) for p, v in views])

    def solve(I, f, a, e):
        p = models.val(I, a[1])
        I.store(a[1], app("used", models.val(I, a[0]), p))
        return app("answer", models.val(I, a[0]), p)
    pol = {q: std for q in prog.fns if q.endswith("::std_problem")}
    pol["numopt::solver::base::Solver::solve"] = solve
    return pol


def any_error(t):
    """errors are not told apart"""
    def leaf(r):
        if r.op == "tup":
            return tup(leaf(r.args[0]), *r.args[1:])
        if r.op == "sw":
            return SQ._lift_nocache(leaf, r)
        return r if r is BOT else ite(models.is_ok(r), adt(models.RES, "Ok", ("0",), (models.payload("R", r),)), models.ERRT)
    return SQ._lift_nocache(leaf, t)


def run(c):
    coo_invariant(c.prog)
    pol = std_of_contents(c.prog)
    c.equiv("report", "status, final values and duals are the solver's, or nothing when it fails", S + "i_report", S + "s_report",
            policy=pol, what=("ret", "fx"), post=any_error, alt=(S + "s_report_lu",))
    c.equiv("frame", "solving leaves constraints and initial values alone", S + "i_frame", S + "s_frame", policy=pol, what=("ret",), panic="free")
