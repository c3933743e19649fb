from fw import *
from interp import FXROOT
import models

EXPLAIN = ("write_to_lp_file is summarised as the text in the file when it is flushed, as a function of a symbolic problem, and compared "
           "with a reference text; every failing file operation is followed to what is returned. The row form of the matrix with "
           "entries at one place added up is taken from C16.")
FLOOR = 2
S = "numopt_spec::c17::"
WRITE = "<numopt::problem::milp::ProblemMilp as numopt::problem::milp::ProblemMilpIO>::write_to_lp_file"


def matrix_policy():
    def csr(I, f, a, e):
        return app("by rows", models.val(I, a[0]))

    def dedup(I, f, a, e):
        I.store(a[0], app("added up", models.val(I, a[0])))
        return UNIT
    return {"numopt::matrix::coo::CooMat::<T>::to_csr": csr, "numopt::matrix::csr::CsrMat::<T>::sum_duplicates": dedup}


def run(c):
    coo_invariant(c.prog)
    problem_invariant(c.prog)
    pol = matrix_policy()
    rule = "objective, rows, limits and integer variables are those of the problem, and the file is flushed"
    c.equiv("file", rule, S + "i_write", S + "s_write", policy=pol, what=("ret", "fx"), where=WRITE, post=done)
    c.guarded("failures", "failing file operations", lambda: failures(c, pol))


def done(t):
    """what is returned when no file operation fails"""
    def leaf(r):
        return adt(models.RES, "Ok", ("0",), (r.args[2],)) if r.op == "iores" else r
    return SQ._lift_nocache(leaf, t)


def failures(c, pol):
    if WRITE not in c.prog.fns:
        c.fail("failures", "writer", "?", "function %s not found (anchor missing)" % WRITE)
        return
    I = analyse(c.prog, WRITE, pol)
    c.ran(I)
    n = 0
    for x in I.errexits:
        what = str(x.event.args[0])
        n += 1
        c.expect("%s:%s" % (what, x.kind), "a failing file operation is reported as an error",
                 x.kind == "return" and is_err(x.ret), "%s in %s" % (x.span, x.key),
                 "the failure is not reported: %s %s" % (x.kind, show(x.ret, 3) if x.ret is not None else ""))
    if I.result.op == "iores":
        n += 1          # the outcome of the last operation is what is returned
    c.expect("operations", "writing the file can fail", n >= 1, c.where(WRITE), "%d failing operations" % n)


def is_err(t):
    if t is None:
        return False
    if t.op == "sw":
        return all(is_err(x) for x in t.args[3])
    return t is BOT or (t.op == "adt" and t.args[0] == "core::result::Result" and t.args[1] == "Err")
