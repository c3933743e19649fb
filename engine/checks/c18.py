from fw import *
from interp import FXROOT

EXPLAIN = ("read_sol_file is summarised as a function of the text of the file (words, splits and parses of its lines are uninterpreted "
           "functions of the line) and compared, for both solvers, with a reference reader; every failing file operation is followed to "
           "what is returned, and every possible panic is shown unreachable.")
FLOOR = 5
S = "numopt_spec::c18::"
READ = "numopt::solver::cbc_cmd::SolverCbcCmd::read_sol_file"


def run(c):
    rule = "status, values, reduced costs and duals are those the file states; malformed lines and foreign indices are errors"
    c.equiv("read", rule, S + "i_read", S + "s_read", panic="none", where=READ)
    c.guarded("failures", "failing file operations", lambda: failures(c))


def failures(c):
    if READ not in c.prog.fns:
        c.fail("failures", "reader", "?", "function %s not found (anchor missing)" % READ)
        return
    I = analyse(c.prog, READ)
    c.ran(I)
    w = c.where(READ)
    M = analyse(c.prog, S + "missing")
    missing = subst(M.result, {M.argterms[0]: I.argterms[1]})
    n = 0
    for x in I.errexits:
        what = str(x.event.args[0])
        at = "%s:%s" % (what, x.kind)
        n += 1
        if x.kind != "return":
            rule = "a failing file operation ends the reading"
            c.fail(at, rule, "%s in %s" % (x.span, x.key), "the failure is not handled: %s" % x.kind)
        elif what == "open":
            c.same(at, "a missing file gives the error status", x.ret, missing, w)
        else:
            rule = "a failure to read is an error"
            c.expect(at, rule, is_err(x.ret), "%s in %s" % (x.span, x.key), "returns %s" % show(x.ret, 3))
    c.expect("operations", "opening and reading can fail", n >= 3, w, "%d failing operations" % n)


def is_err(t):
    if t.op == "sw":
        return all(is_err(x) for x in t.args[3])
    return t is BOT or (t.op == "adt" and t.args[0] == "core::result::Result" and t.args[1] == "Err")
