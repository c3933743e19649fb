from fw import *
from events import *
from interp import FXROOT

EXPLAIN = ("Typestate over files: solve of each command-line solver is summarised with every operation that can fail as a decision "
           "(creating names, writing the problem file, starting and waiting for the program, reading the solution). On every combination "
           "of outcomes, each file the solver writes or names to the external program must be removed after its last use, and the "
           "program must have ended before.")
FLOOR = 4
SOLVERS = {"cbc": "<numopt::solver::cbc_cmd::SolverCbcCmd as numopt::solver::base::Solver>::solve",
           "clp": "<numopt::solver::clp_cmd::SolverClpCmd as numopt::solver::base::Solver>::solve"}
RULE = "every file created for or by the external program is removed after its last use, before solve returns"


def is_tmp(x):
    return x.op == "tmp"


def names(t):
    """file names built from a temporary name, inside an argument list"""
    out = []
    if t.op in ("tup", "seq", "elem"):
        for a in t.args:
            if isinstance(a, T):
                out += names(a)
    elif t.op == "comp":
        return out
    elif mentions(t, is_tmp):
        out.append(t)
    return out


def mentioned(t, known):
    """file names known from elsewhere, inside an argument list"""
    if t in known:
        return [t]
    out = []
    if t.op in ("tup", "seq", "elem"):
        for a in t.args:
            if isinstance(a, T):
                out += mentioned(a, known)
    return out


def left_over(evs, known=()):
    """files that may exist at the end of an event sequence"""
    files, running, why = {}, [], {}
    for e in evs:
        if e is None:
            return None
        op = e.args[0]
        if op in ("lpfile", "create"):
            files[e.args[-1]] = op
        elif op == "spawn":
            running.append(e.args[1])
            for n in names(e.args[1]) + mentioned(e.args[1], known):
                files[n] = "spawn"
        elif op == "wait":
            if e.args[1] in running:
                running.remove(e.args[1])
        elif op == "remove":
            if not running:
                files.pop(e.args[1], None)
    return [(n, files[n]) for n in files]


def run(c):
    for nm, key in SOLVERS.items():
        if key not in c.prog.fns:
            c.fail(nm, RULE, "?", "function %s not found (anchor missing)" % key)
            continue
        c.guarded(nm, RULE, lambda: solver(c, nm, key))
    for key in [k for k in c.prog.fns if k.endswith("::write_to_lp_file") and c.prog.fns[k].get("body")]:
        c.guarded("writer", "the problem file is the only file written", lambda: writer(c, key))
    for key in [k for k in c.prog.fns if k.endswith("::read_sol_file") and c.prog.fns[k].get("body")]:
        c.guarded("reader", "reading the solution creates no file", lambda: reader(c, key))


def solver(c, nm, key):
    I = analyse(c.prog, key, solver_policy(c.prog))
    c.ran(I)
    total = 0
    # files the solver reads or removes on some path are files the program may write
    known = set()
    for facts, (ret, fx) in paths([I.result, I.st[FXROOT]]):
        known |= {e.args[1] for e in events(fx) if e is not None and e.args[0] in ("solfile", "remove")}
    for facts, (ret, fx) in paths([I.result, I.st[FXROOT]]):
        total += 1
        f = failing(facts)
        what = "%s:%s" % (nm, "+".join(f) or "success")
        left = left_over(events(fx), known)
        if left is None or I.lost:
            c.undec(what, RULE, "effects in a loop or in a destructor are not tracked")
        elif left:
            c.fail(what, RULE, c.where(key), "%s (%s) is not removed when %s" % (show(left[0][0], 4), left[0][1], told(facts)))
        else:
            c.ok(what, RULE)
    if total == 0:
        c.fail(nm, RULE, c.where(key), "no exit found")


def writer(c, key):
    I = analyse(c.prog, key, {k: "opaque" for k in c.prog.fns if "::matrix::" in k})
    c.ran(I)
    rule = "the problem file is the only file written"
    n = 0
    for facts, (fx,) in paths([I.st[FXROOT]]):
        for e in events(fx):
            if e is not None and e.args[0] in ("create", "spawn"):
                n += 1
                if e.args[1] is not I.argterms[1]:
                    c.fail("writer", rule, c.where(key), "writes %s" % show(e.args[1], 4))
                    return
    for x in I.errexits:
        if x.fx is not None:
            for facts, (fx,) in paths([x.fx]):
                for e in events(fx):
                    if e is not None and e.args[0] in ("create", "spawn") and e.args[1] is not I.argterms[1]:
                        c.fail("writer", rule, c.where(key), "writes %s" % show(e.args[1], 4))
                        return
    c.expect("writer", rule, n > 0, c.where(key), "no file is created")


def reader(c, key):
    I = analyse(c.prog, key)
    c.ran(I)
    rule = "reading the solution creates no file"
    for facts, (fx,) in paths([I.st[FXROOT]]):
        for e in events(fx):
            if e is not None and e.args[0] in ("create", "spawn"):
                c.fail("reader", rule, c.where(key), "creates %s" % show(e.args[1], 4))
                return
    c.ok("reader", rule)
