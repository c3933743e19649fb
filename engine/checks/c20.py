from fw import *
from events import *
from interp import FXROOT
from checks.c19 import SOLVERS

EXPLAIN = ("solve of every solver is summarised with every fallible operation as a decision. On each combination of problem class and "
           "outcomes: unsupported classes are refused before anything is written or run; the problem passed in (or its view) is what is "
           "written and read back; the program gets the file just written, the current log level and the solution file that is read; "
           "failures become errors and nothing else does; the result is the one read.")
FLOOR = 20
S = "numopt_spec::c20::"
IPOPT = "<numopt::solver::ipopt::SolverIpopt as numopt::solver::base::Solver>::solve"
CLASSES = ("Minlp", "Milp", "Lp", "Nlp")
ERR = "core::result::Result"


def run(c):
    for nm, key in SOLVERS.items():
        if key not in c.prog.fns:
            c.fail(nm, "solver", "?", "function %s not found (anchor missing)" % key)
        else:
            c.guarded(nm, "solver", lambda: solver(c, nm, key))
    if IPOPT not in c.prog.fns:
        c.fail("ipopt", "solver", "?", "function %s not found (anchor missing)" % IPOPT)
    else:
        c.guarded("ipopt", "unsupported classes are refused", lambda: ipopt(c))


def is_res(t, var):
    return t.op == "adt" and t.args[0] == ERR and t.args[1] == var


def at(facts, t):
    for k, v, p in facts:
        t = restrict(t, k, v, p)
    return t


def opt(t):
    """value of an Option term: (known, value or None)"""
    if t.op != "adt":
        return False, None
    return True, (t.args[3][0] if t.args[1] == "Some" else None)


def cls(facts, p):
    for k, v, part in facts:
        if k == "v" and v is p:
            return part
    return None


def solver(c, nm, key):
    I = analyse(c.prog, key, solver_policy(c.prog))
    c.ran(I)
    V = analyse(c.prog, S + nm + "_problem")
    L = analyse(c.prog, S + nm + "_level")
    A = analyse(c.prog, S + "args")
    w = c.where(key)
    seen = set()
    for facts, (ret, fx) in paths([I.result, I.st[FXROOT]]):
        evs = events(fx)
        k = None
        problem = deref_pair(I, at(facts, V.result), V)
        for kk in CLASSES:
            if any(f[0] == "v" and f[2] == kk and isinstance(f[1], T) and f[1].op == "sym" for f in facts):
                k = kk
        known, prob = opt(problem)
        lev_known, lev = opt(at(facts, L.result))
        fails = [f for f in failing(facts) if f != "remove"]
        loose = [f for f in failing(facts) if f == "remove"] or [f for f in facts if mentions(f[1], lambda x: x.op == "exit")]
        when = "%s:%s:%s" % (nm, k or "any", "+".join(failing(facts)) or "success")
        seen.add(k)
        if known and prob is None:
            r = "a problem of a class the solver cannot represent is refused before anything is written or run"
            c.expect(when, r, is_res(ret, "Err") and not any(e is None or e.args[0] in ("lpfile", "create", "spawn") for e in evs), w,
                     "class %s: returns %s" % (k, show(ret, 3)))
            continue
        if fails or (lev_known and lev is None):
            r = "a failure to write, run or read, or an unusable log level, is returned as an error"
            c.expect(when, r, is_res(ret, "Err"), w, "returns %s when %s" % (show(ret, 4), told(facts)))
            continue
        if not is_res(ret, "Ok"):
            if not loose and known and lev_known:
                c.fail(when, "a supported problem is solved when nothing fails", w, "returns %s when %s" % (show(ret, 4)[:300], told(facts)))
            else:
                c.ok(when, "not decided by this path")
            continue
        if not known or not lev_known:
            c.fail(when, "only supported problems with a usable log level are solved", w, "solved without looking at %s: %s" % (
                "the problem class" if not known else "the log level", told(facts)))
            continue
        main(c, when, w, nm, ret, evs, prob, lev, A)
    for kk in CLASSES:
        c.expect("%s:class %s" % (nm, kk), "every problem class is decided", kk in seen or None in seen, w, "class %s is not considered" % kk)


def deref_pair(I, t, V):
    return SQ._lift_nocache(lambda x: deref1(V, x), t)


def deref1(V, x):
    if x.op == "adt" and x.args[1] == "Some":
        v = x.args[3][0]
        return some(V.load(v) if v.op == "mref" else v)
    return x


def main(c, when, w, nm, ret, evs, prob, lev, A):
    rule = "the problem passed in is written, the program is run on that file with the current log level, and the solution it wrote is read back"
    if None in evs:
        c.undec(when, rule, "effects in a loop")
        return
    seq = [e for e in evs if e.args[0] in ("lpfile", "spawn", "wait", "solfile", "ffi")]
    kinds = [e.args[0] for e in seq]
    if kinds != ["lpfile", "spawn", "wait", "solfile"]:
        c.fail(when, rule, w, "steps taken: %s" % kinds)
        return
    lp, sp, wt, so = seq
    f_in, f_out = lp.args[2], so.args[1]
    want = subst(A.result, dict(zip(A.argterms, (f_in, lev, f_out))))
    removed = [i for i, e in enumerate(evs) if e.args[0] == "remove" and e.args[1] is f_in]
    removed_out = [i for i, e in enumerate(evs) if e.args[0] == "remove" and e.args[1] is f_out]
    pos = {id(e): i for i, e in enumerate(evs)}
    bad = None
    if lp.args[1] is not prob:
        bad = "the problem written is %s, not %s" % (show(lp.args[1], 4), show(prob, 4))
    elif so.args[2] is not prob:
        bad = "the solution is read against %s, not %s" % (show(so.args[2], 4), show(prob, 4))
    elif sp.args[1].args[0] is not string(nm):
        bad = "the program run is %s" % show(sp.args[1].args[0], 3)
    elif sp.args[1].args[1] is not want:
        bad = "the program's arguments are %s, required %s" % (show(sp.args[1].args[1], 6), show(want, 6))
    elif f_in is f_out:
        bad = "problem and solution file have the same name"
    elif not mentions(f_in, lambda x: x.op == "tmp") or not mentions(f_out, lambda x: x.op == "tmp"):
        bad = "a file name is not a fresh temporary name"
    elif so.args[3] is not (TRUE if nm == "cbc" else FALSE):
        bad = "the solution file is read with the conventions of another solver"
    elif any(i < pos[id(wt)] for i in removed):
        bad = "the problem file is removed before the program has ended"
    elif any(i < pos[id(so)] for i in removed_out):
        bad = "the solution file is removed before it is read"
    if bad:
        c.fail(when, rule, w, bad)
        return
    c.ok(when, rule)
    rule = "the result is the status and the solution read"
    calls = [x for x in subterms(ret) if isinstance(x, T) and x.op == "call" and x.args[0].endswith("::read_sol_file")]
    v = ret.args[3][0]
    if len(calls) != 1:
        c.fail(when + ":result", rule, w, "returns %s" % show(ret, 5)[:300])
        return
    r = vfield(calls[0], "Ok", "0")
    want = tup(field(r, "0"), field(r, "1"))
    good = v is r or v is want
    c.expect(when + ":result", rule, good, w, "returns %s" % show(ret, 5)[:300])


def ipopt(c):
    I = analyse(c.prog, IPOPT)
    c.ran(I)
    V = analyse(c.prog, S + "ipopt_problem")
    w = c.where(IPOPT)
    rule = "a problem of a class the solver cannot represent is refused before the library is called"
    for k in ("Minlp", "Milp"):
        p = sym("p1")
        bad = None
        n = 0
        for facts, (ret, fx) in paths([restrict(I.result, "v", p, k), restrict(I.st[FXROOT], "v", p, k)]):
            n += 1
            if not is_res(ret, "Err") or fx is not EMPTY:
                bad = "returns %s" % show(ret, 3)[:300]
        c.expect("ipopt:" + k, rule, n > 0 and bad is None, w, bad or "no exit")
    for k in ("Nlp", "Lp"):
        p = sym("p1")
        r = restrict(I.result, "v", p, k)
        n = sum(1 for x in subterms(r) if isinstance(x, T) and x.op == "adt" and x.args[0] == ERR and x.args[1] == "Ok")
        c.expect("ipopt:" + k, "supported problems are solved", n > 0, w, "never solved")
