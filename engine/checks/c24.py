from checks.ipopt_common import *

EXPLAIN = ("What the native solver is given and what is made of its answer: on every combination of outcomes of solve the arguments of the "
           "foreign calls are compared, as terms over the problem, with the required sizes, limits, options and starting point, and the "
           "result of the run with the required mapping of the return code and of the filled buffers; the foreign signatures are those "
           "of the C interface.")
FLOOR = 20

X, VOID, FN = "*f64", "*void", "->i32"
# the C interface of the library (IpStdCInterface.h)
CALL = {
    "f": "i32 *f64 i32 *f64 *void",
    "g": "i32 *f64 i32 i32 *f64 *void",
    "grad": "i32 *f64 i32 *f64 *void",
    "jac": "i32 *f64 i32 i32 i32 *i32 *i32 *f64 *void",
    "h": "i32 *f64 i32 f64 i32 *f64 i32 i32 *i32 *i32 *f64 *void",
}
ABI = {
    CREATE: ("i32 *f64 *f64 i32 *f64 *f64 i32 i32 i32 f g grad jac h", "handle"),
    FREE: ("handle", "()"),
    RUN: ("handle *f64 *f64 *f64 *f64 *f64 *f64 *void", "i32"),
    "AddIpoptIntOption": ("handle *i8 i32", "i32"),
    "AddIpoptStrOption": ("handle *i8 *i8", "i32"),
}


def run(c):
    if SOLVE not in c.prog.fns:
        c.fail("solve", "solve", "?", "function %s not found (anchor missing)" % SOLVE)
        return
    c.guarded("abi", "foreign signatures", lambda: abi(c))
    for k in ("Nlp", "Lp"):
        c.guarded(k, "data and answer", lambda: check(c, k))


def ctype(t):
    """a foreign type as C sees it"""
    s = t["s"].replace("unsafe ", "")
    for n, sig in CALL.items():
        if s.startswith("extern "):
            ins = s[s.index("(") + 1:s.rindex(") -> ")].split(", ")
            if " ".join(ctype({"s": x}) for x in ins) == sig and s.endswith("-> i32"):
                return "cb(%s)" % sig
    if s.startswith("*"):
        b = s.split(" ", 1)[1]
        return VOID if b.endswith("c_void") else "handle" if "Problem" in b else "*" + b
    return s


def abi(c):
    rule = "the foreign functions are declared as the C interface defines them"
    for x, f in c.prog.foreign.items():
        nm, T_ = x.split("::")[-1], f["types"]
        if nm not in ABI:
            continue
        ins, out = ABI[nm]
        want = ["cb(%s)" % CALL[a] if a in CALL else a for a in ins.split()]
        got = [ctype(T_[i]) for i in f["in"]]
        if want != got or ctype(T_[f["out"]]) != out:
            c.fail("abi:" + nm, rule, x, "declared as (%s) -> %s" % (", ".join(got), ctype(T_[f["out"]])))
        else:
            c.ok("abi:" + nm, rule)


def arg(e, i):
    """i-th argument of a foreign call; buffers by their contents"""
    a = e.args[2 + i]
    return a.args[0] if a.op == "vptr" else a


def text(t):
    """the text behind a C string pointer"""
    if t.op == "cptr" and t.args[0].op == "cstr":
        return t.args[0].args[0]
    return t


def when(facts, t):
    for k, v, p in facts:
        t = restrict(t, k, v, p)
    return t


def truth(facts, t):
    t = when(facts, t)
    return True if t is TRUE else False if t is FALSE else None


def parameter(s, name, facts):
    """value of a parameter under the facts; None if unusable"""
    t = when(facts, subst(analyse(s.prog, S + name).result, {analyse(s.prog, S + name).argterms[0]: s.I.argterms[0]}))
    if t.op == "adt" and t.args[1] == "Some":
        return t.args[3][0]
    return None


def check(c, k):
    s = Solve(c)
    s.prog = c.prog
    w = c.where(SOLVE)
    sizes = s.of(c, "sizes", k)
    ran = 0
    for n, (facts, (ret, fx)) in enumerate(s.paths(k)):
        evs = events(fx)
        at = "%s:exit %d" % (k, n + 1)
        if None in evs:
            c.undec(at, "data and answer", "effects in a loop")
            continue
        evs = [e for e in evs if ffi(e)]
        created = [e for e in evs if ffi(e, CREATE)]
        runs = [e for e in evs if ffi(e, RUN)]
        opts = [e for e in evs if str(e.args[1]).startswith("AddIpopt")]
        if created:
            data(c, s, k, at, w, when, facts, created[0], sizes)
        h = handle(created[0]) if created else None
        pl, sb = parameter(s, "print_level", facts), parameter(s, "sb", facts)
        bad = [e for e in opts if truth(facts, cmp(handle(e), ONE, "==", True)) is False]
        if not runs:
            rule = "the problem is solved unless it cannot be created or an option is unusable"
            reason = h is None or null_fact(facts, h) is not False or pl is None or sb is None or bad or \
                any(f[0] == "b" and f[1].op in ("cstrbad", "iofail", "hasnul") and f[2] for f in facts)
            c.expect(at + ":not run", rule, is_res(ret, "Err") and reason, w, "returns %s without solving when %s" % (show(ret, 3), told(facts)))
            continue
        ran += 1
        rule = "the problem is solved once, with the user's options accepted"
        before = [e for e in opts if evs.index(e) < evs.index(runs[0])]
        got = sorted(str_of(e) for e in before)
        want = sorted([opt_of("AddIpoptIntOption", "print_level", pl), opt_of("AddIpoptStrOption", "sb", sb)])
        c.expect(at + ":options", rule, len(runs) == 1 and got == want and len(before) == len(opts) and not bad and
                 all(truth(facts, cmp(handle(e), ONE, "==", True)) for e in opts) and all(e.args[2] is h for e in opts), w,
                 "options %s, wanted %s, refused %s" % (got, want, [str_of(e) for e in bad]))
        e = runs[0]
        start = when(facts, s.of(c, "start", k))
        rule = "the run starts at the problem's initial point, with room for all multipliers and the problem as its data"
        c.same(at + ":start", rule, arg(e, 1), start, w)
        for i, nm, ln in ((4, "constraint multipliers", sizes.args[1]), (5, "lower multipliers", sizes.args[0]), (6, "upper multipliers", sizes.args[0])):
            a = arg(e, i)
            if a.op == "nullptr":
                c.fail(at + ":" + nm, rule, w, "no buffer for the %s" % nm)
            else:
                c.same(at + ":" + nm, rule, seqlen(a), ln, w)
        for i in (2, 3):
            if arg(e, i).op != "nullptr":
                a = arg(e, i)
                c.same(at + ":out%d" % i, rule, seqlen(a), sizes.args[1] if i == 2 else ONE, w)
        d = arg(e, 7)
        c.expect(at + ":data", rule, d.op == "pval" and d.args[0] is when(facts, s.problem(k)), w, "user data is %s" % show(d, 4))
        rule = "the return code and the filled buffers are mapped to the status and the solution"
        vals = tup(*e.args[2:])
        outs = [app("ffiout", RUN, num(i), vals, arg(e, i)) for i in (1, 4, 5, 6)]
        ans = s.of(c, "answer", k, handle(e), *outs)
        ans = when(facts, s.frame(ans, k))
        c.same(at + ":answer", rule, ret, mk("adt", "core::result::Result", "Ok", ("0",), (ans,)), w,
               dom=when(facts, s.of(c, "consistent", k)))
    c.expect(k + ":runs", "solve solves the problem on some path", ran > 0, w, "no path solves the problem")


def str_of(e):
    return "%s(%s = %s)" % (e.args[1], show(text(e.args[3]), 9), show(text(e.args[4]), 9))


def opt_of(f, name, val):
    return "%s('%s' = %s)" % (f, name, show(val, 9) if val is not None else None)


def data(c, s, k, at, w, when, facts, e, sizes):
    rule = "the native problem is created from the problem's limits, sizes and nonzeros"
    zeros = s.of(c, "zeros", k)
    for i, nm, want in ((0, "variables", sizes.args[0]), (1, "lower limits", s.of(c, "lower", k)), (2, "upper limits", s.of(c, "upper", k)),
                        (3, "constraints", sizes.args[1]), (4, "constraint lower limits", zeros), (5, "constraint upper limits", zeros),
                        (6, "Jacobian nonzeros", sizes.args[2]), (7, "Hessian nonzeros", sizes.args[3]), (8, "index style", ZERO)):
        c.same("%s:%s" % (at, nm), rule, s.frame(arg(e, i), k), when(facts, want), w)
    for i in range(9, 14):
        c.expect("%s:callback %d" % (at, i - 8), rule, e.args[2 + i].op == "fnv", w, "not a function: %s" % show(e.args[2 + i], 3))
