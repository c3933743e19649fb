from fw import *
from events import *
from interp import FXROOT
from checks.c05 import nodes_of, INNER
from checks.c19 import SOLVERS, names

EXPLAIN = ("Provenance of file names: on every combination of outcomes of solve of the command-line solvers, each file written, passed to "
           "the program, read or removed must carry a random name made by this very call, never a name another solve could use. Effect "
           "rule over all functions of the crate: no static or thread-local that can change (initialise-once values apart), and no call that changes the process "
           "(environment, working directory, hooks, termination).")
FLOOR = 6
NAME = "every file used by a solve has a random name of its own"
KEEP = {"path", "fname", "fmt", "text", "str"}
GLOBAL = ["std::env::set_var", "std::env::remove_var", "std::env::set_current_dir", "std::process::exit", "std::process::abort",
          "std::panic::set_hook", "std::panic::take_hook", "std::intrinsics::abort", "std::alloc::set_alloc_error_hook"]
FOREIGN = {"chdir", "setenv", "putenv", "unsetenv", "exit", "_exit", "abort", "signal", "setlocale", "dup2", "close", "kill", "umask", "sigaction"}
SHARED = "no state is shared between solves"
PROCESS = "nothing of the process is changed"


def origin(t):
    """how the random part of a name gets there: (whole random names, values of unknown origin)"""
    tmps, other = set(), set()

    def go(x, whole):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                for y in x:
                    go(y, whole)
            return
        if x.op == "tmp":
            if whole:
                tmps.add(x)
            else:
                other.add(x)
            return
        if x.op in ("sym", "call", "unk", "ev", "param"):
            other.add(x)
            return
        keep = x.op in KEEP or x.op in ("seq", "elem", "tup", "app")
        for y in x.args:
            go(y, whole and keep)
    go(t, True)
    return tmps, other


def fixed(x):
    """values equal in two solves that run at the same time"""
    return x.op in ("sym", "param") or x.op in ("call", "unk") and "process::id" in str(x.args[0])


def solver(c, nm, key):
    I = analyse(c.prog, key, solver_policy(c.prog))
    c.ran(I)
    w = c.where(key)
    n = 0
    for facts, (ret, fx) in paths([I.result, I.st[FXROOT]]):
        evs = events(fx)
        what = "%s:%s" % (nm, "+".join(failing(facts)) or "success")
        if None in evs:
            c.undec(what, NAME, "effects in a loop are not tracked")
            continue
        used = {}
        for e in evs:
            op = e.args[0]
            if op == "lpfile":
                used[e.args[-1]] = "the problem file written"
            elif op == "solfile":
                used[e.args[1]] = "the solution file read"
            elif op == "create":
                used[e.args[1]] = "a file written"
            elif op == "remove":
                used[e.args[1]] = "a file removed"
            elif op == "spawn":
                for x in names(e.args[1]):
                    used.setdefault(x, "a file passed to the program")
        for x, role in used.items():
            n += 1
            tmps, other = origin(x)
            weak = [t for t in tmps if len(t.args) > 3 and any(t.args[3] is num(k) for k in range(4))]
            if weak:
                c.fail(what, NAME, w, "%s, %s, has too few random characters" % (role, show(x, 5)[:200]))
            elif tmps:
                c.ok(what, NAME)
            elif all(fixed(y) for y in other):
                c.fail(what, NAME, w, "%s, %s, can be the file of another solve" % (role, show(x, 5)[:200]))
            else:
                c.undec(what, NAME, "origin of %s" % show(x, 5)[:200])
    c.expect(nm, "the solver uses files", n > 0, w, "no file is used")


ONCE = ("OnceLock", "LazyLock", "OnceCell", "LazyCell", "lazy::Lazy", "Lazy")


def changeable(types, i, seen=None):
    """can a value of this type change after it has been initialised?"""
    seen = set() if seen is None else seen
    if i is None or i in seen:
        return False
    seen.add(i)
    t = types[i]
    if t["k"] == "adt":
        p = t["p"]
        if p.split("::")[-1] in ONCE:
            return any(changeable(types, j, seen) for j in t.get("a") or [])
        if p.startswith(INNER):
            return True
    return any(changeable(types, j, seen) for j in list(t.get("a") or []) + [t.get("t")] if isinstance(j, int))


def statics(c):
    P = c.prog
    n = 0
    for k, f in sorted(P.fns.items()):
        if f.get("crate", "numopt") != "numopt" or not k.replace("<", "").startswith("numopt::") or not f.get("body"):
            continue
        n += 1
        bad, glob = [], []
        for x in nodes_of(f["body"]):
            kk = x.get("k")
            if kk == "ThreadLocal":
                bad.append("thread local %s" % x.get("p"))
            elif kk in ("Static", "Const") and x.get("ty") is not None:
                t = f["types"][x["ty"]]
                if kk == "Static" and t["k"] in ("ptrmut", "ptr"):
                    bad.append("mutable static %s" % x.get("p"))
                elif t.get("p", "").endswith("LocalKey") or kk == "Static" and changeable(f["types"], x["ty"]):
                    bad.append("%s can change" % x.get("p"))
            g = x.get("f")
            if isinstance(g, dict):
                p = g.get("p", "")
                if any(p == q or p.endswith(q[3:]) for q in GLOBAL) or g.get("crate") == "libc" and p.split("::")[-1] in FOREIGN:
                    glob.append(p)
        c.expect("state " + k, SHARED, not bad, c.where(k), "; ".join(bad))
        c.expect("process " + k, PROCESS, not glob, c.where(k), "calls " + ", ".join(glob))
    c.expect("code", "the functions of the crate are found", n > 100, "src", "%d functions" % n)


def run(c):
    for nm, key in SOLVERS.items():
        if key not in c.prog.fns:
            c.fail(nm, NAME, "?", "function %s not found (anchor missing)" % key)
            continue
        c.guarded(nm, NAME, lambda: solver(c, nm, key))
    c.guarded("state", SHARED, lambda: statics(c))
