"""Analyse one function on symbolic arguments."""
import sys, json
sys.path.insert(0, "/verif/engine")
from interp import *
import interp as IP, models
from terms import *
from seqs import *


def sym_arg(I, types, t, name):
    ty = types[t]
    if ty["k"] == "refmut":
        inner = types[ty["t"]]
        return mk("mref", I.newroot(sym_val(I, types, ty["t"], name)))
    return sym_val(I, types, t, name)


def sym_val(I, types, t, name):
    ty = types[t]
    while ty["k"] == "ref":
        ty = types[ty["t"]]
    if ty["k"] in ("ptr", "ptrmut"):
        return mk("pptr", name)
    if ty["k"] == "tuple":
        return tup(*[sym_val(I, types, a, "%s.%d" % (name, i)) for i, a in enumerate(ty.get("a", []))])
    x = sym(name)
    if ty["k"] == "prim" and ty["s"] == "usize":
        NONNEG.add(x)
    return x


def analyse(prog, key, policy=None, args=None):
    I = Interp(prog, policy)
    fn = prog.fns[key]
    ps = fn["body"]["params"]
    a = []
    for i, p in enumerate(ps):
        nm = pname(p, i)
        a.append(args[i] if args and i < len(args) and args[i] is not None else sym_arg(I, fn["types"], p["ty"], nm))
    I.argterms = a
    try:
        I.result = I.run_fn(key, a)
    except Dead:
        I.result = BOT
    return I


def pname(p, i):
    if p.get("self"):
        return "self"
    return "a%d" % i


if __name__ == "__main__":
    prog = Program(["/tmp/w/dump2/numopt.json"])
    sub_ = sys.argv[1]
    depth = int(sys.argv[2]) if len(sys.argv) > 2 else 8
    for k in prog.fns:
        if sub_ in k and prog.fns[k].get("body"):
            I = analyse(prog, k)
            print("==", k)
            print("  ret", show(I.result, depth))
            for a in I.argterms:
                if a.op == "mref":
                    print("  out", a.args[0].args[0], "=", show(I.load(a), depth))
            if I.st[FXROOT] is not EMPTY:
                print("  fx", show(I.st[FXROOT], depth))
            for p in I.panics:
                print("  panic", p.cls, show(p.cond, 5))
            for u in I.unk:
                print("  UNK", u)
