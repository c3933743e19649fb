from checks.ipopt_common import *

EXPLAIN = ("The five callbacks handed to the native solver are summarised as functions of their arguments and of the foreign memory; "
           "where a callback accepts a call, everything it leaves in foreign memory and in the problem is compared, as terms, with a "
           "reference that writes the required function or derivative, for every combination of the new-x and new-multiplier flags.")
FLOOR = 15
SPEC = "numopt_spec::c22::"
SLOTS = ("eval_f", "eval_g", "eval_grad_f", "eval_jac_g", "eval_h")
DATA = ("phi", "gphi", "hphi", "f", "j", "h")


def callbacks(c):
    """keys of the callbacks handed to the native solver, by slot"""
    I = analyse(c.prog, SOLVE)
    c.ran(I)
    found = set()
    for e in subterms(I.st[FXROOT]):
        if isinstance(e, T) and e.op == "ev" and ffi(e, CREATE):
            found.add(tuple(e.args[2 + i] for i in range(9, 14)))
    return found


def run(c):
    coo_invariant(c.prog)
    problem_invariant(c.prog)
    if SOLVE not in c.prog.fns:
        c.fail("solve", "solve", "?", "function %s not found (anchor missing)" % SOLVE)
        return
    c.guarded("callbacks", "callbacks", lambda: check(c))


def check(c):
    found = callbacks(c)
    c.expect("callbacks", "solve hands five functions to the native solver", found and all(f.op == "fnv" for fs in found for f in fs),
             c.where(SOLVE), "found %s" % [[show(f, 2) for f in fs] for fs in found])
    for fs in found:
        for slot, f in zip(SLOTS, fs):
            if f.op == "fnv":
                c.guarded(slot, "callback", lambda: one(c, slot, f.args[0]))


def named(I, p):
    return {str(r.args[0]): v for r, v in I.st.items() if r.op == "root" and str(r.args[0]).startswith(p)}


def one(c, slot, key):
    I, S, D = analyse(c.prog, key, FITS), analyse(c.prog, SPEC + slot, FITS), analyse(c.prog, SPEC + "call_" + slot)
    c.ran(I)
    w = c.where(key)
    if I.lost or S.lost:
        c.undec(slot + ":effects", "what the callback leaves in foreign memory", "effect not followed: " + (I.lost + S.lost)[0])
        return
    dom = b_and(D.result, b_not(panics(S)))
    c.same(slot + ":accepted", "every call the library makes is accepted", I.result, ONE, w, dom=dom)
    rule = "what the callback leaves in foreign memory is the required function or derivative of the problem"
    mi, ms = named(I, "mem:"), named(S, "mem:")
    for nm in sorted(set(mi) | set(ms)):
        base = sym(nm.replace("mem:", "mem_"))
        c.same("%s:%s" % (slot, nm), rule, mi.get(nm, base), ms.get(nm, base), w, dom=dom)
    rule = "the problem is evaluated exactly when x is new and otherwise left as it is"
    oi, os_ = named(I, "obj:"), named(S, "obj:")
    c.expect(slot + ":object", rule, set(oi) == set(os_) and len(oi) == 1, w, "objects %s" % sorted(oi))
    for nm in sorted(set(oi) & set(os_)):
        for f in DATA:
            c.same("%s:%s" % (slot, f), rule, part(c, oi[nm], f), part(c, os_[nm], f), w, dom=dom)


def part(c, o, f):
    """a field of the problem's base"""
    return SQ._lift_nocache(lambda b: field(b, f), SQ._lift_nocache(lambda o: field(o, "base"), o))

