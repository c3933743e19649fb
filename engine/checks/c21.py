from checks.ipopt_common import *
from checks.c22 import callbacks, SLOTS
import terms as TM

EXPLAIN = ("Every access of a callback to foreign memory is an event with its pointer, offset and length; on every combination of the "
           "decisions of the callback, each access present there must go through a pointer known to be non-null and stay below the "
           "count the library announced, which must have been found equal to the problem's; the user data is used as the type solve "
           "passes; unsafe blocks, functions and impls are enumerated over the whole crate.")
FLOOR = 30
PROBLEM = "numopt::problem::nlp::ProblemNlp"

# slot -> number of entries behind each pointer argument: a constant or the argument that announces it
COUNTS = {
    "eval_f": {1: "a0", 3: 1, 4: 1},
    "eval_grad_f": {1: "a0", 3: "a0", 4: 1},
    "eval_g": {1: "a0", 4: "a3", 5: 1},
    "eval_jac_g": {1: "a0", 5: "a4", 6: "a4", 7: "a4", 8: 1},
    "eval_h": {1: "a0", 5: "a4", 8: "a7", 9: "a7", 10: "a7", 11: 1},
}
HOME = "numopt::solver::ipopt"


def run(c):
    problem_invariant(c.prog)
    coo_invariant(c.prog)
    c.guarded("unsafe", "unsafe code", lambda: unsafe(c))
    if SOLVE not in c.prog.fns:
        c.fail("solve", "solve", "?", "function %s not found (anchor missing)" % SOLVE)
        return
    c.guarded("callbacks", "foreign accesses", lambda: check(c))


def blocks(x):
    """unsafe blocks of a body"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get("unsafe") is True and "s" in y and "e" in y:
                yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def unsafe(c):
    rule = "no unsafe code outside the Ipopt interface"
    for key, f in sorted(c.prog.fns.items()):
        if f["crate"] != "numopt":
            continue
        n = len(list(blocks(f.get("body"))))
        if key.startswith(HOME) or key.startswith("<" + HOME):
            continue
        c.expect("unsafe:" + key, rule, n == 0 and not f.get("unsafe"), c.where(key), "%d unsafe blocks, unsafe fn: %s" % (n, f.get("unsafe")))
    for i in c.prog.impls:
        if i.get("unsafe"):
            c.fail("unsafe:impl", rule, str(i.get("span")), "unsafe impl %s" % i.get("trait"))
    for x, f in c.prog.foreign.items():
        c.expect("foreign:" + x.split("::")[-1], rule, x.startswith(HOME), x, "foreign function declared elsewhere")


def check(c):
    for fs in callbacks(c):
        for slot, f in zip(SLOTS, fs):
            if f.op == "fnv":
                c.guarded(slot, "foreign accesses", lambda: one(c, slot, f.args[0]))


def one(c, slot, key):
    I = analyse(c.prog, key, FITS)
    c.ran(I)
    w = c.where(key)
    if I.lost:
        c.undec(slot + ":accesses", "a foreign access is validated and within the announced count", "effect not followed: " + I.lost[0])
    count = {}
    for i, n in COUNTS[slot].items():
        p = I.argterms[i]
        count[p.args[0] if p.op == "pptr" else p] = num(n) if isinstance(n, int) else I.argterms[int(n[1:])]
    total = 0
    stop = panics(I)
    rule = "a foreign access is validated and within the announced count"
    for n, (facts, (ret, fx)) in enumerate(paths([I.result, I.st[FXROOT]])):
        at = "%s:path %d" % (slot, n + 1)
        dom = TRUE
        for kind, var, part in facts:
            dom = b_and(dom, fact(kind, var, part))
        m = announced(facts, I.argterms)
        seen = {}
        for what, bad in accesses(fx, count, facts):
            total += 1
            if bad is None:
                c.undec(at, rule, what)
                continue
            bad = settled(bad, facts, m)
            bad = b_and(bad, subst(dom, m) if m else dom)
            if bad is FALSE:
                c.ok("%s:%s" % (at, what), rule)
            elif weak(bad):
                c.undec("%s:%s" % (at, what), rule, "not modelled: %s" % show(bad, 3)[:200])
            elif not holds(b_and(bad, b_not(settled(stop, facts, m))), tuple(facts), [200]):
                c.undec("%s:%s" % (at, what), rule, "wrong only where the callback panics: %s" % show(bad, 3)[:200])
            else:
                c.fail("%s:%s" % (slot, what), rule, w, "%s is not validated or out of bounds (%s) when %s" % (what, show(bad, 4)[:200], told(facts)))
    c.expect(slot + ":accesses", "the callback reads and writes foreign memory", total > 0, w, "no access found")


def settled(t, facts, m):
    """a condition on a path of the callback"""
    t = keep(t)
    if m:
        t = subst(t, m)
    for f in facts:
        t = restrict(t, f[0], subst(f[1], m) if m and f[0] not in ("n", "ni") else f[1], f[2])
    return t


def announced(facts, args):
    """the arguments found equal to quantities of the problem"""
    m = {}
    for kind, var, part in facts:
        if kind not in ("n", "ni"):
            continue
        p = TM.point_of(kind, var, *part)
        if p is None:
            continue
        z = subst(sub(var, num(p)), m)
        for a in args:
            c = P(z).get(((a, 1),)) if z.op != "sw" else None
            if c is not None and abs(c) == 1:
                m = {k: subst(v, {a: mul(num(-1 / c), sub(z, mul(num(c), a)))}) for k, v in m.items()}
                m[a] = mul(num(-1 / c), sub(z, mul(num(c), a)))
                break
    return m


def fact(kind, var, part):
    if kind == "b":
        return var_is(var) if part else b_not(var_is(var))
    if kind in ("n", "ni"):
        lo, hi = part
        d = TRUE
        if lo is not None:
            d = b_and(d, b_not(node(kind, var, (lo,), (TRUE, FALSE))))
        if hi is not None:
            d = b_and(d, node(kind, var, (hi,), (TRUE, FALSE)))
        return d
    return TRUE


def var_is(v):
    return b_atom(v)


def keep(t):
    """evaluation fills vectors and matrices, it keeps their sizes"""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if isinstance(x, T) and x.op in ("len", "fld", "field") and sized(x):
                m[x] = sized(x)
        if not m:
            return t
        t = subst(t, m)
    return t


def sized(x):
    """len(applymut(k, f, a0, a1, ..)) and len(applymut(k, ..).row_inds) as of the k-th argument"""
    if x.op != "len":
        return None
    y, path = x.args[0], []
    while y.op == "proj" or (y.op in ("fld", "field") and isinstance(y.args[0], T)):
        path.append(y.args[1])
        y = y.args[0]
    if y.op != "applymut":
        return None
    z = y.args[2 + int(const_val(y.args[0]))]
    for f in reversed(path):
        z = field(z, f)
    return seqlen(z)


def accesses(t, count, facts):
    """(description, condition under which the access is wrong) of every event"""
    for p in segs(t):
        if p.op == "elem":
            yield from event(p.args[0], count)
        elif p.op == "comp":
            with opened(p, p.args[2]) as (s, b):
                for f in facts:
                    b = restrict(b, f[0], f[1], f[2])
                for what, bad in guarded_events(b, count, facts):
                    yield what, (None if bad is None else mkany(s, p.args[1], bad))
        else:
            yield "events in %s" % p.op, None


def guarded_events(b, count, facts):
    if b.op == "sw":
        kind, var, labels, ch = b.args
        for f2, (b2,) in paths([b]):
            g = TRUE
            for k, v, part in f2:
                g = b_and(g, fact(k, v, part))
            for what, bad in accesses(b2, count, facts):
                yield what, (None if bad is None else b_and(g, bad))
    else:
        yield from accesses(b, count, facts)


def event(e, count):
    if e.op == "sw":
        yield "access", None
        return
    kind = str(e.args[0])
    if kind == "cast":
        yield "user data", (FALSE if text_of(e.args[2]) == PROBLEM else TRUE)
        return
    if kind not in ("deref", "readn", "region"):
        return
    p, off = e.args[1], e.args[2]
    n = e.args[3] if kind != "deref" else ONE
    if p.op == "pmut" or p.op == "vptr":
        return
    c = count.get(p.args[0]) if p.op == "pptr" else None
    if c is None:
        yield "%s of %s" % (kind, show(p, 3)), None
        return
    bad = b_or(b_atom(mk("isnull", p)), b_or(cmp(off, ZERO, "<", True), cmp(add(off, n), c, ">", True)))
    yield "%s of argument %s" % ({"deref": "access", "readn": "read", "region": "write"}[kind], p.args[0]), bad


def text_of(t):
    return t.args[0] if t.op == "str" else show(t, 3)
