from fw import *
from interp import FXROOT
import models

EXPLAIN = ("eq, ne, hash, clone and the constructors of expressions and constraints are value-numbered with allocation and object "
           "address as primitives: equality has to be sameness of the shared object on every pair of variants, everything hashed has "
           "to be determined by that object, clones have to be the object, new variables, constants and constraints fresh ones. A type "
           "rule shows that no type reachable from them has interior mutability, and a block rule that no unsafe code goes around "
           "the immutability of shared references.")
FLOOR = 20
S = "numopt_spec::c05::"
NODE = "numopt::model::node::Node"
CON = "numopt::model::constraint::Constraint"
INNER = ("core::cell::", "core::sync::", "std::sync::", "alloc::sync::Weak", "alloc::rc::Weak", "alloc::rcs::rc::Weak", "parking_lot", "std::cell::")


def handle(ty):
    """a type whose address is not the address of the shared object"""
    s = ty or ""
    return "Rc<" in s.split("::<")[0][:80] and s.lstrip("&").strip().startswith(("alloc::", "std::rc", "Rc<")) or s.startswith("&") \
        or s in (NODE, CON)


def policy(prog):
    def fresh(I, f, a, e):
        return app("fresh", models.val(I, a[0]))

    def targ(I, f):
        a = f.get("a") or []
        ts = I.frames[-1].fn.get("types") or []
        try:
            return ts[a[0]]["s"]
        except (IndexError, TypeError, KeyError):
            return None

    def ptr_hash(I, f, a, e):
        I.event("hash", "handle" if handle(targ(I, f)) else "object", models.val(I, a[0]))
        return UNIT

    def ptr_eq(I, f, a, e):
        x, y = models.val(I, a[0]), models.val(I, a[1])
        if handle(targ(I, f)):
            return b_atom(app("same handle", x, y))
        return models.ptr_eq(x, y)

    def hash_(I, f, a, e):
        if (f.get("r") or f["p"]) in prog.fns:
            return NotImplemented
        I.event("hash", "value", models.val(I, a[0]))
        return UNIT

    def write(I, f, a, e):
        I.event("hash", "value", models.val(I, a[1]))
        return UNIT

    def tag(I, f, a, e):
        return app("tag", models.val(I, a[0]))
    pol = {"core::ptr::hash": ptr_hash, "core::ptr::eq": ptr_eq, "core::ptr::addr_eq": ptr_eq, "core::hash::Hash::hash": hash_,
           "core::mem::discriminant": tag, "core::intrinsics::discriminant_value": tag}
    for n in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "str"):
        pol["core::hash::Hasher::write_" + n] = write
    pol["core::hash::Hasher::write"] = write
    for p in ("alloc::rcs::rc::Rc::<T>::new", "alloc::rc::Rc::<T>::new"):
        pol[p] = fresh
    return pol


def run(c):
    pol = policy(c.prog)
    rule = "equal exactly when the same object"
    c.equiv("node eq", rule, S + "i_eq", S + "s_eq", policy=pol, what=("ret",), panic="none")
    c.equiv("node ne", rule, S + "i_ne", S + "s_eq", policy=pol, what=("ret",), panic="none")
    for t in (NODE, CON):
        c.guarded(t, "identity", lambda: one_type(c, t, pol))
    c.guarded("constructors", "fresh objects", lambda: constructors(c, pol))
    c.guarded("immutable", "immutability", lambda: immutable(c))


def method(c, t, trait, name):
    k = "<%s as %s>::%s" % (t, trait, name)
    if k not in c.prog.fns:
        c.fail("%s %s" % (t, name), "identity", "?", "function %s not found (anchor missing)" % k)
        return None
    return k


def one_type(c, t, pol):
    short = t.split("::")[-1]
    # equality
    if t == CON:
        for nm in ("eq", "ne"):
            k = "<%s as core::cmp::PartialEq>::%s" % (t, nm)
            if k not in c.prog.fns:
                if nm == "eq":
                    c.fail("Constraint eq", "identity", "?", "function %s not found (anchor missing)" % k)
                continue
            I = analyse(c.prog, k, pol)
            c.ran(I)
            a, b = (models.val(I, x) for x in I.argterms[:2])
            want = models.ptr_eq(field(a, "0"), field(b, "0"))
            c.same("Constraint " + nm, "equal exactly when the same object", I.result, want if nm == "eq" else b_not(want), c.where(k))
    # clone
    k = method(c, t, "core::clone::Clone", "clone")
    if k:
        I = analyse(c.prog, k, pol)
        c.ran(I)
        c.same(short + " clone", "a clone is the object itself", I.result, models.val(I, I.argterms[0]), c.where(k))
    # hash
    k = method(c, t, "core::hash::Hash", "hash")
    if k:
        I = analyse(c.prog, k, pol)
        c.ran(I)
        w = c.where(k)
        evs = [x for x in sub_events(I.st[FXROOT])]
        rule = "what is hashed is determined by the object"
        me = models.val(I, I.argterms[0])
        for i, e in enumerate(evs):
            if e.args[0] != "hash":
                continue
            c.expect("%s hash %d" % (short, i), rule, e.args[1] != "handle" and only(e.args[2], me), w,
                     "hashes %s %s" % (e.args[1], show(e.args[2], 3)))
        if I.unk:
            c.undec(short + " hash", rule, "not modelled: %s" % str(I.unk[0])[:200])
        c.expect("%s hash" % short, "hash does not panic", not [p for p in I.panics if p.cond is not FALSE], w, "may panic")


def sub_events(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ev":
            out.append(x)
            continue
        TM._push_children(x.args, st)
    return out


def only(t, me):
    """t is a function of `me` alone"""
    if not isinstance(t, T):
        return True
    for s in symbols(t):
        if s is not me:
            return False
    return True


def symbols(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("sym", "unk"):
            out.append(x)
        TM._push_children(x.args, st)
    return out


def constructors(c, pol):
    rule = "every new variable, constant and constraint is a new object"
    n = 0
    for k, f in sorted(c.prog.fns.items()):
        if not f.get("body") or "::tests::" in k:
            continue
        m = re.match(r"^numopt::model::(constant::ConstantScalar|variable::VariableScalar|constraint::Constraint)::(new\w*)$", k)
        if not m:
            continue
        n += 1
        I = analyse(c.prog, k, pol)
        c.ran(I)
        bad = [x for x in leaves(I.result) if not is_fresh(x)]
        if bad and any(weak(x) for x in bad):
            c.undec(k, rule, "not modelled: %s" % show(bad[0], 3)[:200])
        else:
            c.expect(k.split("model::")[1], rule, not bad, c.where(k), "returns %s" % (show(bad[0], 4)[:200] if bad else ""))
    c.expect("constructors", "the constructors are found", n >= 3, "src/model", "%d constructors" % n)


def leaves(t):
    if t.op == "sw":
        return [y for x in t.args[3] for y in leaves(x)]
    return [] if t is BOT else [t]


def is_fresh(x):
    """a handle of an object allocated here"""
    if x.op == "fresh":
        return True
    return x.op == "adt" and len(x.args[3]) == 1 and is_fresh(x.args[3][0])


def immutable(c):
    P = c.prog
    # types
    rule = "no type reachable from an expression or constraint can be changed through a shared reference"
    adts = P.adts
    todo, seen = [NODE, CON], set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        a = adts.get(p)
        if a is None:
            c.fail("type " + p, rule, "?", "type %s not found (anchor missing)" % p)
            continue
        types = a["types"]
        bad = []
        for v in a["variants"]:
            for fl in v["f"]:
                if fl["ty"] is None:
                    continue
                for q in inside(types, fl["ty"]):
                    if isinstance(q, tuple):
                        bad.append("%s: %s" % (fl["n"], q[1]))
                    elif q in adts and adts[q]["local"] and q.startswith("numopt::"):
                        todo.append(q)
        c.expect("type " + p.split("model::")[-1], rule, not bad, a["span"], "; ".join(bad))
    # code
    rule = "shared objects are only read"
    n = 0
    for k, f in sorted(P.fns.items()):
        if not k.replace("<", "").startswith("numopt::model") or not f.get("body"):
            continue
        n += 1
        bad = []
        for x in nodes_of(f["body"]):
            if x.get("k") == "Block" and x.get("b", {}).get("unsafe"):
                bad.append("unsafe block at %s" % x["b"].get("sp"))
        c.expect("code " + k, rule, not bad, c.where(k), "; ".join(bad)[:300])
    c.expect("code", "the functions of the model are found", n > 50, "src/model", "%d functions" % n)


def nodes_of(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if "k" in y:
                yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def inside(types, i, seen=None):
    """paths of the types a value of this type holds or shares"""
    seen = set() if seen is None else seen
    if i is None or i in seen:
        return
    seen.add(i)
    t = types[i]
    if t["k"] == "adt":
        if t["p"].startswith(INNER) or "::Weak" in t["p"]:
            yield ("interior", t["s"])
        yield t["p"]
    elif t["k"] in ("ptr", "ptrmut", "dyn", "fnptr", "refmut", "rawptr"):
        yield ("opaque", t["s"])
    for j in list(t.get("a") or []) + [t.get("t")]:
        if isinstance(j, int):
            yield from inside(types, j, seen)
