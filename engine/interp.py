"""Dataflow over the typed THIR of a crate: every expression is mapped to a
canonical value term (terms.py / seqs.py), both sides of every branch are
joined by a decision node, and every loop is replaced by a closed summary
(loops.py).  No path is enumerated and nothing is executed."""
import json
import re
from fractions import Fraction as Fr
from terms import *
import terms as TM
from seqs import *
import seqs as SQ


class Dead(Exception):
    pass


class Unmodelled(Exception):
    pass


INTS = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}

EXTERNAL_ENUMS = {
    "core::option::Option": ("None", "Some"),
    "core::result::Result": ("Ok", "Err"),
    "core::ops::control_flow::ControlFlow": ("Continue", "Break"),
    "core::cmp::Ordering": ("Less", "Equal", "Greater"),
}


def extreme(p):
    """the largest or smallest value of a primitive type"""
    m = re.search(r"\b(f64|[iu](?:8|16|32|64|size))>?::(MAX|MIN|max_value|min_value)$", p)
    if m is None:
        return None
    t, hi = m.group(1), m.group(2).lower().startswith("max")
    if t == "f64":
        v = Fr(float.fromhex("0x1.fffffffffffffp+1023"))
        return num(v if hi else -v)
    n = 64 if t.endswith("size") else int(t[1:])
    if t[0] == "u":
        return num(2 ** n - 1) if hi else ZERO
    return num(2 ** (n - 1) - 1) if hi else num(-2 ** (n - 1))


def norm(p):
    """strip generic arguments from a path"""
    out, d, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == "<":
            if d == 0 and p.startswith("<impl ", i):
                pass
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


def foreign_init(root):
    """initial contents of foreign memory, None for other storage"""
    nm = str(root.args[0]) if root.op == "root" else ""
    return sym(nm[:3] + "_" + nm[4:]) if nm[:4] in ("mem:", "obj:") else None


class Program:
    """All function bodies and type declarations of the analysed crates."""

    def __init__(self, files):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.foreign = {}
        self.traits = {}
        self.crates = []
        for f in files:
            d = json.load(open(f))
            self.crates.append(d)
            types = d["types"]
            for fn in d["fns"]:
                fn["types"] = types
                fn["crate"] = d["crate"]
                self.fns[fn["key"]] = fn
            for a in d["adts"]:
                a["types"] = types
                if a.get("local", True) or a["p"] not in self.adts:
                    self.adts[a["p"]] = a
            for i in d["impls"]:
                i["types"] = types
                self.impls.append(i)
            for x in d["foreign"]:
                x["types"] = types
                self.foreign[x.get("key") or x.get("p")] = x
            for t in d["traits"]:
                self.traits[t.get("p")] = t
        self.enums = {}
        self.structs = {}
        self.variants = {(OPT, "Some"): ("0",), (RES, "Ok"): ("0",), (RES, "Err"): ("0",)}     # the fields of each case
        for p, a in self.adts.items():
            if a["kind"] == "enum":
                for v in a["variants"]:
                    self.variants[p, v["n"]] = tuple(f["n"] if isinstance(f, dict) else f for f in v["f"])
                self.enums[p] = tuple(v["n"] for v in a["variants"])
            elif a["variants"]:
                self.structs[p] = tuple(f["n"] if isinstance(f, dict) else f for f in a["variants"][0]["f"])
        for p, v in EXTERNAL_ENUMS.items():
            self.enums[p] = v
        TM.STRUCTS.update({p: f for p, f in self.structs.items()})
        self.drops = {}         # destructors of the crate's own types
        for q in self.fns:
            m = re.match(r"^<(.*) as core::ops::drop::Drop>::drop$", q)
            if m:
                self.drops[m.group(1).split("<")[0]] = q
        # field names that hold an unsigned integer, a sequence or a tuple of them in every type that has the name
        kinds = {}
        for p, a in self.adts.items():
            for v in a["variants"]:
                for f in v["f"]:
                    if isinstance(f, dict) and f.get("ty") is not None:
                        kinds.setdefault(f["n"], set()).add(unsigned_shape(a["types"], f["ty"]))
        TM.UNSIGNED.update({n: next(iter(k)) for n, k in kinds.items() if len(k) == 1 and next(iter(k))})


def unsigned_shape(types, t):
    """"int" for an unsigned integer, "seq" for a vector or slice of them, "tup" for a tuple of them."""
    ty = types[t]
    while ty["k"] in ("ref", "refmut"):
        ty = types[ty["t"]]
    if ty["k"] == "prim":
        return "int" if ty["s"] in ("usize", "u8", "u16", "u32", "u64") else None
    if ty["k"] == "adt" and ty["p"].endswith("vec::Vec") or ty["k"] == "slice":
        el = ty["a"][0] if ty.get("a") else ty.get("t")
        return "seq" if el is not None and unsigned_shape(types, el) == "int" else None
    if ty["k"] == "tuple" and ty.get("a"):
        return "tup" if all(unsigned_shape(types, x) == "int" for x in ty["a"]) else None
    return None


def ty_s(types, i):
    return types[i]["s"] if i is not None else "?"


class Clo:
    def __init__(self, body, env, fn, path):
        self.body, self.env, self.fn, self.path = body, env, fn, path


def moved(body, i):
    """is the local used other than by borrowing it, reading its fields or
    dropping it?"""
    def walk(e, parent):
        if isinstance(e, list):
            return any(walk(x, parent) for x in e)
        if not isinstance(e, dict):
            return False
        k = e.get("k")
        if k == "Var" and e.get("id") == i:
            return parent not in ("Field", "Borrow", "Deref", "RawBorrow", "drop")
        if k == "Call" and (e.get("f") or {}).get("name") in ("drop", "forget"):
            k = "drop"
        return any(walk(x, parent if k in ("Scope", "Use", None) else k) for x in e.values() if isinstance(x, (dict, list)))
    return walk(body, None)


class Frame:
    def __init__(self, fn, types):
        self.fn = fn
        self.types = types
        self.env = {}
        self.rets = []
        self.loops = []
        self.tmap = {}
        self.guards = []        # locals whose type has a destructor, in order of their declaration


class Panic:
    def __init__(self, cond, cls, span, key, detail=None):
        self.cond, self.cls, self.span, self.key, self.detail = cond, cls, span, key, detail


class ErrExit:
    def __init__(self, event, kind, ret, fx, span, key):
        self.event, self.kind, self.ret, self.fx, self.span, self.key = event, kind, ret, fx, span, key


FXROOT = mk("root", "fx")


DEADV = object()


class Interp:
    def __init__(self, prog, policy=None):
        self.prog = prog
        self.policy = policy or {}
        self.st = {FXROOT: EMPTY}
        self.pc = TRUE
        self.outer = [TRUE]
        self.frames = []
        self.panics = []
        self.errexits = []
        self.clos = []
        self.nroot = 0
        self.stack = []
        self.visited = {}
        self.unk = []
        self.lost = []
        self.calls = []
        self.loopctx = []
        self.sidepath = None
        self.record = True

    # ------------------------------------------------------------ state
    def newroot(self, v, name=None):
        self.nroot += 1
        r = mk("root", name or ("r%d" % self.nroot))
        self.st[r] = v
        return r

    def unknown(self, why, *deps):
        sp = self.cursp if hasattr(self, "cursp") else "?"
        self.unk.append((why, sp, self.frames[-1].fn["key"] if self.frames else "?"))
        if why.startswith(("store to", "assignment target", "jump outside", "binding pattern")):
            self.lost.append(why)
        return app("unk", why, *[d for d in deps if isinstance(d, T)])

    def load(self, m):
        def leaf(m):
            if m is BOT:
                return BOT
            if m.op != "mref":
                return m           # value where a place was expected
            v = self.st.get(m.args[0])
            if v is None:
                return BOT
            return self.getpath(v, m.args[1:])
        return SQ._lift_nocache(leaf, m)

    def getpath(self, v, path):
        for s in path:
            k = s[0]
            if v.op == "mref" or (v.op == "sw" and has_mref(v)):
                v = self.load(v)
            if k == "f":
                v = field(v, s[1])
            elif k == "v":
                v = vfield(v, s[1], s[2])
            elif k == "i":
                v = idx(v, s[1])
            elif k == "m":
                v = mval(v, s[1])
            elif k == "s":
                v = slice_(v, s[1], s[2])
        return v

    def setpath(self, v, path, x):
        if not path:
            return x
        s = path[0]
        k = s[0]
        rest = path[1:]

        def leaf(v):
            if v is BOT:
                return BOT
            if k == "f":
                name, ap = s[1], s[2]
                if v.op == "adt":
                    i = v.args[2].index(name)
                    vals = list(v.args[3])
                    vals[i] = self.setpath(vals[i], rest, x)
                    return adt(v.args[0], v.args[1], v.args[2], vals)
                if v.op == "tup":
                    vals = list(v.args)
                    vals[int(name)] = self.setpath(vals[int(name)], rest, x)
                    return mk("tup", *vals)
                if isinstance(ap, int):
                    vals = [field(v, str(i)) for i in range(ap)]
                    vals[int(name)] = self.setpath(vals[int(name)], rest, x)
                    return mk("tup", *vals)
                names = self.prog.structs.get(ap)
                if names is None:
                    return app("setf", v, name, self.setpath(field(v, name), rest, x))
                vals = [self.setpath(field(v, n), rest, x) if n == name else field(v, n) for n in names]
                return adt(ap, ap.split("::")[-1], names, vals)
            if k == "v":
                if v.op == "adt":
                    if v.args[1] != s[1]:
                        return BOT
                    i = v.args[2].index(s[2])
                    vals = list(v.args[3])
                    vals[i] = self.setpath(vals[i], rest, x)
                    return adt(v.args[0], v.args[1], v.args[2], vals)
                if self.prog.variants.get((s[3], s[1])) == (s[2],):
                    # the only field of the case: nothing of the old value is left
                    return adt(s[3], s[1], (s[2],), (self.setpath(vfield(v, s[1], s[2]), rest, x),))
                return setv(v, s[1], s[2], self.setpath(vfield(v, s[1], s[2]), rest, x))
            if k == "i":
                return aset(v, s[1], self.setpath(idx(v, s[1]), rest, x))
            if k == "m":
                return mset(v, s[1], self.setpath(mval(v, s[1]), rest, x))
            if k == "s":
                old = slice_(v, s[1], s[2])
                new = self.setpath(old, rest, x)
                return concat(slice_(v, ZERO, s[1]), new, slice_(v, s[2], seqlen(v)))
            raise AssertionError(s)
        return SQ._lift_nocache(leaf, v)

    def store(self, m, x):
        if m is BOT:
            return
        if m.op == "sw":
            base = self.st
            sts = []
            for c in m.args[3]:
                self.st = dict(base)
                self.store(c, x)
                sts.append(self.st)
            out = {}
            for r in base:
                out[r] = switch(m.args[0], m.args[1], m.args[2], tuple(s[r] for s in sts))
            self.st = out
            return
        if m.op != "mref":
            self.unknown("store to non-place %s" % m.op)
            return
        r = m.args[0]
        v = self.st.get(r, BOT)
        path = m.args[1:]
        # a path that leads through a stored reference writes there
        for i in range(len(path)):
            w = self.getpath(v, path[:i])
            if w.op == "mref" or (w.op == "sw" and has_mref(w)):
                self.store(self.extend(w, *path[i:]), x)
                return
        self.st[r] = self.setpath(v, path, x)

    def extend(self, m, *steps):
        return SQ._lift_nocache(lambda l: mk("mref", *(l.args + steps)) if l.op == "mref" else l, m)

    def event(self, *a):
        self.st[FXROOT] = concat(self.st[FXROOT], seq_of(app("ev", *a)))

    # ------------------------------------------------------------ branches
    def branch(self, c, f, g):
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        if c is BOT:
            raise Dead()
        st0, pc0 = self.st, self.pc
        c1 = b_and(pc0, c)
        if c1 is FALSE:
            return g()
        c2 = b_and(pc0, b_not(c))
        if c2 is FALSE:
            return f()
        self.st, self.pc = dict(st0), c1
        try:
            v1 = f()
            s1, p1 = self.st, self.pc
        except Dead:
            v1 = DEADV
        self.st, self.pc = dict(st0), c2
        try:
            v2 = g()
            s2, p2 = self.st, self.pc
        except Dead:
            v2 = DEADV
        if v1 is DEADV and v2 is DEADV:
            raise Dead()
        if v1 is DEADV:
            self.st, self.pc = s2, p2
            return v2
        if v2 is DEADV:
            self.st, self.pc = s1, p1
            return v1
        self.st = self.merge(c, s1, s2)
        self.pc = pc0 if (p1 is c1 and p2 is c2) else b_or(p1, p2)
        if v1 is None and v2 is None:
            return None
        return ite(c, v1, v2)

    def merge(self, c, s1, s2):
        if s1 is s2:
            return s1
        out = dict(s1)
        for r, v in s2.items():
            w = out.get(r)
            if w is None:
                w = foreign_init(r)
            if w is None:
                out[r] = v
            elif w is not v:
                out[r] = ite(c, w, v)
        for r, w in s1.items():
            if r not in s2:
                v = foreign_init(r)
                if v is not None and w is not v:
                    out[r] = ite(c, w, v)
        return out

    # ------------------------------------------------------------ io results
    def is_io(self, v):
        if v.op == "iores":
            return True
        if v.op == "sw":
            return any(self.is_io(c) for c in v.args[3])
        return False

    def io_ok(self, v):
        def leaf(x):
            if x.op == "iores":
                k = x.args[0]
                return {"R": ok, "C": lambda y: mk("adt", "core::ops::control_flow::ControlFlow", "Continue", ("0",), (y,)), "O": some}[k](x.args[2])
            return x
        return SQ._lift_nocache(leaf, v)

    def io_err(self, v, total=False):
        """the value if its operations fail; with `total`, only where it has one"""
        def leaf(x):
            if x.op == "iores":
                k = x.args[0]
                return {"R": ERRT, "C": mk("adt", "core::ops::control_flow::ControlFlow", "Break", ("0",), (ERRT,)), "O": NONET}[k]
            return BOT if total else x
        return SQ._lift_nocache(leaf, v)

    def io_events(self, v, acc):
        if v.op == "iores":
            acc.append(v.args[1])
        elif v.op == "sw":
            for c in v.args[3]:
                self.io_events(c, acc)
        return acc

    def with_io(self, v, run):
        """run(value) consumes a fallible result: the failing side is followed
        separately up to where it leaves the function."""
        if not self.is_io(v):
            return run(v)
        evs = self.io_events(v, [])
        st0, pc0 = self.st, self.pc
        fr = self.frames[-1]
        nret = [len(f.rets) for f in self.frames]
        nb = [[(len(l["breaks"]), len(l["conts"])) for l in f.loops] for f in self.frames]
        self.st = dict(st0)
        saved_side = self.sidepath
        self.sidepath = evs
        alive = True
        val = None
        try:
            val = run(self.io_err(v, True))
        except Dead:
            alive = False
        self.sidepath = saved_side
        newrets = fr.rets[nret[-1]:]
        del fr.rets[nret[-1]:]
        jumped = any(isinstance(r, Jump) for r in newrets)
        newrets = [r for r in newrets if not isinstance(r, Jump)]
        for l, (b, cn) in zip(fr.loops, nb[-1]):
            if len(l["breaks"]) > b or len(l["conts"]) > cn:
                jumped = True
            del l["breaks"][b:]
            del l["conts"][cn:]
        if self.record and self.sidepath is None:
            for e in evs:
                for (pc, rv, st) in newrets:
                    self.errexits.append(ErrExit(e, "return", rv, st.get(FXROOT), getattr(self, "cursp", None), fr.fn["key"]))
                if alive:
                    self.errexits.append(ErrExit(e, "continues", val, self.st.get(FXROOT), getattr(self, "cursp", None), fr.fn["key"]))
                if jumped:
                    self.errexits.append(ErrExit(e, "jumps", None, None, getattr(self, "cursp", None), fr.fn["key"]))
                if not alive and not newrets and not jumped:
                    self.errexits.append(ErrExit(e, "panics", None, None, getattr(self, "cursp", None), fr.fn["key"]))
        self.st, self.pc = st0, pc0
        return run(self.io_ok(v))

    # ------------------------------------------------------------ panics
    def abspc(self):
        r = self.pc
        for o in self.outer:
            r = b_and(o, r)
        return r

    def panic(self, cond, cls, detail=None):
        if not self.record or self.sidepath is not None:
            return
        c = b_and(self.abspc(), cond)
        if c is FALSE or c is BOT:
            return
        self.panics.append(Panic(c, cls, getattr(self, "cursp", None), self.frames[-1].fn["key"] if self.frames else "?", detail))
        self.panics[-1].fx = self.st.get(FXROOT)

    # ------------------------------------------------------------ functions
    def run_fn(self, key, args):
        """Analyse function `key` on argument terms; returns result term."""
        fn = self.prog.fns[key]
        return self.call_body(fn, fn["body"], args)

    def call_body(self, fn, body, args, env=None, path=None, tmap=None):
        fr = Frame(fn, fn["types"])
        if env is not None and self.frames and tmap is None:
            tmap = self.frames[-1].tmap
        fr.tmap = tmap or {}
        if env is not None:
            fr.env = dict(env)
        self.frames.append(fr)
        self.stack.append(path or fn["key"])
        self.visited[path or fn["key"]] = self.visited.get(path or fn["key"], 0) + 1
        saved_pc = self.pc
        self.outer.append(saved_pc)
        self.pc = TRUE
        saved_sp = getattr(self, "cursp", None)
        dead = False
        v = None
        try:
            if len(self.stack) > 60:
                raise Unmodelled("call depth")
            ps = body["params"]
            for p, a in zip(ps, args):
                if p["p"] is not None:
                    self.bind_pat(p["p"], a, None)
                    self.guard(p["p"])
            try:
                v = self.eval(body["e"])
                self.release(fr.guards)
            except Dead:
                dead = True
        finally:
            self.frames.pop()
            self.stack.pop()
            self.outer.pop()
            self.pc = saved_pc
            self.cursp = saved_sp
        rets = list(fr.rets)
        if not dead:
            rets.append((None, v, self.st))
        if not rets:
            raise Dead()
        pc, v, st = rets[-1]
        st = dict(st)
        for (pc, rv, rst) in reversed(rets[:-1]):
            v = ite(pc, rv, v)
            st = self.merge(pc, rst, st)
        self.st = st
        return v

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        k = e["k"]
        sp = e.get("sp")
        if sp is not None:
            self.cursp = sp
            CUR_SRC[0] = sp
        if time.time() > TM_DEADLINE[0]:
            raise TooBig("time limit")
        m = getattr(self, "e_" + k, None)
        if m is None:
            return self.unknown("expression kind " + k)
        return m(e)

    def ty(self, e):
        while "ty" not in e and "v" in e and isinstance(e["v"], dict):
            e = e["v"]
        i = e.get("ty")
        return self.actual(self.frames[-1].types[i]) if i is not None else {"s": "?", "k": "?"}

    def actual(self, t):
        """the type a generic parameter stands for in this call"""
        fr = self.frames[-1]
        if t["k"] != "param" or t["s"] not in fr.tmap:
            return t
        s = fr.tmap[t["s"]]
        if s in INTS or s in ("f64", "f32", "bool", "char", "str"):
            return {"k": "prim", "s": s}
        return next((x for x in fr.types if x["s"] == s), t)

    def is_int(self, e):
        t = self.ty(e)
        while t["k"] in ("ref", "refmut"):
            t = self.frames[-1].types[t["t"]]
        return t["k"] == "prim" and t["s"] in INTS

    def e_Scope(self, e):
        v = e["v"]
        if v["k"] == "Loop":
            v.setdefault("id", e["id"])
        return self.eval(v)

    def labelled_block(self, i, b):
        import loops
        fr = self.frames[-1]
        l = {"id": i, "breaks": [], "conts": []}
        fr.loops.append(l)
        alive = True
        v = UNIT
        try:
            v = self.block(b)
        except Dead:
            alive = False
        fr.loops.pop()
        out = [(pc, w, st) for (pc, w, st, _) in l["breaks"]]
        if alive:
            out.append((self.pc, v, self.st))
        if not out:
            raise Dead()
        return loops.join_breaks(self, out)

    def e_Use(self, e):
        return self.eval(e["v"])

    def e_Lit(self, e):
        lk, v = e["lk"], e["v"]
        if lk == "str":
            return string(v)
        if lk == "char":
            return mk("chr", v)
        if lk == "bool":
            return boolean(v in (True, "true"))
        if lk in ("int", "float"):
            return num(parse_num(str(v)))
        if lk in ("bytestr", "bytes"):
            return string(v if isinstance(v, str) else "".join(map(chr, v)))
        return self.unknown("literal " + lk)

    def e_Var(self, e):
        r = self.frames[-1].env.get(e["id"])
        if r is None:
            return BOT
        return self.st.get(r, BOT)

    def place(self, e):
        """mref term for a place expression, or None if it is only a value."""
        k = e["k"]
        if k in ("Scope", "Use") and k == "Scope":
            return self.place(e["v"])
        if k == "Var":
            r = self.frames[-1].env.get(e["id"])
            if r is None:
                return None
            return mk("mref", r)
        if k == "Deref":
            v = self.eval_placeval(e["v"])
            t = self.ty(e["v"])
            if v.op == "mref" or (v.op == "sw" and has_mref(v)):
                return v
            if v.op in ("pptr", "padd", "pmut", "pcast") or (v.op == "sw" and t["k"] in ("ptr", "ptrmut")):
                return self.ptr_place(v)
            if t["k"] in ("adt",):          # Box deref: same place
                return self.place(e["v"])
            return None
        if k == "Field":
            p = self.place(e["v"])
            if p is None:
                return None
            a = e.get("adt")
            if not a:
                t = self.ty(e["v"])
                a = len(t.get("a", ())) if t["k"] == "tuple" else None
            return self.extend(p, ("f", fname(e), a))
        if k == "Index":
            p = self.place(e["v"])
            if p is None:
                return None
            i = self.eval(e["i"])
            return self.index_place(p, i, e)
        if k == "Call":
            f = e.get("f")
            if f and f.get("name") in ("index", "index_mut", "deref", "deref_mut", "as_mut", "as_mut_slice"):
                v = self.eval(e)
                if v.op == "mref" or (v.op == "sw" and has_mref(v)):
                    return v
            return None
        return None

    def index_place(self, p, i, e):
        c = self.load(p)
        if i.op == "range":
            a, b = i.args
            b = b if b is not ABSENT else seqlen(c)
            return self.extend(p, ("s", a, b))
        self.bounds(c, i, e)
        return self.extend(p, ("i", i))

    def bounds(self, c, i, e):
        if self.record and self.sidepath is None:
            cond = cmp(i, seqlen(c), ">=", True)
            if cond is not FALSE:
                self.panic(cond, "bounds", tup(c, i))

    def ptr_place(self, v):
        def leaf(v):
            if v is BOT:
                return BOT
            off = ZERO
            while v.op == "padd":
                off = add(off, v.args[1])
                v = v.args[0]
            if v.op == "pptr":
                nm = v.args[0]
                root = mk("root", "mem:" + nm)
                if root not in self.st:
                    self.st[root] = sym("mem_" + nm)
                self.event("deref", v, off)
                return mk("mref", root, ("i", off))
            if v.op == "pmut":
                return v.args[0]
            if v.op == "pcast":
                root = mk("root", "obj:" + v.args[0].args[0])
                if root not in self.st:
                    self.st[root] = sym("obj_" + v.args[0].args[0])
                self.event("deref", v.args[0], off)
                return mk("mref", root)
            self.lost.append("access through a pointer that is not followed")
            return BOT
        return SQ._lift_nocache(leaf, v)

    def eval_placeval(self, e):
        return self.eval(e)

    def e_Deref(self, e):
        v = self.eval(e["v"])
        if v.op == "mref" or (v.op == "sw" and has_mref(v)):
            return self.load(v)
        if v.op in ("pptr", "padd", "pmut", "pcast"):
            return self.load(self.ptr_place(v))
        return v

    def e_Field(self, e):
        v = self.eval(e["v"])
        if v.op == "mref" or (v.op == "sw" and has_mref(v)):
            # field of a place reached through an owned &mut (auto deref already explicit)
            pass
        return field(v, fname(e))

    def e_Index(self, e):
        c = self.eval(e["v"])
        i = self.eval(e["i"])
        return self.index_value(c, i, e)

    def index_value(self, c, i, e):
        if c.op == "mref" or (c.op == "sw" and has_mref(c)):
            c = self.load(c)
        if i.op == "range":
            a, b = i.args
            return slice_(c, a, b if b is not ABSENT else seqlen(c))
        self.bounds(c, i, e)
        return idx(c, i)

    def e_Borrow(self, e):
        if e["m"]:
            p = self.place(e["v"])
            if p is not None:
                return p
            v = self.eval(e["v"])
            if v.op == "mref" or (v.op == "sw" and has_mref(v)):
                return v
            return mk("mref", self.newroot(v))
        v = self.eval(e["v"])
        return v

    def e_RawBorrow(self, e):
        p = self.place(e["v"])
        if p is not None:
            return mk("pmut", p)
        return app("addr", self.eval(e["v"]))

    def e_Binary(self, e):
        l = self.eval(e["l"])
        r = self.eval(e["r"])
        return self.binop(e["op"], l, r, self.is_int(e["l"]), self.ty(e["l"]), e)

    def binop(self, op, l, r, isint, t, e=None):
        if op == "Add":
            return add(l, r)
        if op == "Sub":
            return sub(l, r)
        if op == "Mul":
            return mul(l, r)
        if op == "Div":
            if isint:
                import models
                return models.quotient(l, r)
            return div(l, r)
        if op == "Rem":
            return app("rem", l, r)
        cm = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "==", "Ne": "!="}.get(op)
        if cm:
            s = t["s"]
            if t["k"] == "prim" and (s in INTS or s in ("f64", "f32")):
                return cmp(l, r, cm, isint)
            if s == "bool":
                l, r = b_atom(l), b_atom(r)
                x = b_or(b_and(l, r), b_and(b_not(l), b_not(r)))
                return x if cm == "==" else b_not(x)
            if cm in ("==", "!="):
                x = eq(l, r)
                return x if cm == "==" else b_not(x)
            if t["k"] == "param":
                return cmp(l, r, cm, False)
            return b_atom(app("cmpop", cm, l, r))
        if op in ("BitAnd", "BitOr", "BitXor"):
            if t["s"] == "bool":
                l, r = b_atom(l), b_atom(r)
                if op == "BitAnd":
                    return b_and(l, r)
                if op == "BitOr":
                    return b_or(l, r)
                return b_or(b_and(l, b_not(r)), b_and(b_not(l), r))
            return app("bit" + op, l, r)
        return app("bin" + op, l, r)

    def e_Logical(self, e):
        l = self.eval(e["l"])
        if e["op"] == "And":
            return self.branch(l, lambda: self.eval(e["r"]), lambda: FALSE)
        return self.branch(l, lambda: TRUE, lambda: self.eval(e["r"]))

    def e_Unary(self, e):
        v = self.eval(e["v"])
        if e["op"] == "Not":
            t = self.ty(e)
            if t["s"] == "bool":
                return b_not(b_atom(v))
            return app("bitnot", v)
        return neg(v)

    def e_Cast(self, e):
        v = self.eval(e["v"])
        s, d = self.ty(e["v"]), self.ty(e)
        if s["s"] == "bool" and d["s"] in INTS:
            return ite(v, ONE, ZERO)
        if s["k"] == "prim" and s["s"] in ("f64", "f32") and d["s"] in INTS:
            return app("trunc", v, d["s"])
        if d["s"] in ("f32",) and s["s"] in ("f64",):
            return app("tof32", v)
        if d["k"] == "prim" and s["k"] == "prim" and d["s"] in INTS and s["s"] in INTS:
            w = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32}
            if w.get(d["s"], 64) < w.get(s["s"], 64):
                if self.policy.get("__fits__") and d["s"] == "i32":
                    return v
                return app("trunc", v, d["s"])
            if s["s"].startswith("i") and d["s"].startswith("u"):
                return ite(cmp(v, ZERO, ">=", True), v, app("trunc", v, d["s"]))
        if d["k"] in ("ptr", "ptrmut"):
            if v.op == "mref":
                return mk("pmut", v)
            if v.op in ("pptr", "pcast"):
                inner = self.frames[-1].types[d["t"]]
                if inner["k"] == "adt" and inner["p"] in self.prog.structs:
                    self.event("cast", v, string(inner["p"]))
                    return mk("pcast", v if v.op == "pptr" else v.args[0], inner["p"])
                return v
        return v

    def e_Coerce(self, e):
        v = self.eval(e["v"])
        return v

    def e_PointerCoercion(self, e):
        return self.eval(e["v"])

    def e_If(self, e):
        c = self.eval_cond(e["c"])
        return self.branch(c, lambda: self.eval(e["t"]), lambda: self.eval(e["e"]) if e.get("e") else UNIT)

    def eval_cond(self, c):
        """condition that may contain `let` patterns (bindings visible after)."""
        k = c["k"]
        if k == "Scope" or k == "Use":
            return self.eval_cond(c["v"])
        if k == "Let":
            v, p = self.eval_scrut(c["v"])
            if self.is_io(v):
                v2 = v
                cond = [None]
                # treat as a decision: follow the failing side separately is not
                # possible here, fall back to an opaque flag
                return b_atom(app("iofail", tup(*[string(str(x)) for x in self.io_events(v, [])])))
            cond = self.pat_cond(c["p"], v)
            if cond is not FALSE:
                self.bind_pat(c["p"], v, p)
            return cond
        if k == "Logical" and c["op"] == "And":
            l = self.eval_cond(c["l"])
            return self.branch(l, lambda: self.eval_cond(c["r"]), lambda: FALSE)
        v = self.eval(c)
        return b_atom(v)

    def e_Let(self, e):
        return self.eval_cond(e)

    def eval_scrut(self, e):
        """value and place of a scrutinee"""
        p = None
        x = e
        while x["k"] == "Scope":
            x = x["v"]
        if x["k"] in ("Var", "Field", "Deref", "Index"):
            p = self.place(x)
        if p is not None:
            return self.load(p), p
        return self.eval(e), None

    # ------------------------------------------------------------ patterns
    def variants(self, path):
        return self.prog.enums.get(path)

    def pat_cond(self, p, v):
        k = p["k"]
        if v.op == "mref" or (v.op == "sw" and has_mref(v)):
            if k != "Bind" and k != "Wild":
                v = self.load(v)
        if k == "Wild" or k == "Missing":
            return TRUE
        if k == "Bind":
            return self.pat_cond(p["sub"], v) if p.get("sub") else TRUE
        if k == "Deref":
            return self.pat_cond(p["v"], v)
        if k == "Variant":
            allv = self.variants(p["p"])
            if allv is None:
                return b_atom(self.unknown("variant of " + p["p"], v))
            c = variant_is(v, p["p"], p["var"], allv)
            for i, sub_ in p["f"]:
                if c is FALSE:
                    return FALSE
                nm = p["names"][i] if p.get("names") else str(i)
                sc = self.pat_cond(sub_, vfield(v, p["var"], nm))
                c = b_and(c, sc)
            return c
        if k == "Leaf":
            c = TRUE
            for i, sub_ in p["f"]:
                nm = p["names"][i] if p.get("names") else str(i)
                c = b_and(c, self.pat_cond(sub_, field(v, nm)))
            return c
        if k == "Const":
            return self.const_eq(p, v)
        if k == "Or":
            c = FALSE
            for q in p["ps"]:
                c = b_or(c, self.pat_cond(q, v))
            return c
        if k == "Range":
            return self.range_cond(p, v)
        if k == "Slice":
            n = len(p["pre"]) + len(p["suf"])
            L = seqlen(v)
            c = cmp(L, num(n), ">=" if p.get("mid") else "==", True)
            for i, q in enumerate(p["pre"]):
                c = b_and(c, self.pat_cond(q, idx(v, num(i))))
            for i, q in enumerate(reversed(p["suf"])):
                c = b_and(c, self.pat_cond(q, idx(v, sub(L, num(i + 1)))))
            return c
        return b_atom(self.unknown("pattern " + k, v))

    def const_eq(self, p, v):
        b = p.get("bits")
        cv = p.get("v")
        s = str(cv)
        if b is not None:
            t = self.frames[-1].types[p["ty"]] if p.get("ty") is not None else {"s": "?"}
            if t["s"] == "bool":
                return b_atom(v) if int(str(b), 0) else b_not(b_atom(v))
            if t["s"] == "char":
                return eq_const(v, mk("chr", chr(int(str(b), 0))))
            if t["s"] in ("f64",):
                import struct
                return cmp(v, num(Fr(struct.unpack("<d", struct.pack("<Q", int(str(b), 0)))[0])), "==", False)
            x = int(str(b), 0)
            if t["s"].startswith("i") and t["s"] in INTS:
                w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}[t["s"]]
                if x >= 1 << (w - 1):
                    x -= 1 << w
            return cmp(v, num(x), "==", True)
        if s.startswith('"'):
            try:
                return eq_const(v, string(json.loads(s)))
            except Exception:
                return eq_const(v, string(s.strip('"')))
        if s == "<ZST>: str":
            return eq_const(v, string(""))
        if s.startswith("Branch([") and s.endswith(": str"):
            bs = re.findall(r"(\d+)_u8", s)
            return eq_const(v, string(bytes(int(b) for b in bs).decode("utf8", "replace")))
        return b_atom(self.unknown("constant pattern", v))

    def range_cond(self, p, v):
        m = re.match(r"^(-?[0-9][0-9a-zA-Z_.+-]*?)?\.\.(=?)(-?[0-9][0-9a-zA-Z_.+-]*)?$", str(p.get("v", "")))
        try:
            lo, incl, hi = m.groups()
            real = any(x and x.endswith("f64") for x in (lo, hi))
            c = TRUE
            if lo:
                c = b_and(c, cmp(v, num(parse_num(lo)), ">=", not real))
            if hi:
                c = b_and(c, cmp(v, num(parse_num(hi)), "<=" if incl else "<", not real))
            return c
        except Exception:
            return b_atom(self.unknown("range pattern", v))

    def bind_pat(self, p, v, place):
        k = p["k"]
        if k in ("Wild", "Const", "Range", "Missing"):
            return
        if (v.op == "mref" or (v.op == "sw" and has_mref(v))) and k != "Bind":
            place = v
            v = self.load(v)
        if k == "Bind":
            env = self.frames[-1].env
            by = p["by"]
            if by == "refmut":
                val = place if place is not None else mk("mref", self.newroot(v))
            else:
                val = v
                if by == "ref" and (v.op == "mref" or (v.op == "sw" and has_mref(v))):
                    val = v
            env[p["id"]] = self.newroot(val)
            if p.get("sub"):
                self.bind_pat(p["sub"], v, place)
            return
        if k == "Deref":
            return self.bind_pat(p["v"], v, place)
        if k == "Variant":
            for i, q in p["f"]:
                nm = p["names"][i] if p.get("names") else str(i)
                self.bind_pat(q, vfield(v, p["var"], nm),
                              self.extend(place, ("v", p["var"], nm, p["p"])) if place is not None else None)
            return
        if k == "Leaf":
            n = len(p["f"])
            for i, q in p["f"]:
                nm = p["names"][i] if p.get("names") else str(i)
                ap = p.get("p") or (len(p.get("names") or []) or n)
                self.bind_pat(q, field(v, nm), self.extend(place, ("f", nm, ap)) if place is not None else None)
            return
        if k == "Or":
            # bind each alternative under its condition
            alts = p["ps"]
            conds = [self.pat_cond(q, v) for q in alts]
            envs = []
            for q in alts:
                before = dict(self.frames[-1].env)
                self.bind_pat(q, v, place)
                envs.append({i: r for i, r in self.frames[-1].env.items() if before.get(i) is not r})
            ids = set().union(*[set(x) for x in envs]) if envs else set()
            for i in ids:
                val = None
                for c, en in reversed(list(zip(conds, envs))):
                    if i in en:
                        x = self.st[en[i]]
                        val = x if val is None else ite(c, x, val)
                self.frames[-1].env[i] = self.newroot(val)
            return
        if k == "Slice":
            L = seqlen(v)
            for i, q in enumerate(p["pre"]):
                self.bind_pat(q, idx(v, num(i)), self.extend(place, ("i", num(i))) if place is not None else None)
            if p.get("mid"):
                self.bind_pat(p["mid"], slice_(v, num(len(p["pre"])), sub(L, num(len(p["suf"])))), None)
            for i, q in enumerate(reversed(p["suf"])):
                j = sub(L, num(i + 1))
                self.bind_pat(q, idx(v, j), self.extend(place, ("i", j)) if place is not None else None)
            return
        self.unknown("binding pattern " + k)

    def e_Match(self, e):
        if e.get("src") == "ForLoopDesugar":
            fl = self.for_parts(e)
            if fl is not None:
                import loops
                return loops.for_loop(self, *fl)
        v, place = self.eval_scrut(e["v"])
        arms = e["arms"]

        def run(v):
            return self.match_arms(arms, 0, v, place)
        if v is BOT:
            raise Dead()
        return self.with_io(v, run)

    def match_arms(self, arms, i, v, place):
        if i >= len(arms):
            raise Dead()
        a = arms[i]
        c = self.pat_cond(a["p"], v)

        def body():
            self.bind_pat(a["p"], v, place)
            if a.get("g"):
                g = self.eval_cond(a["g"])
                return self.branch(g, lambda: self.eval(a["b"]), lambda: self.match_arms(arms, i + 1, v, place))
            return self.eval(a["b"])
        if i == len(arms) - 1:
            return body()
        return self.branch(c, body, lambda: self.match_arms(arms, i + 1, v, place))

    def for_parts(self, e):
        try:
            call = strip_scope(e["v"])
            it = call["a"][0]
            arm = e["arms"][0]
            loop = strip_scope(arm["b"])
            assert loop["k"] == "Loop"
            blk = strip_scope(loop["b"])
            inner = blk["b"]["s"][0]["e"] if blk["b"]["s"] else blk["b"]["e"]
            m = strip_scope(inner)
            assert m["k"] == "Match"
            pat = body = None
            brk = None
            for a in m["arms"]:
                if a["p"].get("var") == "Some":
                    pat, body = a["p"]["f"][0][1], a["b"]
                else:
                    brk = strip_scope(a["b"])
                    while brk["k"] in ("Use", "Scope"):
                        brk = brk["v"]
                    brk = brk["id"]
            assert pat is not None
            return it, pat, body, brk, e
        except (KeyError, IndexError, AssertionError, TypeError):
            return None

    def e_Loop(self, e):
        import loops
        return loops.while_loop(self, e)

    # ------------------------------------------------------------ blocks, jumps
    def e_Block(self, e):
        b = e["b"]
        if b.get("tb"):
            return self.labelled_block(b["id"], b)
        return self.block(b)

    def block(self, b):
        guards = self.frames[-1].guards
        n = len(guards)
        try:
            for s in b["s"]:
                if s["k"] == "Expr":
                    v = self.eval(s["e"])
                    self.discard(v)
                    self.destroy(self.ty(s["e"]), v, s["e"])
                else:
                    self.let(s)
            v = UNIT if b["e"] is None else self.eval(b["e"])
            self.release(guards[n:])
            return v
        finally:
            del guards[n:]

    # ------------------------------------------------------------ destructors
    def destructor(self, t):
        """the crate's own Drop::drop for values of this type"""
        if t.get("k") != "adt" or not self.prog.drops:
            return None
        return self.prog.drops.get(t.get("p"))

    def guard(self, p):
        """a new local whose value is destroyed at the end of its scope"""
        if not self.prog.drops:
            return
        fr = self.frames[-1]
        t = fr.types[p["ty"]] if p.get("ty") is not None else {}
        if p["k"] != "Bind" or p["by"] != "val" or self.destructor(t) is None:
            if any(q in t.get("s", "") for q in self.prog.drops) and t.get("k") not in ("ref", "refmut", "ptr", "ptrmut"):
                self.lost.append("destructor inside %s" % t["s"])
            return
        if moved(fr.fn.get("body"), p["id"]):
            self.lost.append("destructor of a value that is handed on")
            return
        if fr.loops:
            self.lost.append("destructor in a loop")
        live = self.newroot(TRUE)
        fr.guards.append((p["id"], self.destructor(t), fr.env[p["id"]], live))

    def release(self, guards):
        for _i, key, root, live in reversed(guards):
            def run():
                self.run_fn(key, [mk("mref", root)])
                self.st[live] = FALSE
                return UNIT
            c = self.st.get(live, FALSE)
            if c is not FALSE:
                self.branch(c, run, lambda: UNIT)

    def destroy(self, t, v, e):
        """a value that is not kept"""
        key = self.destructor(t) if self.prog.drops else None
        if key is not None:
            while e["k"] in ("Scope", "Use"):
                e = e["v"]
            if e["k"] not in ("Var", "Field", "Deref", "Index"):
                self.run_fn(key, [mk("mref", self.newroot(v))])

    def dropped(self, e, run=True):
        """mem::drop or mem::forget of a local"""
        while e["k"] in ("Scope", "Use"):
            e = e["v"]
        if e["k"] == "Var":
            for g in self.frames[-1].guards:
                if g[0] == e["id"]:
                    if run:
                        self.release([g])
                    self.st[g[3]] = FALSE

    def discard(self, v):
        if v.op == "iores" or (v.op == "sw" and self.is_io(v)):
            if self.record and self.sidepath is None:
                for ev in self.io_events(v, []):
                    self.errexits.append(ErrExit(ev, "ignored", None, None, self.cursp, self.frames[-1].fn["key"]))

    def let(self, s):
        if s.get("i") is None:
            # declared, initialised later
            self.bind_decl(s["p"])
            return
        v, place = self.eval_scrut(s["i"])
        if not by_ref(s["p"]):
            place = None
        if s.get("els"):
            def run(v):
                c = self.pat_cond(s["p"], v)

                def els():
                    self.eval_block(s["els"])
                    raise Dead()
                return self.branch(c, lambda: (self.bind_pat(s["p"], v, place), UNIT)[1], els)
            self.with_io(v, run)
            return
        self.bind_pat(s["p"], v, place)
        if self.prog.drops:
            if s["p"]["k"] == "Wild":
                self.destroy(self.ty(s["i"]), v, s["i"])
            else:
                self.guard(s["p"])

    def eval_block(self, b):
        if isinstance(b, dict) and "k" in b:
            return self.eval(b)
        return self.e_Block({"b": b})

    def bind_decl(self, p):
        if p["k"] == "Bind":
            self.frames[-1].env[p["id"]] = self.newroot(BOT)
        elif p["k"] == "Leaf":
            for _, q in p["f"]:
                self.bind_decl(q)

    def e_Assign(self, e):
        v = self.eval(e["r"])
        p = self.place(e["l"])
        if p is None:
            self.unknown("assignment target")
            return UNIT
        self.store(p, v)
        return UNIT

    def e_AssignOp(self, e):
        r = self.eval(e["r"])
        p = self.place(e["l"])
        if p is None:
            self.unknown("assignment target")
            return UNIT
        l = self.load(p)
        op = e["op"].replace("Assign", "")
        self.store(p, self.binop(op, l, r, self.is_int(e["l"]), self.ty(e["l"]), e))
        return UNIT

    def e_Return(self, e):
        v = self.eval(e["v"]) if e.get("v") else UNIT
        self.release(self.frames[-1].guards)
        self.frames[-1].rets.append((self.pc, v, self.st))
        raise Dead()

    def e_Break(self, e):
        v = self.eval(e["v"]) if e.get("v") else UNIT
        self.jump("breaks", e["id"], Jump((self.pc, v, self.st)))

    def e_Continue(self, e):
        self.jump("conts", e["id"], Jump((self.pc, UNIT, self.st)))

    def jump(self, kind, i, j):
        self.deliver(kind, i, j)
        raise Dead()

    def deliver(self, kind, i, j):
        """hand a jump to its loop; a jump that leaves the iteration being
        summarised is an exit of that loop, like a return"""
        fr = self.frames[-1]
        for l in reversed(fr.loops):
            if l["id"] == i:
                l[kind].append((j[0], j[1], j[2], i))
                return
            if l.get("step"):
                j.target = (kind, i)
                fr.rets.append(j)
                return
        self.unknown("jump outside loop")

    def exit_to(self, r, t):
        """an exit of a loop, seen from behind the loop"""
        if isinstance(r, Jump):
            self.deliver(r.target[0], r.target[1], Jump(t))
        else:
            self.frames[-1].rets.append(t)

    # ------------------------------------------------------------ aggregates
    def e_Tuple(self, e):
        return tup(*[self.eval(x) for x in (e.get("f") or e.get("a") or [])])

    def e_Array(self, e):
        return seq_of(*[self.eval(x) for x in (e.get("f") or e.get("a") or [])])

    def e_Repeat(self, e):
        v = self.eval(e["v"])
        n = num(parse_num(str(e["n"])))
        s = gensym("ix")
        return mkcomp(s, n, seq_of(v))

    def e_Adt(self, e):
        p = e["p"]
        vals = {}
        for n, x in e["f"]:
            vals[str(n)] = self.eval(x)
        base = e.get("base")
        names = None
        if p in self.prog.enums:
            names = tuple(str(n) for n, _ in e["f"])
            order = self.variant_fields(p, e["var"])
            if order:
                names = order
            return adt(p, e["var"], names, tuple(vals[n] for n in names))
        names = self.prog.structs.get(p) or tuple(vals)
        if base is not None:
            b = self.eval(base["e"] if isinstance(base, dict) and "e" in base else base)
            for n in names:
                if n not in vals:
                    vals[n] = field(b, n)
        if p == "core::ops::range::Range":
            return mk("range", vals["start"], vals["end"])
        if p == "core::ops::range::RangeFrom":
            return mk("range", vals["start"], ABSENT)
        if p == "core::ops::range::RangeTo":
            return mk("range", ZERO, vals["end"])
        if p == "core::ops::range::RangeFull":
            return mk("range", ZERO, ABSENT)
        if p == "core::ops::range::RangeToInclusive":
            return mk("range", ZERO, add(vals["end"], ONE))
        return adt(p, e.get("var") or p.split("::")[-1], names, [vals[n] for n in names])

    def variant_fields(self, p, var):
        a = self.prog.adts.get(p)
        if a is None:
            return None
        for v in a["variants"]:
            if v["n"] == var:
                return tuple(f["n"] if isinstance(f, dict) else f for f in v["f"])
        return None

    def e_Closure(self, e):
        self.clos.append(Clo(e["body"], dict(self.frames[-1].env), self.frames[-1].fn, e["p"]))
        return mk("clo", len(self.clos) - 1)

    def e_Zst(self, e):
        f = e["f"]
        self.clos.append(f)
        return mk("fnv", f.get("r") or f["p"], len(self.clos) - 1)

    def e_Const(self, e):
        p = e["p"]
        fn = self.prog.fns.get(p)
        if fn is not None and fn.get("body"):
            return self.call_body(fn, fn["body"], [])
        if p.endswith("::NAN"):
            return sym("NaN")
        r = extreme(p)
        if r is not None:
            return r
        if p.endswith("INFINITY"):
            return sym("+inf") if not p.endswith("NEG_INFINITY") else sym("-inf")
        if p.endswith("EPSILON"):
            return num(Fr(2) ** -52)
        return mk("const", p)

    def e_Static(self, e):
        return mk("const", e.get("p", "static"))

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = e.get("f")
        if not f:
            fv = self.eval(e["fe"])
            args = [self.eval(a) for a in e["a"]]
            return self.apply(fv, args)
        import models
        p = f.get("p")
        lz = models.LAZY.get(norm(p))
        if lz is not None:
            return lz(self, f, e)
        args = [self.eval(a) for a in e["a"]]
        self.cursp = e.get("sp", getattr(self, "cursp", None))
        CUR_SRC[0] = self.cursp
        return self.call(f, args, e)

    def call(self, f, args, e=None):
        key = f.get("r") or f["p"]
        for a in args:
            if a is BOT and not f.get("ctor"):
                pass
        pol = self.policy.get(key)
        if pol is None and f["p"] != key:
            pol = self.policy.get(f["p"])
        if pol is not None:
            if callable(pol):
                r = pol(self, f, args, e)
                if r is not NotImplemented:
                    return r
            elif pol == "opaque":
                return self.opaque(key, f, args, e)
        if f.get("ctor"):
            return self.ctor(f, args, e)
        fn = self.prog.fns.get(key)
        if fn is not None and fn.get("body") and not (fn.get("derived") and f.get("trait") in ("core::cmp::PartialEq", "core::clone::Clone", "core::fmt::Debug")):
            if key in self.stack:
                return self.opaque(key, f, args, e)
            if fn.get("intrait") and not f.get("r"):
                r = self.trait_dispatch(f, args, e)
                if r is not None:
                    return r
            return self.call_body(fn, fn["body"], args, tmap=self.tmap_of(fn, f))
        if fn is None and f.get("trait") and (key == f["p"]):
            r = self.trait_dispatch(f, args, e)
            if r is not None:
                return r
        import models
        return models.call(self, f, args, e)

    def targs(self, f, which):
        """generic arguments of a call, with the caller's own parameters replaced"""
        if not self.frames:
            return None
        fr = self.frames[-1]
        out = []
        for i in f.get(which) or ():
            if not isinstance(i, int):
                return None
            s = fr.types[i]["s"]
            if fr.tmap:
                s = re.sub(r"\b(%s)\b" % "|".join(map(re.escape, fr.tmap)), lambda m: fr.tmap[m.group(1)], s) \
                    if any(p in s for p in fr.tmap) else s
            out.append(s)
        return out

    def tmap_of(self, fn, f):
        g = fn.get("generics")
        if not g:
            return None
        a = self.targs(f, "ra" if f.get("r") else "a")
        if not a or len(a) != len(g):
            return None
        return {k: v for k, v in zip(g, a) if k != v}

    def trait_dispatch(self, f, args, e):
        """impl of a local trait for the caller's actual Self, else its default body"""
        a = self.targs(f, "a")
        if a:
            rest = "<%s>" % ", ".join(a[1:]) if len(a) > 1 else ""
            key = "<%s as %s%s>::%s" % (a[0].lstrip("&").replace("mut ", "", 1) if False else a[0], f["trait"], rest, f["name"])
            fn = self.prog.fns.get(key)
            if fn is not None and fn.get("body"):
                pol = self.policy.get(key)
                if pol == "opaque":
                    return self.opaque(key, f, args, e)
                if callable(pol):
                    r = pol(self, f, args, e)
                    if r is not NotImplemented:
                        return r
                if key not in self.stack:
                    return self.call_body(fn, fn["body"], args)
        fn = self.prog.fns.get(f["p"])
        if fn is not None and fn.get("body"):
            return self.call_body(fn, fn["body"], args, tmap=self.tmap_of(fn, f))
        return None

    def ctor(self, f, args, e):
        c = f["ctor"]
        p, var = (c["p"], c["var"]) if isinstance(c, dict) else (f["p"].rsplit("::", 1)[0], f["p"].rsplit("::", 1)[1])
        if p in self.prog.enums:
            return adt(p, var, tuple(str(i) for i in range(len(args))), tuple(args))
        if f["p"] in self.prog.structs:
            p = f["p"]
        return adt(p, p.split("::")[-1], tuple(str(i) for i in range(len(args))), args)

    def apply(self, fv, args):
        """call a function value; args are separate"""
        if fv.op == "mref":
            fv = self.load(fv)
        if fv.op == "clo":
            c = self.clos[fv.args[0]]
            return self.call_body(c.fn, c.body, [UNIT] + list(args), env=c.env, path=c.path)
        if fv.op == "fnv":
            return self.call(self.clos[fv.args[1]], list(args))
        if fv.op == "sw":
            c = fv
            return self.apply_sw(fv, args)
        return self.opaque_apply(fv, args)

    def apply_sw(self, fv, args):
        k, var, labels, ch = fv.args
        # chain of two-way branches
        def go(i):
            if i == len(ch) - 1:
                return self.apply(ch[i], args)
            c = node(k, var, labels, tuple(TRUE if j == i else FALSE for j in range(len(ch))))
            return self.branch(c, lambda: self.apply(ch[i], args), lambda: go(i + 1))
        return go(0)

    def opaque_apply(self, fv, args):
        vals = [self.load(a) if is_mref(a) else a for a in args]
        r = app("apply", fv, *vals)
        for i, a in enumerate(args):
            if is_mref(a):
                self.store(a, app("applymut", num(i), fv, *vals))
        return r

    def opaque(self, key, f, args, e, fallible=None):
        """uninterpreted function of its arguments; &mut arguments become
        functions of all arguments as well"""
        vals = [self.load(a) if is_mref(a) else a for a in args]
        vals = [self.reify(v) for v in vals]
        self.calls.append((key, tuple(vals), getattr(self, "cursp", None), self.stack[-1] if self.stack else None))
        r = app("call", key, *vals)
        muts = [i for i, a in enumerate(args) if is_mref(a)]
        for i in muts:
            self.store(args[i], app("callmut", key, num(i), *vals))
        return r

    def reify(self, v):
        return v


def is_mref(a):
    return a.op == "mref" or (a.op == "sw" and has_mref(a))


def has_mref(v):
    if v.op == "mref":
        return True
    if v.op == "sw":
        return any(has_mref(c) for c in v.args[3])
    return False


def by_ref(p):
    if p["k"] == "Bind":
        return p["by"] in ("ref", "refmut")
    return True


def fname(e):
    n = e.get("n")
    return n if n is not None else str(e["i"])


class Jump(tuple):
    target = None


def strip_scope(e):
    while e["k"] == "Scope":
        e = e["v"]
    return e


def parse_num(s):
    s = s.replace("_", "")
    for suf in ("f64", "f32", "usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128"):
        if s.endswith(suf) and not s.startswith("0x"):
            s = s[: -len(suf)]
            break
    if s.startswith("0x"):
        return Fr(int(s, 16))
    if s.startswith("0b"):
        return Fr(int(s, 2))
    if s.startswith("0o"):
        return Fr(int(s, 8))
    if s.endswith("."):
        s += "0"
    if "e" in s or "E" in s or "." in s:
        return Fr(s)
    return Fr(int(s))
