"""Meaning of the library functions the analysed crate calls, as term rewrites.
Anything not listed becomes an unmodelled ('unk') term and is reported."""
import interp as IP
from interp import norm, is_mref, has_mref, ERRT, ERRV
from terms import *
import terms as TM
from seqs import *
import seqs as SQ

LAZY = {}
CF = "core::ops::control_flow::ControlFlow"
HMAP = "std::collections::hash::map::HashMap"
HSET = "std::collections::hash::set::HashSet"
MAPS = (HMAP, "alloc::collections::btree::map::BTreeMap")
SETS = (HSET, "alloc::collections::btree::set::BTreeSet")
VECS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")
TABLE_M = {}


def m(*names):
    def deco(f):
        for n in names:
            TABLE_M[n] = f
        return f
    return deco


def lf(f, *ts):
    return SQ._lift_nocache(f, *ts) if len(ts) == 1 else lift(("lf", id(f)), f, *ts)


# ------------------------------------------------------------------ types
def peel(I, t):
    while t and t["k"] in ("ref", "refmut"):
        t = I.frames[-1].types[t["t"]]
    while t and t["k"] == "adt" and t["p"] in ("alloc::rcs::rc::Rc", "alloc::rc::Rc", "alloc::boxed::Box", "std::rc::Rc") and t.get("a"):
        t = I.frames[-1].types[t["a"][0]]
        while t and t["k"] in ("ref", "refmut"):
            t = I.frames[-1].types[t["t"]]
    if t and t["k"] == "param":
        t = I.actual(t)
    return t


def argty(I, e, i=0):
    try:
        return peel(I, I.ty(e["a"][i]))
    except Exception:
        return None


def typath(t):
    if not t:
        return None
    if t["k"] == "adt":
        return t["p"]
    return t["k"]


def val(I, a):
    return I.load(a) if is_mref(a) else a


# ------------------------------------------------------------------ sequences
def range_seq(v):
    a, b = v.args
    if b is ABSENT:
        return None
    s = gensym("ix")
    n = sub(b, a)
    if is_const(n) and const_val(n) <= 0:
        return EMPTY
    body = seq_of(add(a, s))
    if is_const(a) and const_val(a) == 0:
        return mkcomp(s, n, body)
    return SQ._lift_nocache(lambda n: mkcomp(s, n, body) if nonneg_num(n) else
                            ite(cmp(n, ZERO, ">", True), mkcomp(s, n, body), EMPTY), n)


@m("RangeInclusive::new")
def _(I, f, a, e):
    if e and I.is_int(e["a"][0]):
        return mk("range", a[0], add(a[1], ONE))
    return I.unknown("range of floats", a) if hasattr(I, "unknown") else mk("unk", "range", *a)


def mut_elems(I, mr):
    def leaf(r):
        if r is BOT:
            return BOT
        s = gensym("ix")
        c = I.load(r)
        body = seq_of(mk("mref", *(r.args + (("i", s),))))
        return SQ._lift_nocache(lambda n: mkcomp(s, n, body), seqlen(c))
    return SQ._lift_nocache(leaf, mr)


def into_seq(I, v, ty=None):
    """elements that iterating over v yields"""
    t = ty
    mutref = t is not None and t["k"] == "refmut"
    t = peel(I, t) if t else None
    p = typath(t)
    if p == "param" and v.op == "mref":
        pass
    if v.op == "range":
        r = range_seq(v)
        return r if r is not None else app("from", v.args[0])
    if p in MAPS:
        if is_mref(v) and mutref:
            mv = I.load(v)
            it = miter(mv)
            k = SQ_keys(it)
            return seqmap(k, lambda key: tup(key, I.extend(v, ("m", key))))
        return miter(val(I, v))
    if p in SETS:
        return siter(val(I, v))
    if p == "core::option::Option":
        v = val(I, v)
        return ite(variant_is(v, OPT, "Some", OPTV), seq_of(vfield(v, "Some", "0")), EMPTY)
    if is_mref(v):
        if p in VECS or p in ("slice", "array"):
            return mut_elems(I, v)
        x = I.load(v)
        if x.op == "range":
            return into_seq(I, x)
        if x.op == "adt" and x.args[0] not in ("core::option::Option",):
            return local_iter(I, v, x)
        return x
    if v.op == "adt" and v.args[0] != OPT:
        return local_iter(I, mk("mref", I.newroot(v)), v)
    if v.op == "adt":
        return seq_of(v.args[3][0]) if v.args[1] == "Some" else EMPTY
    return v


def SQ_keys(it):
    return seqmap(it, lambda e: field(e, "0"))


def next_fn(I, path):
    for k, fn in I.prog.fns.items():
        if fn.get("name") == "next" and fn.get("trait", "") and fn["trait"].endswith("Iterator") and (fn.get("self") or "").split("<")[0] == path:
            return fn
    base = path
    for k, fn in I.prog.fns.items():
        if k.startswith("<" + base) and k.endswith("Iterator>::next"):
            return fn
    return None


def local_iter(I, place, v):
    """elements produced by a local iterator type: the loop
    `while let Some(x) = it.next() { out.push(x) }` is summarised"""
    fn = next_fn(I, v.args[0])
    if fn is None:
        return I.unknown("iteration over " + v.args[0], v)
    import loops
    out = mk("mref", I.newroot(EMPTY))
    mark = "it%d" % I.nroot

    def body():
        r = I.call_body(fn, fn["body"], [place])

        def some_():
            I.store(out, concat(I.load(out), seq_of(vfield(r, "Some", "0"))))
            return UNIT

        def none_():
            return I.e_Break({"id": mark, "v": None})
        return I.branch(variant_is(r, OPT, "Some", OPTV), some_, none_)
    loops.while_loop(I, {"b": {"k": "Py", "fn": body}, "id": mark})
    return I.load(out)


def e_Py(self, e):
    return e["fn"]()


IP.Interp.e_Py = e_Py


def each(I, seq, f):
    """run Python callback f over the elements in order"""
    import loops
    loops.loop_seq(I, seq, f, "each%d" % I.nroot)


def map_seq(I, seq, fv):
    out = mk("mref", I.newroot(EMPTY))

    def el(x):
        I.store(out, concat(I.load(out), seq_of(I.apply(fv, [x]))))
    each(I, seq, el)
    return I.load(out)


def flat_map(I, seq, fv, ty=None):
    out = mk("mref", I.newroot(EMPTY))
    ty = closure_type(I, fv) if fv is not None else ty

    def el(x):
        r = I.apply(fv, [x]) if fv is not None else x
        I.store(out, concat(I.load(out), into_seq(I, r, ty)))
    each(I, seq, el)
    return I.load(out)


def filter_seq(I, seq, fv):
    out = mk("mref", I.newroot(EMPTY))

    def el(x):
        c = b_atom(I.apply(fv, [x]))
        I.store(out, concat(I.load(out), ite(c, seq_of(x), EMPTY)))
    each(I, seq, el)
    return I.load(out)


def simple_elems(t):
    if t.op == "seq" and all(p.op == "elem" for p in t.args):
        return [p.args[0] for p in t.args]
    return None


def enum_seq(t):
    def leaf(t):
        if t is BOT:
            return BOT
        es = simple_elems(t)
        if es is not None:
            return seq_of(*[tup(num(i), x) for i, x in enumerate(es)])
        n = seqlen(t)
        s = gensym("ix")
        return SQ._lift_nocache(lambda n: mkcomp(s, n, seq_of(tup(s, idx(t, s)))), n)
    return SQ._lift_nocache(leaf, t)


def zip_seq(a, b):
    def leaf(a, b):
        if BOT in (a, b):
            return BOT
        ea, eb = simple_elems(a), simple_elems(b)
        if ea is not None and eb is not None:
            return seq_of(*[tup(x, y) for x, y in zip(ea, eb)])
        if a.op == "from" or b.op == "from":
            s = gensym("ix")
            n = seqlen(b) if a.op == "from" else seqlen(a)
            at = lambda t: add(t.args[0], s) if t.op == "from" else idx(t, s)
            return SQ._lift_nocache(lambda n: mkcomp(s, n, seq_of(tup(at(a), at(b)))), n)
        la, lb = seqlen(a), seqlen(b)
        s = gensym("ix")
        body = seq_of(tup(idx(a, s), idx(b, s)))
        if la is lb:
            return SQ._lift_nocache(lambda n: mkcomp(s, n, body), la)
        c = cmp(la, lb, "<=", True)
        return ite(c, SQ._lift_nocache(lambda n: mkcomp(s, n, body), la),
                   SQ._lift_nocache(lambda n: mkcomp(s, n, body), lb))
    if a.op == "sw" or b.op == "sw":
        return lift("zipseq", leaf, a, b)
    return leaf(a, b)


def rev_seq(t):
    def leaf(t):
        if t is BOT:
            return BOT
        es = simple_elems(t)
        if es is not None:
            return seq_of(*reversed(es))
        n = seqlen(t)
        s = gensym("ix")
        return SQ._lift_nocache(lambda n: mkcomp(s, n, seq_of(idx(t, sub(sub(n, ONE), s)))), n)
    return SQ._lift_nocache(leaf, t)


def collect(I, seq, t, e=None):
    p = typath(t)
    if p in MAPS:
        return mkmset(MEMPTY, seq)
    if p in SETS:
        return mksset(SEMPTY, seq)
    if p == "alloc::string::String":
        return concat_text(seq)
    if p == "core::result::Result" or p == OPT:
        o = p == OPT
        g = is_some if o else is_ok
        fail_ = any_seq(seq, lambda x: b_not(g(x)))
        inner = collect(I, seqmap(seq, lambda x: vfield(x, "Some" if o else "Ok", "0")), peel(I, I.frames[-1].types[t["a"][0]]), e)
        return ite(fail_, NONET if o else ERRT, some(inner) if o else ok(inner))
    return seq


def concat_text(seq):
    def leaf(t):
        if t is BOT:
            return BOT
        out = EMPTY
        for p in segs(t) if t.op in ("seq", "str") else (SQ.eta_comp(t),):
            if p.op == "elem":
                out = concat(out, p.args[0])
            elif p.op == "comp":
                with SQ.opened(p, p.args[2]) as (s, b):
                    out = concat(out, SQ.mkcomp(s, p.args[1], SQ._lift_nocache(leaf, b)))
            else:
                return app("cattext", t)
        return out
    return SQ._lift_nocache(leaf, seq)


# ------------------------------------------------------------------ text
def display(I, x, t):
    """text of a value printed with {}"""
    x = val(I, x)
    p = typath(t)
    if p == "param":
        p = None
    if p in ("str", "alloc::string::String"):
        return x
    if t and t["k"] == "prim":
        if t["s"] == "char":
            return seq_of(x)
        return app("disp", x)
    if t and t["k"] == "adt":
        for k in ("<%s as core::fmt::Display>::fmt" % t["p"],):
            fn = I.prog.fns.get(k)
            if fn is not None:
                if I.policy.get(k) is not None or k in I.stack:
                    return app("disp", x)
                f = mk("mref", I.newroot(EMPTY))
                I.call_body(fn, fn["body"], [x, f])
                return I.load(f)
    return app("disp", x)


def argval(I, e, i):
    return None


@m("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp", "Argument::new_upper_exp",
   "Argument::new_lower_hex")
def _(I, f, a, e):
    kind = f["p"].rsplit("new_", 1)[1]
    t = argty(I, e) if e else None
    if kind == "display":
        return mk("farg", kind, a[0], display(I, a[0], t))
    return mk("farg", kind, val(I, a[0]), UNIT)


def render(I, template, args):
    bs = [ord(c) for c in template.args[0]] if template.op == "str" else None
    if bs is None:
        es = simple_elems(template)
        if es is None:
            return I.unknown("format template")
        bs = [int(const_val(x)) for x in es]
    al = simple_elems(args)
    if al is None:
        return I.unknown("format arguments")
    out = EMPTY
    i = 0
    nexta = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out = concat(out, string(bytes(bs[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out = concat(out, string(bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
        elif b >= 0xC0:
            spec = []
            if b & 1:
                spec.append("f%d" % int.from_bytes(bytes(bs[i:i + 4]), "little"))
                i += 4
            if b & 2:
                spec.append("w%d" % int.from_bytes(bytes(bs[i:i + 2]), "little"))
                i += 2
            if b & 4:
                spec.append("p%d" % int.from_bytes(bytes(bs[i:i + 2]), "little"))
                i += 2
            ai = nexta
            if b & 8:
                ai = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            nexta = ai + 1
            if b & 48:
                spec.append("ind")
            fa = al[ai]
            if fa.op != "farg":
                out = concat(out, app("disp", fa))
                continue
            kind, v, tx = fa.args
            if kind == "display" and not spec:
                out = concat(out, tx)
            else:
                out = concat(out, app("fmt", kind + ",".join(spec), v))
        else:
            return I.unknown("format template byte")
    return out


@m("Arguments::new", "Arguments::new_v1")
def _(I, f, a, e):
    return render(I, a[0], val(I, a[1]) if len(a) > 1 else EMPTY)


@m("Arguments::from_str", "Arguments::new_const")
def _(I, f, a, e):
    return a[0]


@m("fmt::format", "hint::must_use")
def _(I, f, a, e):
    return a[0]


def bufw(f, text):
    """a buffered writer: its file and what was written to it"""
    return adt("#bufw", "#bufw", ("file", "text"), (f, text), True)


TM.STRUCTS.add("#bufw")


def is_bufw(x):
    import loops as LP
    while x.op == "sym" and x in LP.PHI_INIT:
        x = LP.PHI_INIT[x]
    return x.op == "adt" and x.args[0] == "#bufw"


def append_text(I, dst, txt):
    cur = I.load(dst)
    if is_bufw(cur):
        f = field(cur, "file")
        I.store(dst, bufw(f, concat(field(cur, "text"), txt)))
        return mk("iores", "R", mk("ev", "write", f), seqlen(txt))
    I.store(dst, concat(cur, txt))
    return ok(UNIT)


@m("Formatter::write_fmt", "Formatter::write_str", "Write::write_fmt", "Write::write_str", "Write::write_char")
def _(I, f, a, e):
    if not is_mref(a[0]):
        return I.unknown("write to unknown target", *a)
    t = a[1] if "char" not in f["p"] else seq_of(a[1])
    r = append_text(I, a[0], t)
    if r.op == "iores":
        r = mk("iores", "R", r.args[1], UNIT)
    return r


@m("Write::write", "Write::write_all")
def _(I, f, a, e):
    r = append_text(I, a[0], a[1])
    if f["name"] == "write_all" and r.op == "iores":
        r = mk("iores", "R", r.args[1], UNIT)
    return r


@m("Write::flush")
def _(I, f, a, e):
    w = I.load(a[0])
    if is_bufw(w):
        I.event("flush", field(w, "file"), field(w, "text"))
        return mk("iores", "R", mk("ev", "flush", field(w, "file")), UNIT)
    I.event("flush", w)
    return mk("iores", "R", mk("ev", "flush"), UNIT)


@m("String::new")
def _(I, f, a, e):
    return EMPTY


@m("String::push_str")
def _(I, f, a, e):
    I.store(a[0], concat(I.load(a[0]), val(I, a[1])))
    return UNIT


@m("String::push")
def _(I, f, a, e):
    I.store(a[0], concat(I.load(a[0]), seq_of(a[1])))
    return UNIT


@m("ToString::to_string")
def _(I, f, a, e):
    return display(I, a[0], argty(I, e) if e else None)


@m("str::split_ascii_whitespace", "str::split_whitespace")
def _(I, f, a, e):
    def leaf(v):
        while v.op in TRIMS:
            v = v.args[0]
        return app("words", v)
    return SQ._lift_nocache(leaf, val(I, a[0]))


@m("str::split")
def _(I, f, a, e):
    return app("split", val(I, a[0]), a[1])


@m("str::lines")
def _(I, f, a, e):
    return app("strlines", val(I, a[0]))


TRIMS = ("trim", "trim_end", "trim_start")


@m("str::trim", "str::trim_end", "str::trim_start")
def _(I, f, a, e):
    def leaf(v):
        # a word has no space around it
        return v if v.op == "idx" and v.args[0].op == "words" else app(f["name"], v)
    return SQ._lift_nocache(leaf, val(I, a[0]))


@m("str::trim_matches", "str::trim_end_matches", "str::trim_start_matches")
def _(I, f, a, e):
    p = val(I, a[1])
    if p.op not in ("str", "chr"):
        return I.unknown("str::" + f["name"])
    return app(f["name"], val(I, a[0]), p)


@m("str::parse")
def _(I, f, a, e):
    t = I.ty(e) if e else None
    ts = "?"
    if t and t["k"] == "adt" and t.get("a"):
        ts = I.actual(I.frames[-1].types[t["a"][0]])["s"]
    r = mk("parse", val(I, a[0]), ts) if val(I, a[0]).op != "sw" else app("parse", val(I, a[0]), ts)
    return r


@m("str::starts_with", "str::ends_with", "str::contains", "str::is_empty")
def _(I, f, a, e):
    if f["name"] == "is_empty":
        return cmp(seqlen(val(I, a[0])), ZERO, "==", True)
    return b_atom(app(f["name"], val(I, a[0]), val(I, a[1])))


@m("str::eq_ignore_ascii_case")
def _(I, f, a, e):
    x, y = val(I, a[0]), val(I, a[1])
    if x.op == "str" and y.op == "str":
        return boolean(x.args[0].lower() == y.args[0].lower())
    return b_atom(app(f["name"], x, y))


@m("str::split_once", "str::strip_prefix", "str::strip_suffix", "str::find", "str::splitn")
def _(I, f, a, e):
    return app(f["name"], *[val(I, x) for x in a])


# ------------------------------------------------------------------ identity-like
IDENT = ("Rc::new", "Box::new", "Clone::clone", "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow",
         "String::as_bytes", "String::as_str", "str::as_bytes", "str::as_str", "Vec::as_slice", "slice::to_vec",
         "Vec::as_mut_slice", "Vec::into_boxed_slice", "slice::into_vec", "AsMut::as_mut",
         "String::into_bytes", "Rc::as_ref", "ToOwned::to_owned", "str::to_owned", "slice::iter", "Iterator::copied", "Iterator::cloned", "Iterator::by_ref",
         "Box::into_vec", "CString::into_string", "Iterator::fuse", "Iterator::peekable", "Into::into_", "boxed::box_new",
         "str::chars", "str::bytes", "convert::identity", "Rc::from", "Vec::iter", "VecDeque::iter", "Cow::into_owned",
         "OsStr::to_owned", "OsStr::as_ref", "Path::to_path_buf", "PathBuf::as_path", "Path::as_os_str", "Iterator::into_iter", "cmp::Reverse",
         "Wrapping", "black_box", "hint::black_box", "str::into_string", "str::as_ref", "slice::as_ref", "Vec::leak", "Rc::unwrap_or_clone", "Rc::try_unwrap_")


def _ident(I, f, a, e):
    x = a[0]
    nm = f["name"]
    if is_mref(x) and nm not in ("deref_mut", "as_mut", "as_mut_slice", "by_ref"):
        x = I.load(x)
    return x


for n in IDENT:
    TABLE_M[n] = _ident


@m("From::from", "Into::into")
def _(I, f, a, e):
    t = peel(I, I.ty(e)) if e else None
    x = val(I, a[0])
    if t and t["k"] == "prim":
        s = argty(I, e)
        if s and s["s"] == "bool":
            return ite(x, ONE, ZERO)
        return x
    p = typath(t)
    if p in MAPS:
        return mkmset(MEMPTY, x)
    if p in SETS:
        return mksset(SEMPTY, x)
    return x


@m("slice::iter_mut", "Vec::iter_mut")
def _(I, f, a, e):
    return mut_elems(I, a[0]) if is_mref(a[0]) else a[0]


@m("IntoIterator::into_iter")
def _(I, f, a, e):
    return into_seq(I, a[0], I.ty(e["a"][0]) if e else None)


@m("boxed::box_assume_init_into_vec_unsafe", "Box::new_uninit", "intrinsics::write_box_via_move", "intrinsics::box_new")
def _(I, f, a, e):
    return a[-1] if a else UNIT


# ------------------------------------------------------------------ Vec / slice
@m("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "Default::default_vec", "String::with_capacity")
def _(I, f, a, e):
    return EMPTY


@m("vec::from_elem", "iter::repeat_n", "repeat_n::repeat_n")
def _(I, f, a, e):
    s = gensym("ix")
    x = val(I, a[0])
    return SQ._lift_nocache(lambda n: mkcomp(s, n, seq_of(x)), a[1])


@m("Vec::push", "VecDeque::push_back")
def _(I, f, a, e):
    I.store(a[0], concat(I.load(a[0]), seq_of(a[1])))
    return UNIT


@m("VecDeque::push_front")
def _(I, f, a, e):
    I.store(a[0], concat(seq_of(a[1]), I.load(a[0])))
    return UNIT


@m("Vec::pop", "VecDeque::pop_back")
def _(I, f, a, e):
    v = I.load(a[0])
    n = seqlen(v)
    c = cmp(n, ZERO, ">", True)
    last = sub(n, ONE)
    I.store(a[0], ite(c, slice_(v, ZERO, last), v))
    return ite(c, some(idx(v, last)), NONET)


@m("VecDeque::pop_front")
def _(I, f, a, e):
    v = I.load(a[0])
    n = seqlen(v)
    c = cmp(n, ZERO, ">", True)
    import loops
    I.store(a[0], ite(c, loops.mkdrop(v, ONE), v))
    return ite(c, some(idx(v, ZERO)), NONET)


@m("Vec::remove", "Vec::swap_remove_")
def _(I, f, a, e):
    v = I.load(a[0])
    I.bounds(v, a[1], e)
    x = idx(v, a[1])
    n = seqlen(v)
    if is_const(n) and is_const(a[1]) and const_val(n) <= const_val(a[1]):
        raise IP.Dead()
    I.store(a[0], concat(slice_(v, ZERO, a[1]), slice_(v, add(a[1], ONE), n)))
    return x


@m("Vec::insert")
def _(I, f, a, e):
    v = I.load(a[0])
    t = argty(I, e)
    n = seqlen(v)
    I.store(a[0], concat(slice_(v, ZERO, a[1]), seq_of(a[2]), slice_(v, a[1], n)))
    return UNIT


@m("Vec::retain", "VecDeque::retain", "Vec::retain_mut")
def _(I, f, a, e):
    I.store(a[0], filter_seq(I, I.load(a[0]), a[1]))
    return UNIT


@m("Vec::dedup", "Vec::dedup_by_key", "Vec::dedup_by")
def _(I, f, a, e):
    v = I.load(a[0])
    n = f["name"]

    def same(x, y):
        if n == "dedup":
            return eq(x, y)
        if n == "dedup_by_key":
            return eq(val(I, I.apply(a[1], [x])), val(I, I.apply(a[1], [y])))
        return b_atom(I.apply(a[1], [x, y]))
    if n == "dedup_by":
        # comparing with the last one kept is comparing with the previous
        # one only for an equivalence
        u, w, z = gensym("u"), gensym("w"), gensym("z")
        c = same(u, w)
        parts = [c.args[1]] if c.op == "sw" and c.args[3] in ((TRUE, FALSE), (FALSE, TRUE, FALSE)) else []
        sides = [parts[0].args] if parts and parts[0].op == "eq" else \
            [(subst(parts[0], {w: ZERO}), subst(parts[0], {u: ZERO}))] if parts and parts[0].op == "num" else []
        if c is not subst(subst(subst(c, {u: z}), {w: u}), {z: w}) and not (parts and cmp(sub(ZERO, parts[0]), ZERO, "==", True)) or not sides:
            return I.unknown("Vec::dedup_by", v)
    s = gensym("ix")
    k = seqlen(v)
    body = ite(b_or(cmp(s, ZERO, "==", True), b_not(same(idx(v, s), idx(v, sub(s, ONE))))), seq_of(idx(v, s)), EMPTY)
    I.store(a[0], SQ._lift_nocache(lambda k: SQ.mkcomp(s, k, body), k))
    return UNIT


@m("Vec::drain", "VecDeque::drain", "String::drain")
def _(I, f, a, e):
    v = I.load(a[0])
    n = seqlen(v)
    r = a[1]
    lo, hi = (r.args if r.op == "range" else (ZERO, n))
    if r.op not in ("range", "rangefull", "tup", "adt"):
        return I.unknown("drain", v)
    lo = ZERO if lo is ABSENT else lo
    hi = n if hi is ABSENT else hi
    I.store(a[0], concat(slice_(v, ZERO, lo), slice_(v, hi, n)))
    return slice_(v, lo, hi)


@m("Vec::split_off", "VecDeque::split_off")
def _(I, f, a, e):
    v = I.load(a[0])
    n = seqlen(v)
    I.panic(cmp(a[1], n, ">", True), "slice", v)
    I.store(a[0], slice_(v, ZERO, a[1]))
    return slice_(v, a[1], n)


@m("slice::reverse")
def _(I, f, a, e):
    I.store(a[0], rev_seq(I.load(a[0])))
    return UNIT


@m("Vec::resize_with")
def _(I, f, a, e):
    v = I.load(a[0])
    n = seqlen(v)
    s = gensym("ix")
    new = SQ._lift_nocache(lambda d: SQ.mkcomp(s, d, seq_of(s)), sub(a[1], n))
    out = mk("mref", I.newroot(v))

    def grow():
        each(I, new, lambda x: I.store(out, concat(I.load(out), seq_of(I.apply(a[2], [])))))
        return UNIT
    c = cmp(a[1], n, "<", True)
    I.branch(c, lambda: UNIT, grow)
    I.store(a[0], ite(c, slice_(v, ZERO, a[1]), I.load(out)))
    return UNIT


@m("slice::chunks", "slice::chunks_exact")
def _(I, f, a, e):
    v = val(I, a[0])
    n = seqlen(v)
    k = a[1]
    if not is_const(k) or const_val(k) < 1:
        return I.unknown("chunks", v)
    s = gensym("ix")
    m = div_int(n, k)
    full = SQ._lift_nocache(lambda m: SQ.mkcomp(s, m, seq_of(slice_(v, mul(s, k), mul(add(s, ONE), k)))), m)
    if f["name"] == "chunks_exact":
        return full
    done = mul(m, k)
    return concat(full, ite(cmp(done, n, "<", True), seq_of(slice_(v, done, n)), EMPTY))


@m("slice::split_at")
def _(I, f, a, e):
    v = val(I, a[0])
    n = seqlen(v)
    I.panic(cmp(a[1], n, ">", True), "slice", v)
    return tup(slice_(v, ZERO, a[1]), slice_(v, a[1], n))


@m("iter::once", "once::once")
def _(I, f, a, e):
    return seq_of(a[0])


@m("iter::empty", "empty::empty")
def _(I, f, a, e):
    return EMPTY


@m("iter::repeat", "repeat::repeat")
def _(I, f, a, e):
    return mk("repeat", a[0])


@m("Iterator::inspect")
def _(I, f, a, e):
    v = S(I, a[0], e)
    each(I, v, lambda x: I.apply(a[1], [x]))
    return v


@m("Iterator::step_by")
def _(I, f, a, e):
    v = S(I, a[0], e)
    k = a[1]
    if not is_const(k) or const_val(k) < 1:
        return I.unknown("step_by", v)
    n = seqlen(v)
    s = gensym("ix")
    m = div_int(add(n, sub(k, ONE)), k)
    return SQ._lift_nocache(lambda m: SQ.mkcomp(s, m, seq_of(idx(v, mul(s, k)))), m)


@m("Iterator::find_map")
def _(I, f, a, e):
    v = S(I, a[0], e)
    rs = map_seq(I, v, a[1])
    n = seqlen(rs)
    s = gensym("ix")
    i = SQ._lift_nocache(lambda n: mkfirst(s, n, is_some(idx(rs, s))), n)
    return ite(cmp(i, n, "<", True), some(vfield(idx(rs, i), "Some", "0")), NONET)


@m("Iterator::take_while", "Iterator::map_while")
def _(I, f, a, e):
    v = S(I, a[0], e)
    rs = map_seq(I, v, a[1])
    n = seqlen(rs)
    s = gensym("ix")
    good_ = (lambda x: b_atom(x)) if f["name"] == "take_while" else is_some
    i = SQ._lift_nocache(lambda n: mkfirst(s, n, b_not(good_(idx(rs, s)))), n)
    w = slice_(v, ZERO, i) if f["name"] == "take_while" else slice_(rs, ZERO, i)
    return w if f["name"] == "take_while" else seqmap(w, lambda x: vfield(x, "Some", "0"))


@m("Iterator::skip_while")
def _(I, f, a, e):
    v = S(I, a[0], e)
    rs = map_seq(I, v, a[1])
    n = seqlen(rs)
    s = gensym("ix")
    i = SQ._lift_nocache(lambda n: mkfirst(s, n, b_not(b_atom(idx(rs, s)))), n)
    return slice_(v, i, n)


@m("Iterator::scan")
def _(I, f, a, e):
    st = mk("mref", I.newroot(a[1]))
    out = mk("mref", I.newroot(EMPTY))
    some_only = []

    def el(x):
        r = I.apply(a[2], [st, x])
        c = is_some(r)
        some_only.append(c is TRUE)
        I.store(out, concat(I.load(out), ite(c, seq_of(vfield(r, "Some", "0")), EMPTY)))
    each(I, S(I, a[0], e), el)
    if not all(some_only):
        return I.unknown("scan that stops early")
    return I.load(out)


@m("Iterator::partition")
def _(I, f, a, e):
    v = S(I, a[0], e)
    outs = [mk("mref", I.newroot(EMPTY)) for _ in range(2)]

    def el(x):
        c = b_atom(I.apply(a[1], [x]))
        I.store(outs[0], concat(I.load(outs[0]), ite(c, seq_of(x), EMPTY)))
        I.store(outs[1], concat(I.load(outs[1]), ite(c, EMPTY, seq_of(x))))
    each(I, v, el)
    t = peel(I, I.ty(e)) if e else None
    ts = [I.frames[-1].types[x] for x in t.get("a", [])] if t and t["k"] == "tuple" else [None, None]
    return tup(*[collect(I, I.load(o), peel(I, x) if x else None) for o, x in zip(outs, ts)])


@m("Iterator::reduce", "Iterator::max_by", "Iterator::min_by", "Iterator::max_by_key", "Iterator::min_by_key")
def _(I, f, a, e):
    import loops
    v = S(I, a[0], e)
    nm = f["name"]

    def step(acc, x):
        if nm == "reduce":
            return I.apply(a[1], [acc, x])
        o = I.apply(a[1], [acc, x]) if not nm.endswith("key") else key_order(I, f, a[1], acc, x)
        gt = variant_is(o, "core::cmp::Ordering", "Greater", ("Less", "Equal", "Greater"))
        # the last of the largest, the first of the smallest
        return ite(gt, acc, x) if nm.startswith("max") else ite(gt, x, acc)
    n = seqlen(v)

    def run():
        acc = mk("mref", I.newroot(idx(v, ZERO)))
        each(I, loops.mkdrop(v, ONE), lambda x: I.store(acc, step(I.load(acc), x)))
        return some(I.load(acc))
    return I.branch(cmp(n, ZERO, ">", True), run, lambda: NONET)


@m("Iterator::try_for_each", "Iterator::try_fold")
def _(I, f, a, e):
    return I.unknown(f["name"], S(I, a[0], e))


@m("Vec::clear", "String::clear", "VecDeque::clear")
def _(I, f, a, e):
    I.store(a[0], EMPTY)
    return UNIT


@m("Vec::truncate")
def _(I, f, a, e):
    v = I.load(a[0])
    n = seqlen(v)
    I.store(a[0], ite(cmp(a[1], n, "<", True), slice_(v, ZERO, a[1]), v))
    return UNIT


@m("Vec::resize")
def _(I, f, a, e):
    v = I.load(a[0])
    n = seqlen(v)
    s = gensym("ix")
    x = a[2]
    d = sub(a[1], n)
    I.store(a[0], ite(cmp(a[1], n, "<", True), slice_(v, ZERO, a[1]),
                      concat(v, SQ._lift_nocache(lambda d: mkcomp(s, d, seq_of(x)), d))))
    return UNIT


@m("Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "HashMap::reserve")
def _(I, f, a, e):
    return UNIT


@m("mem::drop", "mem::forget")
def _(I, f, a, e):
    if e and e.get("a"):
        I.dropped(e["a"][0], f["name"] == "drop")
    return UNIT


@m("Vec::extend_from_slice", "Vec::append")
def _(I, f, a, e):
    o = val(I, a[1])
    I.store(a[0], concat(I.load(a[0]), o))
    if f["name"] == "append":
        I.store(a[1], EMPTY)
    return UNIT


@m("Vec::swap", "slice::swap")
def _(I, f, a, e):
    v = I.load(a[0])
    I.bounds(v, a[1], e)
    I.bounds(v, a[2], e)
    x, y = idx(v, a[1]), idx(v, a[2])
    I.store(a[0], aset(aset(v, a[1], y), a[2], x))
    return UNIT


@m("slice::fill")
def _(I, f, a, e):
    n = seqlen(I.load(a[0]))
    s = gensym("ix")
    x = a[1]
    I.store(a[0], SQ._lift_nocache(lambda n: mkcomp(s, n, seq_of(x)), n))
    return UNIT


@m("Vec::len", "slice::len", "String::len", "str::len", "VecDeque::len", "ExactSizeIterator::len", "Iterator::count")
def _(I, f, a, e):
    return seqlen(val(I, a[0]))


@m("Vec::is_empty", "slice::is_empty", "String::is_empty", "VecDeque::is_empty")
def _(I, f, a, e):
    return cmp(seqlen(val(I, a[0])), ZERO, "==", True)


@m("slice::last", "Vec::last", "Iterator::last")
def _(I, f, a, e):
    v = val(I, a[0])
    n = seqlen(v)
    return ite(cmp(n, ZERO, ">", True), some(idx(v, sub(n, ONE))), NONET)


@m("slice::first", "Vec::first", "VecDeque::front")
def _(I, f, a, e):
    v = val(I, a[0])
    n = seqlen(v)
    return ite(cmp(n, ZERO, ">", True), some(idx(v, ZERO)), NONET)


@m("slice::split_last", "slice::split_first")
def _(I, f, a, e):
    v = val(I, a[0])
    n = seqlen(v)
    x, r = (sub(n, ONE), (ZERO, sub(n, ONE))) if f["name"] == "split_last" else (ZERO, (ONE, n))
    return ite(cmp(n, ZERO, ">", True), some(tup(idx(v, x), SQ.slice_(v, *r))), NONET)


@m("slice::get", "Vec::get", "VecDeque::get", "slice::get_mut")
def _(I, f, a, e):
    v = val(I, a[0])
    n = seqlen(v)
    i = a[1]
    x = I.extend(a[0], ("i", i)) if f["name"] == "get_mut" else idx(v, i)
    return ite(cmp(i, n, "<", True), some(x), NONET)


@m("slice::windows")
def _(I, f, a, e):
    v = val(I, a[0])
    w = a[1]
    s = gensym("ix")
    n = add(sub(seqlen(v), w), ONE)
    body = seq_of(slice_(v, s, add(s, w)))
    return SQ._lift_nocache(lambda n: ite(cmp(n, ZERO, ">", True), mkcomp(s, n, body), EMPTY), n)


@m("slice::copy_from_slice", "slice::clone_from_slice")
def _(I, f, a, e):
    d = I.load(a[0])
    s = val(I, a[1])
    I.panic(cmp(seqlen(d), seqlen(s), "!=", True), "copylen", tup(d, s))
    I.store(a[0], s)
    return UNIT


@m("slice::sort_by", "slice::sort", "slice::sort_by_key", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def _(I, f, a, e):
    u, v = gensym("u"), gensym("v")
    t = elem_type(I, argty(I, e)) if e else None
    if f["name"] in ("sort", "sort_unstable"):
        o = order(u, v, t, I.frames[-1].types)
    elif "key" in f["name"]:
        o = key_order(I, f, a[1], u, v)
    else:
        o = I.apply(a[1], [u, v])
    I.store(a[0], mksorted(I.load(a[0]), SQ.mklam(u, SQ.mklam(v, o))))
    return UNIT


def div_int(n, k):
    """quotient of a count by a constant"""
    def leaf(n):
        if n is BOT:
            return BOT
        c = int(const_val(k))
        if is_const(n):
            return num(int(const_val(n) / c))
        if n.op == "num" and all(x % c == 0 for x in P(n).values()):
            return mul(n, num(Fr(1, c)))
        return app("idiv", n, k)
    return SQ._lift_nocache(leaf, n)


def quotient(n, k):
    """truncating division of integers"""
    if is_const(k) and const_val(k) > 0 and const_val(k) == int(const_val(k)):
        return div_int(n, k)
    return app("idiv", n, k)


REBUILD["idiv"] = quotient


def elem_type(I, t):
    """type of the elements of a vector or slice"""
    t = peel(I, t) if t else None
    if t is None:
        return None
    if t["k"] in ("slice", "array") and t.get("t") is not None:
        return I.frames[-1].types[t["t"]]
    if t["k"] == "adt" and t["p"] in VECS and t.get("a"):
        return I.frames[-1].types[t["a"][0]]
    return None


def order(x, y, t=None, types=None):
    """the ordering of two values, named the same however it is computed"""
    ORDV = ("Less", "Equal", "Greater")
    p = "core::cmp::Ordering"
    if t is not None and t["k"] == "prim" and t["s"] not in ("str", "bool", "char"):
        c = lambda v: adt(p, v, (), ())
        i = t["s"] in IP.INTS
        return ite(cmp(x, y, "<", i), c("Less"), ite(cmp(x, y, "==", i), c("Equal"), c("Greater")))
    if t is not None and t["k"] == "tuple" and t.get("a") and types:
        r = None
        for i in reversed(range(len(t["a"]))):
            o = order(field(x, str(i)), field(y, str(i)), types[t["a"][i]], types)
            r = o if r is None else ite(variant_is(o, p, "Equal", ORDV), r, o)
        return r
    return app("ord", x, y)


def key_order(I, f, cl, x, y):
    """the ordering of the keys of two values"""
    t = closure_type(I, cl)
    return order(val(I, I.apply(cl, [x])), val(I, I.apply(cl, [y])), peel(I, t) if t else None, I.frames[-1].types)


def closure_type(I, cl):
    """type a closure returns"""
    try:
        c = I.clos[cl.args[0]]
        if c.fn["types"] is not I.frames[-1].types:
            return None
        return c.fn["types"][c.body["e"]["ty"]] if "ty" in c.body["e"] else c.fn["types"][IP.strip_scope(c.body["e"])["ty"]]
    except Exception:
        return None


def mksorted(t, o):
    def leaf(t):
        if t is BOT:
            return BOT
        if t.op == "sorted" and t.args[1] is o or t is EMPTY:
            return t
        return mk("sorted", t, o)
    return SQ._lift_nocache(leaf, t)


REBUILD["sorted"] = mksorted
SQ.LENHOOK["sorted"] = lambda t: seqlen(t.args[0])


@m("slice::contains", "Vec::contains", "VecDeque::contains")
def _(I, f, a, e):
    v = val(I, a[0])
    x = val(I, a[1])
    return any_seq(v, lambda y: eq(y, x))


def joined(v, sep):
    """texts with a separator between them"""
    n = seqlen(v)
    if v.op == "seq" and not all(p.op == "elem" for p in v.args) and len(v.args) != 1:
        return app("join", v, sep)
    s = gensym("ix")
    last = sub(n, ONE)
    return ite(cmp(n, ZERO, ">", True), concat(SQ.mkcomp(s, last, concat(idx(v, s), sep)), idx(v, last)), EMPTY)


@m("slice::concat", "slice::join")
def _(I, f, a, e):
    if f["name"] == "join":
        v, sep = val(I, a[0]), val(I, a[1])
        if sep.op == "str":
            return SQ._lift_nocache(lambda x: joined(x, sep), v)
        return app("join", v, sep)
    return concat_text(val(I, a[0]))


@m("Index::index")
def _(I, f, a, e):
    c = a[0]
    t = argty(I, e)
    if typath(t) in MAPS:
        mm, k = val(I, c), val(I, a[1])
        I.panic(b_not(mhas(mm, k)), "mapindex", tup(mm, k))
        return mval(mm, k)
    return I.index_value(val(I, c), a[1], e)


@m("IndexMut::index_mut")
def _(I, f, a, e):
    return I.index_place(a[0], a[1], e)


# ------------------------------------------------------------------ iterators
def S(I, x, e=None, i=0):
    return into_seq(I, x, I.ty(e["a"][i]) if e else None)


@m("Iterator::map")
def _(I, f, a, e):
    return map_seq(I, S(I, a[0], e), a[1])


@m("Iterator::filter")
def _(I, f, a, e):
    return filter_seq(I, S(I, a[0], e), a[1])


@m("Iterator::filter_map", "Iterator::flat_map")
def _(I, f, a, e):
    if f["name"] == "filter_map":
        out = mk("mref", I.newroot(EMPTY))

        def el(x):
            r = I.apply(a[1], [x])
            I.store(out, concat(I.load(out), ite(variant_is(r, OPT, "Some", OPTV), seq_of(vfield(r, "Some", "0")), EMPTY)))
        each(I, S(I, a[0], e), el)
        return I.load(out)
    return flat_map(I, S(I, a[0], e), a[1])


@m("Iterator::flatten")
def _(I, f, a, e):
    t = argty(I, e) if e else None
    if t is not None and t["k"] == "adt" and t["p"].split("::")[-1] in ("Iter", "IterMut", "IntoIter") and t.get("a"):
        t = I.frames[-1].types[t["a"][-1] if t["p"].split("::")[-1] != "IntoIter" else t["a"][0]]
    else:
        t = None
    return flat_map(I, S(I, a[0], e), None, t)


@m("Iterator::for_each")
def _(I, f, a, e):
    each(I, S(I, a[0], e), lambda x: I.apply(a[1], [x]))
    return UNIT


@m("Iterator::fold")
def _(I, f, a, e):
    acc = mk("mref", I.newroot(a[1]))
    each(I, S(I, a[0], e), lambda x: I.store(acc, I.apply(a[2], [I.load(acc), x])))
    return I.load(acc)


@m("Iterator::enumerate")
def _(I, f, a, e):
    return enum_seq(S(I, a[0], e))


@m("Iterator::zip", "iter::zip")
def _(I, f, a, e):
    x = S(I, a[0], e)
    y = S(I, a[1], e, 1) if e and a[1].op != "range" else into_seq(I, a[1])
    return zip_seq(x, y)


@m("Iterator::rev")
def _(I, f, a, e):
    return rev_seq(S(I, a[0], e))


@m("Iterator::chain")
def _(I, f, a, e):
    return concat(S(I, a[0], e), S(I, a[1], e, 1))


@m("Iterator::take")
def _(I, f, a, e):
    if a[0].op == "repeat":
        s, x = gensym("ix"), a[0].args[0]
        return SQ._lift_nocache(lambda n: SQ.mkcomp(s, n, seq_of(x)), a[1])
    v = S(I, a[0], e)
    n = seqlen(v)
    return ite(cmp(a[1], n, "<", True), slice_(v, ZERO, a[1]), v)


@m("Iterator::skip")
def _(I, f, a, e):
    import loops
    v = S(I, a[0], e)
    n = seqlen(v)
    return ite(cmp(a[1], n, "<", True), loops.mkdrop(v, a[1]), EMPTY)


@m("Iterator::collect")
def _(I, f, a, e):
    return collect(I, S(I, a[0], e), peel(I, I.ty(e)) if e else None)


@m("FromIterator::from_iter")
def _(I, f, a, e):
    return collect(I, S(I, a[0], e), peel(I, I.ty(e)) if e else None)


@m("Iterator::unzip")
def _(I, f, a, e):
    v = S(I, a[0], e)
    return tup(seqmap(v, lambda x: field(x, "0")), seqmap(v, lambda x: field(x, "1")))


@m("Iterator::sum")
def _(I, f, a, e):
    return sum_seq(S(I, a[0], e))


@m("Iterator::product")
def _(I, f, a, e):
    return prod_seq(S(I, a[0], e))


@m("Iterator::any")
def _(I, f, a, e):
    return any_seq(map_seq(I, S(I, a[0], e), a[1]), lambda x: b_atom(x))


@m("Iterator::all")
def _(I, f, a, e):
    return b_not(any_seq(map_seq(I, S(I, a[0], e), a[1]), lambda x: b_not(b_atom(x))))


@m("Iterator::position", "Iterator::find")
def _(I, f, a, e):
    v = S(I, a[0], e)
    bs = map_seq(I, v, a[1])
    n = seqlen(v)
    s = gensym("ix")
    i = SQ._lift_nocache(lambda n: mkfirst(s, n, b_atom(idx(bs, s))), n)
    return ite(cmp(i, n, "<", True), some(i if f["name"] == "position" else idx(v, i)), NONET)


@m("Iterator::next")
def _(I, f, a, e):
    import loops
    r = a[0]
    v = I.load(r)
    if v.op in ("range",) or (v.op == "adt" and v.args[0] != OPT):
        v = into_seq(I, v)
    n = seqlen(v)
    c = cmp(n, ZERO, ">", True)
    x = idx(v, ZERO)
    I.store(r, ite(c, loops.mkdrop(v, ONE), v))
    if x.op == "iores" or c is TRUE and False:
        pass
    return ite(c, some(x), NONET)


@m("Iterator::nth")
def _(I, f, a, e):
    import loops
    r = a[0]
    v = I.load(r)
    n = seqlen(v)
    c = cmp(a[1], n, "<", True)
    x = idx(v, a[1])
    I.store(r, ite(c, loops.mkdrop(v, add(a[1], ONE)), EMPTY))
    return ite(c, some(x), NONET)


@m("Iterator::max", "Iterator::min")
def _(I, f, a, e):
    return app(f["name"] + "of", S(I, a[0], e))


@m("Extend::extend")
def _(I, f, a, e):
    t = argty(I, e)
    p = typath(t)
    new = S(I, a[1], e, 1)
    cur = I.load(a[0])
    if p in MAPS:
        I.store(a[0], mkmset(cur, new))
    elif p in SETS:
        I.store(a[0], mksset(cur, new))
    elif p == "alloc::string::String":
        I.store(a[0], concat(cur, concat_text(new)))
    else:
        I.store(a[0], concat(cur, new))
    return UNIT


# ------------------------------------------------------------------ maps and sets
@m("HashMap::new", "HashMap::with_capacity", "BTreeMap::new")
def _(I, f, a, e):
    return MEMPTY


@m("HashSet::new", "HashSet::with_capacity", "BTreeSet::new")
def _(I, f, a, e):
    return SEMPTY


@m("HashMap::get", "BTreeMap::get")
def _(I, f, a, e):
    mm, k = val(I, a[0]), val(I, a[1])
    return ite(mhas(mm, k), some(mval(mm, k)), NONET)


@m("HashMap::get_mut", "BTreeMap::get_mut")
def _(I, f, a, e):
    mm, k = I.load(a[0]), val(I, a[1])
    return ite(mhas(mm, k), some(I.extend(a[0], ("m", k))), NONET)


@m("HashMap::contains_key", "BTreeMap::contains_key")
def _(I, f, a, e):
    return mhas(val(I, a[0]), val(I, a[1]))


@m("HashMap::insert", "BTreeMap::insert")
def _(I, f, a, e):
    mm, k = I.load(a[0]), val(I, a[1])
    old = ite(mhas(mm, k), some(mval(mm, k)), NONET)
    I.store(a[0], mset(mm, k, a[2]))
    return old


@m("HashMap::entry", "BTreeMap::entry")
def _(I, f, a, e):
    en = tup(string("entry"), a[0], a[1])
    return ite(mhas(I.load(a[0]), val(I, a[1])), adt(ENTRY, "Occupied", ("0",), (en,)), adt(ENTRY, "Vacant", ("0",), (en,)))


ENTRY = "std::collections::hash::map::Entry"


def entry_of(en):
    while en.op == "sw":
        en = next(c for c in en.args[3] if c is not BOT)
    return en.args[3][0] if en.op == "adt" else en


@m("OccupiedEntry::get_mut", "OccupiedEntry::into_mut", "OccupiedEntry::get", "OccupiedEntry::key", "VacantEntry::key",
   "OccupiedEntry::insert", "VacantEntry::insert", "OccupiedEntry::remove", "Entry::key", "VacantEntry::into_key")
def _(I, f, a, e):
    en = a[0]
    while is_mref(en):
        en = I.load(en)
    en = entry_of(en)
    mr, k = en.args[1], en.args[2]
    n = f["name"]
    if n in ("key", "into_key"):
        return k
    if n == "insert" and "Vacant" in f["p"]:
        I.store(mr, mset(I.load(mr), k, a[1]))
        return I.extend(mr, ("m", k))
    old = mval(I.load(mr), k)
    if n == "insert":
        I.store(mr, mset(I.load(mr), k, a[1]))
        return old
    if n == "remove":
        I.store(mr, mremove(I.load(mr), k))
        return old
    return old if n == "get" else I.extend(mr, ("m", k))


def mremove(m, k):
    """a map without a key"""
    return mkmset(MEMPTY, _filtered(miter(m), lambda x: b_not(SQ.keq(field(x, "0"), k))))


def _filtered(it, c):
    out = []

    def leaf(t):
        if t is BOT:
            return BOT
        ps = EMPTY
        for p in segs(t):
            if p.op == "elem":
                ps = concat(ps, ite(c(p.args[0]), seq_of(p.args[0]), EMPTY))
            else:
                with SQ.opened(p, p.args[2]) as (s, b):
                    ps = concat(ps, SQ.mkcomp(s, p.args[1], SQ._lift_nocache(leaf, b)))
        return ps
    return SQ._lift_nocache(leaf, it)


@m("HashMap::remove", "BTreeMap::remove")
def _(I, f, a, e):
    mm, k = I.load(a[0]), val(I, a[1])
    old = ite(mhas(mm, k), some(mval(mm, k)), NONET)
    I.store(a[0], mremove(mm, k))
    return old


@m("HashMap::retain", "BTreeMap::retain")
def _(I, f, a, e):
    mm = I.load(a[0])

    def keep(x):
        v = mk("mref", I.newroot(field(x, "1")))
        c = b_atom(I.apply(a[1], [field(x, "0"), v]))
        return ite(c, seq_of(tup(field(x, "0"), I.load(v))), EMPTY)
    out = mk("mref", I.newroot(EMPTY))
    each(I, miter(mm), lambda x: I.store(out, concat(I.load(out), keep(x))))
    I.store(a[0], mkmset(MEMPTY, I.load(out)))
    return UNIT


@m("HashSet::remove", "BTreeSet::remove")
def _(I, f, a, e):
    mm, k = I.load(a[0]), val(I, a[1])
    I.store(a[0], mksset(SEMPTY, _filtered(siter(mm), lambda x: b_not(SQ.keq(x, k)))))
    return shas(mm, k)


@m("HashSet::retain", "BTreeSet::retain")
def _(I, f, a, e):
    I.store(a[0], mksset(SEMPTY, filter_seq(I, siter(I.load(a[0])), a[1])))
    return UNIT


@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _(I, f, a, e):
    en = entry_of(a[0])
    mr, k = en.args[1], en.args[2]
    mm = I.load(mr)
    has = mhas(mm, k)

    def ins():
        if f["name"] == "or_insert":
            d = a[1]
        elif f["name"] == "or_default":
            d = default_of(I, I.ty(e)) if e else ZERO
        else:
            d = I.apply(a[1], [])
        I.store(mr, mset(mm, k, d))
        return UNIT
    I.branch(has, lambda: UNIT, ins)
    return I.extend(mr, ("m", k))


@m("Entry::and_modify")
def _(I, f, a, e):
    en = entry_of(a[0])
    mr, k = en.args[1], en.args[2]
    mm = I.load(mr)
    I.branch(mhas(mm, k), lambda: I.apply(a[1], [I.extend(mr, ("m", k))]), lambda: UNIT)
    return en


def default_of(I, t):
    t = peel(I, t)
    if t is None:
        return ZERO
    if t["k"] == "prim":
        return FALSE if t["s"] == "bool" else ZERO
    p = typath(t)
    if p in MAPS:
        return MEMPTY
    if p in SETS:
        return SEMPTY
    if p == OPT:
        return NONET
    if t["k"] == "adt":
        for k, fn in I.prog.fns.items():
            if fn.get("name") == "default" and k.startswith("<" + t["p"]) and "Default" in k:
                return I.call_body(fn, fn["body"], [])
    return EMPTY


@m("Default::default")
def _(I, f, a, e):
    return default_of(I, I.ty(e)) if e else ZERO


@m("HashMap::iter", "BTreeMap::iter", "HashMap::into_iter", "HashMap::drain")
def _(I, f, a, e):
    v = miter(val(I, a[0]))
    if f["name"] == "drain":
        I.store(a[0], MEMPTY)
    return v


@m("HashMap::iter_mut")
def _(I, f, a, e):
    mm = I.load(a[0])
    return seqmap(miter(mm), lambda x: tup(field(x, "0"), I.extend(a[0], ("m", field(x, "0")))))


@m("HashMap::values_mut")
def _(I, f, a, e):
    mm = I.load(a[0])
    return seqmap(miter(mm), lambda x: I.extend(a[0], ("m", field(x, "0"))))


@m("HashMap::keys", "BTreeMap::keys", "HashMap::into_keys")
def _(I, f, a, e):
    return seqmap(miter(val(I, a[0])), lambda x: field(x, "0"))


@m("HashMap::values", "BTreeMap::values", "HashMap::into_values")
def _(I, f, a, e):
    return seqmap(miter(val(I, a[0])), lambda x: field(x, "1"))


@m("HashMap::len", "BTreeMap::len")
def _(I, f, a, e):
    return mlen(val(I, a[0]))


@m("HashMap::is_empty", "BTreeMap::is_empty")
def _(I, f, a, e):
    return cmp(mlen(val(I, a[0])), ZERO, "==", True)


@m("HashMap::clear", "BTreeMap::clear")
def _(I, f, a, e):
    I.store(a[0], MEMPTY)
    return UNIT


@m("HashSet::insert", "BTreeSet::insert")
def _(I, f, a, e):
    s = I.load(a[0])
    k = val(I, a[1])
    h = shas(s, k)
    I.store(a[0], mksset(s, seq_of(k)))
    return b_not(h)


@m("HashSet::contains", "BTreeSet::contains")
def _(I, f, a, e):
    return shas(val(I, a[0]), val(I, a[1]))


@m("HashSet::iter", "BTreeSet::iter", "HashSet::into_iter")
def _(I, f, a, e):
    return siter(val(I, a[0]))


@m("HashSet::len", "BTreeSet::len")
def _(I, f, a, e):
    return slen(val(I, a[0]))


@m("HashSet::is_empty")
def _(I, f, a, e):
    return cmp(slen(val(I, a[0])), ZERO, "==", True)


# ------------------------------------------------------------------ Option / Result
def is_some(v):
    return variant_is(v, OPT, "Some", OPTV)


def is_ok(v):
    return variant_is(v, RES, "Ok", RESV)


def kind_of(I, f, v):
    p = f["p"]
    return "R" if "result::Result" in p else "O"


def good(k, v):
    return is_some(v) if k == "O" else is_ok(v)


def payload(k, v):
    return vfield(v, "Some", "0") if k == "O" else vfield(v, "Ok", "0")


def unwrap_(I, f, a, e):
    k = kind_of(I, f, a[0])

    def run(v):
        v = val(I, v)
        c = good(k, v)
        if c is FALSE:
            I.panic(TRUE, "unwrap", v)
            raise IP.Dead()
        if c is not TRUE:
            I.panic(b_not(c), "unwrap", v)
        return payload(k, v)
    return I.with_io(a[0], run)


for _n in ("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Option::unwrap_unchecked"):
    TABLE_M[_n] = unwrap_


@m("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::unwrap_or_default", "Result::unwrap_or_default")
def _(I, f, a, e):
    k = kind_of(I, f, a[0])

    def run(v):
        def other():
            if f["name"] == "unwrap_or":
                return a[1]
            if f["name"].endswith("default"):
                return default_of(I, I.ty(e))
            return I.apply(a[1], [] if k == "O" else [ERRV])
        return I.branch(good(k, v), lambda: payload(k, v), other)
    return I.with_io(a[0], run)


@m("Option::and_then", "Result::and_then", "Option::map", "Result::map")
def _(I, f, a, e):
    k = kind_of(I, f, a[0])

    def run(v):
        def yes():
            r = I.apply(a[1], [payload(k, v)])
            if f["name"] == "map":
                r = some(r) if k == "O" else ok(r)
            return r
        return I.branch(good(k, v), yes, lambda: NONET if k == "O" else ERRT)
    if a[0].op == "iores" and f["name"] == "map":
        # stays fallible
        return mk("iores", a[0].args[0], a[0].args[1], I.apply(a[1], [a[0].args[2]]))
    return I.with_io(a[0], run)


@m("Result::map_err", "Result::inspect_err", "Result::or_else_")
def _(I, f, a, e):
    return a[0]


@m("Option::ok_or", "Option::ok_or_else")
def _(I, f, a, e):
    v = a[0]
    if v.op == "iores":
        return mk("iores", "R", v.args[1], v.args[2])
    return ite(is_some(v), ok(vfield(v, "Some", "0")), ERRT)


@m("Result::ok")
def _(I, f, a, e):
    def leaf(v):
        if v is BOT:
            return BOT
        if v.op == "iores":
            return mk("iores", "O", v.args[1], v.args[2])
        return ite(is_ok(v), some(vfield(v, "Ok", "0")), NONET)
    return SQ._lift_nocache(leaf, a[0])


@m("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _(I, f, a, e):
    k = kind_of(I, f, a[0])
    v = val(I, a[0])

    def run(v):
        c = good(k, v)
        return c if f["name"] in ("is_some", "is_ok") else b_not(c)
    return I.with_io(v, run)


@m("Option::as_ref", "Option::as_mut", "Option::cloned", "Option::copied", "Option::as_deref", "Result::as_ref", "Option::as_deref_mut")
def _(I, f, a, e):
    if f["name"].endswith("mut") and is_mref(a[0]):
        v = I.load(a[0])
        return ite(is_some(v), some(I.extend(a[0], ("v", "Some", "0", OPT))), NONET)
    return val(I, a[0])


@m("Option::take")
def _(I, f, a, e):
    v = I.load(a[0])
    I.store(a[0], NONET)
    return v


@m("Option::or", "Option::or_else", "Option::filter", "Option::is_some_and", "Option::map_or", "Option::map_or_else", "Option::zip", "Option::unzip",
   "Option::xor", "Option::and", "Option::flatten", "Option::is_none_or")
def _(I, f, a, e):
    v = a[0]
    n = f["name"]
    if n == "or":
        return ite(is_some(v), v, a[1])
    if n == "or_else":
        return I.branch(is_some(v), lambda: v, lambda: I.apply(a[1], []))
    if n == "is_some_and":
        return I.branch(is_some(v), lambda: b_atom(I.apply(a[1], [payload("O", v)])), lambda: FALSE)
    if n == "map_or":
        return I.branch(is_some(v), lambda: I.apply(a[2], [payload("O", v)]), lambda: a[1])
    if n == "map_or_else":
        return I.branch(is_some(v), lambda: I.apply(a[2], [payload("O", v)]), lambda: I.apply(a[1], []))
    if n == "filter":
        return I.branch(is_some(v), lambda: ite(b_atom(I.apply(a[1], [payload("O", v)])), v, NONET), lambda: NONET)
    if n == "zip":
        return ite(b_and(is_some(v), is_some(a[1])), some(tup(payload("O", v), payload("O", a[1]))), NONET)
    if n == "unzip":
        return ite(is_some(v), tup(some(field(payload("O", v), "0")), some(field(payload("O", v), "1"))), tup(NONET, NONET))
    if n == "xor":
        return ite(is_some(v), ite(is_some(a[1]), NONET, v), a[1])
    if n == "and":
        return ite(is_some(v), a[1], NONET)
    if n == "flatten":
        return ite(is_some(v), payload("O", v), NONET)
    if n == "is_none_or":
        return I.branch(is_some(v), lambda: b_atom(I.apply(a[1], [payload("O", v)])), lambda: TRUE)
    return I.unknown("Option::" + n, *a)


@m("Option::iter", "Option::into_iter", "Result::iter", "Result::into_iter")
def _(I, f, a, e):
    k = kind_of(I, f, a[0])
    v = val(I, a[0])
    return ite(good(k, v), seq_of(payload(k, v)), EMPTY)


@m("Option::replace", "Option::insert", "Option::get_or_insert", "Option::get_or_insert_with")
def _(I, f, a, e):
    v = I.load(a[0])
    n = f["name"]
    if n == "replace":
        I.store(a[0], some(a[1]))
        return v
    if n == "insert":
        I.store(a[0], some(a[1]))
    else:
        I.branch(is_some(v), lambda: UNIT, lambda: I.store(a[0], some(a[1] if n == "get_or_insert" else I.apply(a[1], []))) or UNIT)
    return I.extend(a[0], ("v", "Some", "0", OPT))


@m("Result::is_ok_and", "Result::map_or", "Result::map_or_else", "Result::or_else", "Result::or", "Result::and")
def _(I, f, a, e):
    n = f["name"]

    def run(v):
        if n == "is_ok_and":
            return I.branch(is_ok(v), lambda: b_atom(I.apply(a[1], [payload("R", v)])), lambda: FALSE)
        if n == "map_or":
            return I.branch(is_ok(v), lambda: I.apply(a[2], [payload("R", v)]), lambda: a[1])
        if n == "map_or_else":
            return I.branch(is_ok(v), lambda: I.apply(a[2], [payload("R", v)]), lambda: I.apply(a[1], [ERRV]))
        if n == "or_else":
            return I.branch(is_ok(v), lambda: v, lambda: I.apply(a[1], [ERRV]))
        if n == "or":
            return ite(is_ok(v), v, a[1])
        return ite(is_ok(v), a[1], ERRT)
    return I.with_io(a[0], run)


@m("Result::err")
def _(I, f, a, e):
    return I.with_io(a[0], lambda v: ite(is_ok(v), NONET, some(ERRV)))


@m("bool::then", "bool::then_some")
def _(I, f, a, e):
    c = b_atom(a[0])
    return I.branch(c, lambda: some(I.apply(a[1], []) if f["name"] == "then" else a[1]), lambda: NONET)


@m("f64::clamp", "Ord::clamp")
def _(I, f, a, e):
    t = argty(I, e)
    i = bool(t and t["k"] == "prim" and t["s"] in IP.INTS)
    x, lo, hi = a[:3]
    return ite(cmp(x, lo, "<", i), lo, ite(cmp(x, hi, ">", i), hi, x))


@m("Try::branch")
def _(I, f, a, e):
    isopt = "Option" in (f.get("r") or "")

    def leaf(v):
        if v is BOT:
            return BOT
        if v.op == "iores":
            return mk("iores", "C", v.args[1], v.args[2])
        k = "O" if isopt else "R"
        return ite(good(k, v), mk("adt", CF, "Continue", ("0",), (payload(k, v),)),
                   mk("adt", CF, "Break", ("0",), (NONET if isopt else ERRT,)))
    return SQ._lift_nocache(leaf, a[0])


@m("FromResidual::from_residual")
def _(I, f, a, e):
    return a[0]


# ------------------------------------------------------------------ numbers
@m("num::max_value", "num::min_value")
def _(I, f, a, e):
    return IP.extreme(f["p"])


@m("f64::abs", "i32::abs", "i64::abs")
def _(I, f, a, e):
    return ite(cmp(a[0], ZERO, ">=", False), a[0], neg(a[0]))


@m("f64::max", "Ord::max", "cmp::max")
def _(I, f, a, e):
    isint = f["name"] == "max" and "f64" not in f["p"]
    return ite(cmp(a[0], a[1], ">=", isint), a[0], a[1])


@m("f64::min", "Ord::min", "cmp::min")
def _(I, f, a, e):
    isint = "f64" not in f["p"]
    return ite(cmp(a[0], a[1], "<=", isint), a[0], a[1])


@m("f64::sin", "f64::cos", "f64::exp", "f64::sqrt", "f64::tan", "f64::ln", "f64::floor", "f64::ceil", "f64::round", "f64::signum")
def _(I, f, a, e):
    return app(f["name"], a[0])


@m("f64::is_nan")
def _(I, f, a, e):
    return FALSE            # real arithmetic


@m("mem::discriminant")
def _(I, f, a, e):
    p = typath(argty(I, e))
    names = I.prog.enums.get(p)
    if not names:
        names = [n for n, _ in PARTED[p]] if p in PARTED else None
    if not names:
        return NotImplemented
    x = val(I, a[0])
    r = num(len(names) - 1)
    for i, n in enumerate(names[:-1]):
        r = ite(variant_is(x, p, n, names), num(i), r)
    return r


@m("f64::is_finite", "f64::is_infinite")
def _(I, f, a, e):
    return b_atom(app(f["name"], a[0]))


@m("f64::powi")
def _(I, f, a, e):
    if is_const(a[1]):
        return powi(a[0], int(const_val(a[1])))
    return app("powi", *a)


@m("ToPrimitive::to_f64", "ToPrimitive::to_f32")
def _(I, f, a, e):
    return some(val(I, a[0]))


@m("ToPrimitive::to_i32")
def _(I, f, a, e):
    x = val(I, a[0])
    return ite(cmp(x, num(2 ** 31), "<", True), some(x), NONET)


@m("ToPrimitive::to_usize", "ToPrimitive::to_u32", "ToPrimitive::to_u64")
def _(I, f, a, e):
    x = val(I, a[0])
    return ite(cmp(x, ZERO, ">=", True), some(x), NONET)


@m("Zero::zero")
def _(I, f, a, e):
    return ZERO


@m("One::one")
def _(I, f, a, e):
    return ONE


@m("Zero::is_zero")
def _(I, f, a, e):
    return cmp(val(I, a[0]), ZERO, "==", False)


def arith(op):
    def g(I, f, a, e):
        x, y = val(I, a[0]), val(I, a[1])
        t = argty(I, e)
        if typath(t) and "ndarray" in typath(t):
            s = gensym("ix")
            n = seqlen(x)
            I.panic(cmp(n, seqlen(y), "!=", True), "shape", tup(x, y))
            return SQ._lift_nocache(lambda n: mkcomp(s, n, seq_of(op(idx(x, s), idx(y, s)))), n)
        if typath(t) == "alloc::string::String":
            return concat(x, y)
        if t and t["k"] == "adt":
            return I.unknown("operator on " + t["p"], x, y)
        return op(x, y)
    return g


for _n, _o in (("Add::add", add), ("Sub::sub", sub), ("Mul::mul", mul)):
    TABLE_M[_n] = arith(_o)


@m("Div::div")
def _(I, f, a, e):
    t = argty(I, e)
    if t and t["k"] == "prim" and t["s"] in IP.INTS:
        return quotient(val(I, a[0]), val(I, a[1]))
    return div(val(I, a[0]), val(I, a[1]))


@m("Neg::neg")
def _(I, f, a, e):
    return neg(val(I, a[0]))


@m("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def _(I, f, a, e):
    o = {"add": add, "sub": sub, "mul": mul}[f["name"].split("_")[0]]
    x, y = I.load(a[0]), val(I, a[1])
    t = argty(I, e)
    if typath(t) == "alloc::string::String":
        I.store(a[0], concat(x, y))
    else:
        I.store(a[0], o(x, y))
    return UNIT


PARTED = {OPT: (("None", None), ("Some", 0)), "core::result::Result": (("Ok", 0), ("Err", 1))}


def generic_eq(I, x, y, t):
    if t and t["k"] == "prim":
        if t["s"] == "bool":
            x, y = b_atom(x), b_atom(y)
            return b_or(b_and(x, y), b_and(b_not(x), b_not(y)))
        if t["s"] == "char":
            return eq(x, y)
        return cmp(x, y, "==", t["s"] in IP.INTS)
    p = typath(t)
    if p == "param":
        return eq(x, y)
    if p and p.endswith("mem::Discriminant"):
        return cmp(x, y, "==", True)
    if p in PARTED or p == "tuple":
        try:
            inner = [peel(I, I.frames[-1].types[i]) for i in t["a"]]
        except (KeyError, IndexError, TypeError):
            inner = None
        if inner and p == "tuple":
            r = TRUE
            for i, u in enumerate(inner):
                r = b_and(r, b_atom(generic_eq(I, field(x, str(i)), field(y, str(i)), u)))
            return r
        if inner:
            vs = PARTED[p]
            names = [n for n, _ in vs]

            def leaf(x, y):
                if BOT in (x, y):
                    return BOT
                r = FALSE
                for v, k in vs:
                    h = b_and(variant_is(x, p, v, names), variant_is(y, p, v, names))
                    if k is not None and h is not FALSE:
                        h = b_and(h, b_atom(generic_eq(I, vfield(x, v, "0"), vfield(y, v, "0"), inner[k])))
                    r = b_or(r, h)
                return r
            return SQ._lift2_nocache(leaf, x, y)
    if p in I.prog.enums and fieldless(I, p):
        r = FALSE
        allv = I.prog.enums[p]
        for v in allv:
            r = b_or(r, b_and(variant_is(x, p, v, allv), variant_is(y, p, v, allv)))
        return r
    return eq(x, y)


def fieldless(I, p):
    a = I.prog.adts.get(p)
    return a is not None and all(not v["f"] for v in a["variants"])


@m("PartialEq::eq", "PartialEq::ne")
def _(I, f, a, e):
    t = argty(I, e)
    x, y = val(I, a[0]), val(I, a[1])
    # a user-defined equality of a local type
    r = None
    if t and t["k"] == "adt":
        k = "<%s as core::cmp::PartialEq>::eq" % t["p"]
        fn = I.prog.fns.get(k)
        if fn is not None and not fn.get("derived"):
            pol = I.policy.get(k)
            if k not in I.stack and pol != "opaque":
                r = I.call_body(fn, fn["body"], [x, y]) if not callable(pol) else pol(I, f, [x, y], e)
                if r is NotImplemented:
                    r = I.call_body(fn, fn["body"], [x, y])
    if r is None:
        r = generic_eq(I, x, y, t)
    return r if f["name"] == "eq" else b_not(b_atom(r))


@m("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(I, f, a, e):
    t = argty(I, e)
    o = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[f["name"]]
    return cmp(val(I, a[0]), val(I, a[1]), o, bool(t and t["k"] == "prim" and t["s"] in IP.INTS))


@m("PartialOrd::partial_cmp", "Ord::cmp", "f64::total_cmp")
def _(I, f, a, e):
    x = order(val(I, a[0]), val(I, a[1]), argty(I, e) if e else None, I.frames[-1].types)
    return some(x) if f["name"] == "partial_cmp" else x


@m("Rc::ptr_eq", "ptr::eq", "ptr::addr_eq")
def _(I, f, a, e):
    x, y = val(I, a[0]), val(I, a[1])
    return ptr_eq(x, y)


def ptr_eq(x, y):
    def leaf(x, y):
        if BOT in (x, y):
            return BOT
        x, y = [z.args[0] if z.op == "addr" else z for z in (x, y)]
        if x is y:
            return TRUE
        if okey(x) > okey(y):
            x, y = y, x
        return b_atom(mk("ptr_eq", x, y))
    return lift("ptr_eq", leaf, x, y)


REBUILD["ptr_eq"] = ptr_eq
REBUILD["setv"] = setv


@m("mem::swap")
def _(I, f, a, e):
    x, y = I.load(a[0]), I.load(a[1])
    I.store(a[0], y)
    I.store(a[1], x)
    return UNIT


@m("mem::replace", "mem::take")
def _(I, f, a, e):
    x = I.load(a[0])
    I.store(a[0], a[1] if len(a) > 1 else default_of(I, I.ty(e)))
    return x


@m("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(I, f, a, e):
    args = a[1]
    if args.op == "tup":
        return I.apply(val(I, a[0]), list(args.args))
    return I.unknown("call of a function value", *a)


# ------------------------------------------------------------------ panics
@m("panicking::panic", "panicking::begin_panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display",
   "panicking::unreachable_display", "panicking::panic_explicit", "panicking::unreachable", "panicking::panic_str_2015", "panicking::assert_failed_inner",
   "rt::begin_panic", "rt::panic_fmt", "option::unwrap_failed", "process::abort", "process::exit")
def _(I, f, a, e):
    I.panic(TRUE, "panic", a[0] if a else None)
    raise IP.Dead()


# ------------------------------------------------------------------ errors
@m("error::new", "SimpleError::new", "Error::new", "Error::other", "SimpleError::from", "Error::from")
def _(I, f, a, e):
    return ERRV


# ------------------------------------------------------------------ files and processes
def fallible(I, name, okval, *args):
    """An operation that may fail.  Normally the failing side is followed
    separately (with_io); with the policy "__fork__" it is a decision."""
    if I.policy.get("__fork__"):
        return ite(b_atom(app("iofail", name, *args)), adt("core::result::Result", "Err", ("0",), (ERRV,)), ok(okval))
    return mk("iores", "R", mk("ev", name, *args), okval)


@m("File::create", "File::create_new")
def _(I, f, a, e):
    I.event("create", val(I, a[0]))
    return fallible(I, "create", app("file", val(I, a[0])), val(I, a[0]))


@m("File::open")
def _(I, f, a, e):
    I.event("open", val(I, a[0]))
    return fallible(I, "open", app("rfile", val(I, a[0])), val(I, a[0]))


@m("BufWriter::new", "BufWriter::with_capacity", "LineWriter::new")
def _(I, f, a, e):
    return bufw(a[-1], EMPTY)


@m("BufReader::new", "BufReader::with_capacity")
def _(I, f, a, e):
    return tup(string("reader"), a[-1], ZERO)


@m("BufRead::read_line")
def _(I, f, a, e):
    r = I.load(a[0])
    if r.op != "tup":
        return I.unknown("read_line", r)
    file, k = r.args[1], r.args[2]
    line = app("line", file, k)
    I.store(a[0], tup(r.args[0], file, add(k, ONE)))
    I.store(a[1], concat(I.load(a[1]), line))
    return fallible(I, "read_line", app("bytes", line), file, k)


@m("BufRead::lines")
def _(I, f, a, e):
    r = val(I, a[0])
    if r.op != "tup":
        return I.unknown("lines", r)
    file, k = r.args[1], r.args[2]
    s = gensym("ix")
    n = sub(app("nlines", file), k)
    NONNEG.add(app("nlines", file))
    return mkcomp(s, app("nlinesfrom", file, k), seq_of(mk("iores", "R", mk("ev", "readline", file), app("line", file, add(k, s)))))


@m("Read::read_to_string", "fs::read_to_string")
def _(I, f, a, e):
    if f["name"] == "read_to_string" and len(a) == 1:
        I.event("open", val(I, a[0]))
        return fallible(I, "open", app("filetext", val(I, a[0])), val(I, a[0]))
    return I.unknown("read_to_string", *a)


@m("fs::write")
def _(I, f, a, e):
    name = val(I, a[0])
    I.event("create", name)
    I.event("flush", app("file", name), val(I, a[1]))
    return fallible(I, "create", UNIT, name)


@m("fs::remove_file")
def _(I, f, a, e):
    I.event("remove", val(I, a[0]))
    return fallible(I, "remove", UNIT, val(I, a[0]))


@m("Builder::new")
def _(I, f, a, e):
    if "tempfile" in f["p"]:
        return tup(string("builder"), string(""), string(""))
    return I.unknown("Builder::new")


@m("Builder::rand_bytes")
def _(I, f, a, e):
    b = I.load(a[0])
    I.store(a[0], tup(*(b.args[:3] + (I.load(a[1]),))))
    return a[0]


@m("Builder::prefix", "Builder::suffix")
def _(I, f, a, e):
    b = I.load(a[0])
    l = list(b.args)
    l[1 if f["name"] == "prefix" else 2] = val(I, a[1])
    I.store(a[0], tup(*l))
    return a[0]


@m("Builder::tempfile", "Builder::tempfile_in")
def _(I, f, a, e):
    b = val(I, a[0])
    n = I.__dict__.setdefault("ntmp", {})
    key = b
    n[key] = n.get(key, 0) + 1
    return fallible(I, "tempfile", app("tmp", b.args[1], b.args[2], num(n[key]), *b.args[3:]), b.args[1], b.args[2])


@m("NamedTempFile::path", "TempPath::as_ref")
def _(I, f, a, e):
    return app("path", val(I, a[0]))


@m("Path::file_name")
def _(I, f, a, e):
    return some(app("fname", val(I, a[0])))


@m("Path::to_str", "OsStr::to_str", "OsStr::to_string_lossy", "OsString::into_string")
def _(I, f, a, e):
    if f["name"] == "to_string_lossy":
        return val(I, a[0])
    return some(val(I, a[0]))


@m("Path::exists")
def _(I, f, a, e):
    return b_atom(app("exists", val(I, a[0])))


@m("Command::new")
def _(I, f, a, e):
    return tup(val(I, a[0]), EMPTY, string("default"))


@m("Command::arg", "Command::args", "Command::stdout", "Command::stderr", "Command::stdin", "Command::current_dir", "Command::env")
def _(I, f, a, e):
    c = I.load(a[0])
    n = f["name"]
    x = val(I, a[1])
    if n == "arg":
        c = tup(c.args[0], concat(c.args[1], seq_of(x)), c.args[2])
    elif n == "args":
        c = tup(c.args[0], concat(c.args[1], into_seq(I, a[1], I.ty(e["a"][1]) if e else None)), c.args[2])
    elif n == "stdout":
        c = tup(c.args[0], c.args[1], x)
    I.store(a[0], c)
    return a[0]


@m("Stdio::null", "Stdio::inherit", "Stdio::piped")
def _(I, f, a, e):
    return string(f["name"])


@m("Command::spawn", "Command::status", "Command::output")
def _(I, f, a, e):
    c = val(I, a[0])
    fx = I.st[IP.FXROOT]
    I.event("spawn", c)
    if f["name"] != "spawn":
        I.event("wait", c)
    if I.policy.get("__fork__"):
        I.st[IP.FXROOT] = ite(b_atom(app("iofail", "spawn", c)), concat(fx, seq_of(app("ev", "nospawn", c))), I.st[IP.FXROOT])
    return fallible(I, "spawn", app("child", c), c)


@m("Child::wait", "Child::wait_with_output")
def _(I, f, a, e):
    c = val(I, a[0])
    I.event("wait", c.args[0] if c.op == "child" else c)
    return fallible(I, "wait", app("exit", c), c)


# ------------------------------------------------------------------ raw pointers
@m("ptr::null_mut", "ptr::null")
def _(I, f, a, e):
    return mk("nullptr")


@m("*mut T::is_null", "*const T::is_null", "mut_ptr::is_null", "const_ptr::is_null")
def _(I, f, a, e):
    def leaf(p):
        while p.op == "padd":
            p = p.args[0]
        if p.op == "pcast":
            p = p.args[0]
        if p.op == "nullptr":
            return TRUE
        if p.op in ("pmut", "cptr", "vptr"):
            return FALSE
        return b_atom(mk("isnull", p))
    return SQ._lift_nocache(leaf, a[0])


@m("*mut T::add", "*const T::add", "mut_ptr::add", "const_ptr::add", "mut_ptr::offset", "const_ptr::offset", "mut_ptr::wrapping_add")
def _(I, f, a, e):
    p = a[0]
    if p.op == "sw":
        import loops
        base, off = loops.pointer(p)
        if base is not None:
            return mk("padd", base, add(off, a[1]))
    if p.op == "padd":
        return mk("padd", p.args[0], add(p.args[1], a[1]))
    return mk("padd", p, a[1])


@m("Rc::as_ptr", "ptr::from_ref")
def _(I, f, a, e):
    return app("addr", val(I, a[0]))


@m("Vec::as_ptr", "Vec::as_mut_ptr", "slice::as_ptr", "slice::as_mut_ptr")
def _(I, f, a, e):
    if is_mref(a[0]) and f["name"] == "as_mut_ptr":
        return mk("vptrmut", a[0])
    return app("vptr", val(I, a[0]))


@m("slice::from_raw_parts", "raw::from_raw_parts", "slice::from_raw_parts_mut", "raw::from_raw_parts_mut")
def _(I, f, a, e):
    p, n = a
    if f["name"].endswith("mut"):
        return ptr_region(I, p, n, "slice")
    return read_region(I, p, n)


def read_region(I, p, n):
    """the n values found at p"""
    def leaf(p):
        if p is BOT:
            return BOT
        off, b = ZERO, p
        while b.op == "padd":
            off = add(off, b.args[1])
            b = b.args[0]
        if b.op == "vptr":
            return b.args[0] if off is ZERO and seqlen(b.args[0]) is n else slice_(b.args[0], off, add(off, n))
        if b.op != "pptr":
            return I.unknown("pointer region", p, n)
        root = mk("root", "mem:" + b.args[0])
        if root not in I.st:
            I.st[root] = sym("mem_" + b.args[0])
        I.event("readn", b, off, n)
        s, m = gensym("ix"), I.st[root]
        return SQ._lift_nocache(lambda n: mkcomp(s, n, seq_of(idx(m, add(off, s)))), n)
    return SQ._lift_nocache(leaf, p)


def ptr_region(I, p, n, why):
    off = ZERO
    b = p
    while b.op == "padd":
        off = add(off, b.args[1])
        b = b.args[0]
    if b.op != "pptr":
        return I.unknown("pointer region", p, n)
    root = mk("root", "mem:" + b.args[0])
    if root not in I.st:
        I.st[root] = sym("mem_" + b.args[0])
    I.event("region", b, off, n)
    return mk("mref", root, ("s", off, add(off, n)))


@m("ptr::copy", "ptr::copy_nonoverlapping", "intrinsics::copy_nonoverlapping", "intrinsics::copy")
def _(I, f, a, e):
    src, dst, n = a
    d = ptr_region(I, dst, n, "copy")
    x = read_region(I, src, n)
    if is_mref(d):
        I.store(d, x)
    return UNIT


@m("mut_ptr::as_mut", "mut_ptr::as_ref", "const_ptr::as_ref")
def _(I, f, a, e):
    null = call(I, dict(f, name="is_null", p=f["p"].rsplit("::", 1)[0] + "::is_null"), [a[0]], e)

    def there():
        p = I.ptr_place(a[0])
        return some(p if f["name"] == "as_mut" else I.load(p))
    return I.branch(b_atom(null), lambda: NONET, there)


@m("NonNull::new")
def _(I, f, a, e):
    null = call(I, dict(f, name="is_null", p="core::ptr::mut_ptr::is_null"), [a[0]], e)
    return I.branch(b_atom(null), lambda: NONET, lambda: some(a[0]))


@m("NonNull::as_ptr", "NonNull::new_unchecked", "NonNull::cast")
def _(I, f, a, e):
    return val(I, a[0])


@m("NonNull::as_mut", "NonNull::as_ref")
def _(I, f, a, e):
    p = I.ptr_place(val(I, a[0]))
    return p if f["name"] == "as_mut" else I.load(p)


@m("mut_ptr::write", "ptr::write")
def _(I, f, a, e):
    I.store(I.ptr_place(a[0]), a[1])
    return UNIT


@m("mut_ptr::read", "const_ptr::read", "ptr::read")
def _(I, f, a, e):
    return I.load(I.ptr_place(a[0]))


@m("CString::new")
def _(I, f, a, e):
    return fallible(I, "cstring", app("cstr", val(I, a[0])), val(I, a[0]))


@m("CStr::as_ptr", "CString::as_ptr")
def _(I, f, a, e):
    return app("cptr", val(I, a[0]))


@m("ptr::hash", "Hash::hash")
def _(I, f, a, e):
    I.event("hash", val(I, a[0]))
    return UNIT


# ------------------------------------------------------------------ ndarray
@m("ArrayBase::dot", "impl_linalg::dot")
def _(I, f, a, e):
    x, y = val(I, a[0]), val(I, a[1])
    n = seqlen(x)
    I.panic(cmp(n, seqlen(y), "!=", True), "shape", tup(x, y))
    s = gensym("ix")
    return SQ._lift_nocache(lambda n: mksum(s, n, mul(idx(x, s), idx(y, s))), n)


@m("ArrayBase::as_slice", "impl_methods::as_slice")
def _(I, f, a, e):
    return some(val(I, a[0]))


# ------------------------------------------------------------------ dispatch
def short(p):
    s = norm(p)
    parts = [x for x in s.split("::") if x]
    return "::".join(parts[-2:])


def names_of(f):
    p = f["p"]
    out = [short(p)]
    # inherent impls on primitives: core::f64::<impl f64>::abs, core::slice::<impl [T]>::iter
    return out


def forget(I, r, args):
    """what an operation that is not modelled may have changed"""
    for i, x in enumerate(args):
        if not isinstance(x, T):
            continue
        if is_mref(x):
            I.store(x, app("unk", r.args[0], num(i), I.load(x)))
        elif x.op == "clo":
            c = I.clos[x.args[0]]
            ids, st = set(), [c.body]
            while st:
                y = st.pop()
                if isinstance(y, dict):
                    if y.get("k") in ("Var", "Upvar"):
                        ids.add(y.get("id"))
                    st.extend(y.values())
                elif isinstance(y, list):
                    st.extend(y)
            for j in ids:
                root = c.env.get(j)
                if isinstance(root, T) and root in I.st:
                    v = I.st[root]
                    if is_mref(v):
                        I.store(v, app("unk", r.args[0], num(i), I.load(v)))
                    else:
                        I.st[root] = app("unk", r.args[0], num(i), v)


def call(I, f, a, e):
    for n in names_of(f):
        h = TABLE_M.get(n)
        if h is not None:
            r = h(I, f, a, e)
            if isinstance(r, T) and r.op == "unk":
                forget(I, r, a)
            return r
    key = f.get("r") or f["p"]
    pn = f["p"]
    # derived or missing bodies of local types
    if f.get("trait") == "core::cmp::PartialEq" or pn.startswith("core::cmp::PartialEq"):
        return TABLE_M["PartialEq::eq"](I, f, a, e)
    if f.get("foreign"):
        return foreign(I, f, a, e)
    I.unmodelled = getattr(I, "unmodelled", set())
    I.unmodelled.add(key)
    vals = []
    for x in a:
        vals.append(I.load(x) if is_mref(x) else x)
    r = I.unknown("callee " + key, *vals)
    for i, x in enumerate(a):
        if is_mref(x):
            I.store(x, app("unk", "callee " + key + " arg%d" % i, *vals))
    return r


def foreign(I, f, a, e):
    name = f["p"].split("::")[-1]
    vals = []
    muts = []
    for i, x in enumerate(a):
        if x.op == "vptrmut":
            v = I.load(x.args[0])
            muts.append((i, x.args[0], v))
            vals.append(app("vptr", v))
        elif x.op == "pmut":
            v = I.load(x.args[0])
            muts.append((i, x.args[0], v))
            vals.append(app("pval", v))
        else:
            vals.append(I.load(x) if is_mref(x) else x)
    I.event("ffi", name, *vals)
    r = app("ffi", name, *vals)
    for i, pl, v in muts:
        def out(v):
            o = mk("ffiout", name, num(i), mk("sym", "site", 0, "g"), v)
            return o
        I.store(pl, SQ._lift_nocache(lambda v: app("ffiout", name, num(i), tup(*vals), v), v))
    return r


SQ.LENHOOK["ffiout"] = lambda t: seqlen(t.args[3])
