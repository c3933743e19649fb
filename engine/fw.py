"""Obligations, comparison and reporting."""
import os, sys, json, time
from interp import *
import terms as TM
import seqs as SQ
import loops, models

WEAK = {"unk", "whileat", "fold", "inv0"}


def sym_val(I, types, t, name):
    ty = types[t]
    while ty["k"] == "ref":
        ty = types[ty["t"]]
    if ty["k"] == "refmut":
        return mk("mref", I.newroot(sym_val(I, types, ty["t"], name)))
    if ty["k"] in ("ptr", "ptrmut"):
        return mk("pptr", name)
    if ty["k"] == "tuple":
        return tup(*[sym_val(I, types, a, "%s.%d" % (name, i)) for i, a in enumerate(ty.get("a", []))])
    # a name stands for values of one kind only
    kind = "u" if ty["k"] == "prim" and ty["s"] in ("usize", "u8", "u16", "u32", "u64") else \
        "useq" if unsigned_shape(types, t) == "seq" else \
        "case of " + ty["p"] if ty["k"] == "adt" and ty.get("p") in I.prog.enums else ""
    while KINDS.setdefault(name, kind) != kind:
        name += "'"
    x = sym(name)
    if kind == "u":
        NONNEG.add(x)
    if kind == "useq":
        TM.USEQ.add(x)
    return x


KINDS = {}


def analyse(prog, key, policy=None, args=None, names=None, pre=None):
    """Value-number function `key` on symbolic parameters p0, p1, ..."""
    TM.LIFTCOUNT[0] = 0
    I = Interp(prog, policy)
    fn = prog.fns[key]
    a = []
    for i, p in enumerate(fn["body"]["params"]):
        nm = names[i] if names and i < len(names) else "p%d" % i
        if args and i < len(args) and args[i] is not None:
            x = args[i]
            ty = fn["types"][p["ty"]]
            if ty["k"] == "refmut" and x.op != "mref":
                x = mk("mref", I.newroot(x))
            a.append(x)
        else:
            a.append(sym_val(I, fn["types"], p["ty"], nm))
    I.argterms = a
    if pre:
        pre(I)
    try:
        I.result = I.run_fn(key, a)
    except Dead:
        I.result = BOT
    return I


def panics(I, classes=None):
    c = FALSE
    for p in I.panics:
        if classes is None or p.cls in classes:
            c = b_or(c, p.cond)
    return c


def ops_in(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            acc.add(x.op)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return acc


def weak(t):
    return bool(ops_in(t) & WEAK)


def size(t, cap=100000):
    seen = set()
    st = [t]
    while st and len(seen) < cap:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return len(seen)


class Cond(tuple):
    """one decision on the way to a difference: (text, part), with its subject"""
    var = None


def cond(var, nm):
    c = Cond((show(var, 5), nm))
    c.var = var
    return c


def first_diff(a, b, path=()):
    """Descend into the first place where two terms differ; decisions are
    descended with the condition recorded."""
    if a is b:
        return None
    if a.op == "sw" and b.op == "sw" and a.args[:3] == b.args[:3]:
        ls = a.args[2] if a.args[0] != "b" else ("true", "false")
        for i, (x, y) in enumerate(zip(a.args[3], b.args[3])):
            d = first_diff(x, y, path + (cond(a.args[1], lab(a, i)),))
            if d:
                return d
    elif a.op == "sw" or b.op == "sw":
        # align on the smallest variable
        t = min((x for x in (a, b) if x.op == "sw"), key=lambda x: okey(x.args[1]))
        kind, var, labels = t.args[:3]
        if kind in ("b", "v"):
            ls = (True, False) if kind == "b" else labels
            for i, l in enumerate(ls):
                d = first_diff(restrict(a, kind, var, l), restrict(b, kind, var, l), path + (cond(var, str(l)),))
                if d:
                    return d
    elif a.op == b.op and a.op in ("adt", "tup", "call", "seq", "elem", "ctor", "scat", "fld") and len(a.args) == len(b.args):
        flat = lambda t: [x for y in t.args for x in (y if isinstance(y, tuple) else (y,))]
        fa, fb = flat(a), flat(b)
        if len(fa) == len(fb) and all(isinstance(x, T) == isinstance(y, T) and (isinstance(x, T) or x == y) for x, y in zip(fa, fb)):
            names = a.args[2] if a.op == "adt" else None
            for i, (x, y) in enumerate(zip([q for q in fa if isinstance(q, T)], [q for q in fb if isinstance(q, T)])):
                nm = names[i] if names and i < len(names) else str(i)
                d = first_diff(x, y, path + (("part", (a.args[1] + "." if a.op == "adt" else a.op + ".") + nm),))
                if d:
                    return d
    return (a, b, path)


_FREE = {}


def freebv(t):
    """numbers of the bound variables free in t"""
    r = _FREE.get(t.id)
    if r is None:
        if t.op == "bv":
            r = frozenset((t.args[0],))
        else:
            r = frozenset()
            st = list(t.args)
            while st:
                x = st.pop()
                if isinstance(x, T):
                    r = r | freebv(x)
                elif isinstance(x, tuple):
                    st.extend(x)
            if t.op in BINDERS:
                r = r - {t.args[0]}
        _FREE[t.id] = r
    return r


_OPENV = {}


def openvars(t):
    """all decisions inside a term whose subject has no bound index"""
    r = _OPENV.get(t.id)
    if r is None:
        r = set()
        for x in subterms(t):
            if x.op == "sw" and not freebv(x.args[1]):
                r.add((x.args[0], x.args[1]))
        _OPENV[t.id] = r
    return r


def parts_of(kind, var, ts):
    """the cases of a decision subject over several terms"""
    labs = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "sw" and x.args[1] is var and x.args[0] == kind:
                if kind == "v":
                    return [(l, l) for l in x.args[2]]
                labs |= set(x.args[2])
    if kind == "b":
        return [(True, "true"), (False, "false")]
    if kind == "e":
        ls = sorted(labs, key=repr)
        return [(l, str(l[1]) if isinstance(l, tuple) else str(l)) for l in ls] + [(("default", tuple(ls)), "other")]
    ls = sorted(labs)
    bs = [None] + ls + [None]
    return [((a, b), "in %s..%s" % (a and a[0], b and b[0])) for a, b in zip(bs, bs[1:])]


def feasible(facts, split=False):
    """can these decisions on quantities hold together? (linear arithmetic
    over their monomials; True when unsure)"""
    rows = []           # ({mono: coef}, const, strict): sum + const >= 0 (> 0)
    monos = set()

    def row(d, sign, c, strict):
        r = {m: sign * k for m, k in d.items() if m}
        c0 = c + sign * d.get((), 0)
        monos.update(r)
        rows.append((r, c0, strict))
    for kind, var, part in facts:
        if kind == "b" and var.op == "eq" and all(a.op in ("idx", "sym", "fld", "num", "poly", "len", "elem") for a in var.args):
            d = P(sub(*var.args))
            if part:
                row(d, 1, Fr(0), False)
                row(d, -1, Fr(0), False)
            elif not split and len(facts) < 12:
                # unequal: one of the two is larger (if they are numbers at all)
                rest = [f for f in facts if f != (kind, var, part)]
                if all(not feasible(rest + [("n", sub(*v), pt)], True) for v, pt in
                       ((var.args, ((Fr(0), 1), None)), (var.args, (None, (Fr(0), 0))))):
                    return False
            continue
        if kind not in ("n", "ni"):
            continue
        d, (lo, hi) = P(var), part
        i = kind == "ni"
        if lo is not None:
            st = lo[1] == 1
            row(d, 1, -lo[0] - (1 if st and i else 0), st and not i)
        if hi is not None:
            st = hi[1] == 0
            row(d, -1, hi[0] - (1 if st and i else 0), st and not i)
    if not signs(facts):
        return False
    for k in KNOWN:
        for a, v in k.items():
            if v.op != "sw" and TM.nonneg_num(a):
                row(P(v), 1, Fr(0), False)
    for m in list(monos):
        if all(TM.nonneg_num(a) for a, _ in m):
            rows.append(({m: Fr(1)}, Fr(0), False))
    while monos and len(rows) < 400:
        m = min(monos, key=lambda m: sum(1 for r in rows if r[0].get(m, 0) > 0) * sum(1 for r in rows if r[0].get(m, 0) < 0))
        monos.discard(m)
        up = [r for r in rows if r[0].get(m, 0) > 0]
        dn = [r for r in rows if r[0].get(m, 0) < 0]
        rows = [r for r in rows if not r[0].get(m, 0)]
        for a in up:
            for b in dn:
                x, y = -b[0][m], a[0][m]
                n = {k: x * a[0].get(k, 0) + y * b[0].get(k, 0) for k in set(a[0]) | set(b[0]) if k != m}
                n = {k: v for k, v in n.items() if v}
                rows.append((n, x * a[1] + y * b[1], a[2] or b[2]))
        for r in rows:
            if not r[0] and (r[1] < 0 or r[1] == 0 and r[2]):
                return False
    return not any(not r[0] and (r[1] < 0 or r[1] == 0 and r[2]) for r in rows)


def signs(facts):
    """do the signs decided for products agree with those of their factors?"""
    got = []
    for kind, var, part in facts:
        if kind not in ("n", "ni"):
            continue
        d = P(var)
        if len(d) != 1:
            continue
        (m, c), = d.items()
        lo, hi = part
        s = set()
        if lo is None or lo[0] < 0:
            s.add(-1)
        if (lo is None or lo <= (0, 0)) and (hi is None or hi >= (0, 1)):
            s.add(0)
        if hi is None or hi[0] > 0:
            s.add(1)
        got.append((m, {x * (1 if c > 0 else -1) for x in s}))
    one = {}
    for m, s in got:
        if len(m) == 1 and m[0][1] == 1:
            one[m[0][0]] = one.get(m[0][0], {-1, 0, 1}) & s
    for m, s in got:
        if any(a in one for a, _ in m):
            r = {1}
            for a, k in m:
                z = one.get(a, {-1, 0, 1})
                if k < 0:
                    z = z - {0} or {-1, 0, 1}     # quotients are defined
                r = {x * (y if k % 2 else y * y) for x in r for y in z}
            if not r & s:
                return False
    return True


def deep_diff(a, b, budget=None, path=(), seen=None, facts=()):
    """Compare under every combination of the conditions decided anywhere
    inside the two terms: None if they agree in all of them, else the first
    difference as (got, want, path)."""
    if a is b:
        return None
    budget = budget if budget is not None else [4000]
    seen = seen if seen is not None else set()
    if (a.id, b.id) in seen:
        return None
    budget[0] -= 1
    if budget[0] < 0:
        raise TooBig("case split")
    vs = openvars(a) | openvars(b)
    # subjects that are themselves decided by others come later
    tops = [t.args[:2] for t in (a, b) if t.op == "sw"]
    if not vs:
        if not feasible(facts) or whole(a, facts) is whole(b, facts) or not reachable(facts):
            return None
        return a, b, path
    kind, var = min(tops or vs, key=lambda kv: okey(kv[1]))
    for part, nm in parts_of(kind, var, (a, b)):
        x, y = restrict(a, kind, var, part), restrict(b, kind, var, part)
        f2 = facts + ((kind, var, part),)
        if x is a and y is b:
            return (a, b, path) if feasible(facts) else None
        if x is y:
            continue
        if kind in ("n", "ni") and not feasible(f2):
            continue
        if part is True and var.op == "eq":
            u, v = var.args
            if u not in subterms(v):
                x, y = subst(x, {v: u}), subst(y, {v: u})
        elif kind in ("n", "ni"):
            p = TM.point_of(kind, var, *part)
            if p is not None:
                m = {}
                eq_into(m, sub(var, num(p)))
                if m:
                    x, y = subst(x, m), subst(y, m)
        d = deep_diff(x, y, budget, path + (cond(var, nm),), seen, f2)
        if d:
            return d
    if not facts:
        seen.add((a.id, b.id))
    return None


KNOWN = []          # equalities that hold wherever the terms are compared


DOMAIN = [TRUE]     # the condition under which the terms are compared


def forced(facts):
    """what the facts and the domain together determine: a subject known to
    be at most p and, in the domain, not below p"""
    d = DOMAIN[0]
    if d is TRUE:
        return
    for kind, var, part in facts:
        if kind in ("n", "ni", "b"):
            d = restrict(d, kind, var, part)
    for kind, var, part in facts:
        if kind == "ni" and part[0] is None and part[1] is not None and part[1][1] == 0:
            hi = part[1][0] - 1
            below = restrict(d, kind, var, (None, (hi, 0)))
            if not holds(below, facts + ((kind, var, (None, (hi, 0))),), [60]):
                yield sub(var, num(hi))


def reachable(facts):
    """are the facts possible in the domain?"""
    d = DOMAIN[0]
    for kind, var, part in facts:
        if d.op == "sw":
            d = restrict(d, kind, var, part)
    return d is TRUE or holds(d, facts, [60])


def holds(d, facts, budget):
    """can d hold together with the facts? (True when unsure)"""
    if d is FALSE or d is BOT:
        return False
    budget[0] -= 1
    if budget[0] < 0 or d.op != "sw":
        return budget[0] < 0 or feasible(facts)
    kind, var = d.args[:2]
    for part, _ in parts_of(kind, var, (d,)):
        x = restrict(d, kind, var, part)
        if x is FALSE or x is BOT:
            continue
        f = facts + (((kind, var, part),) if kind in ("n", "ni", "b") else ())
        if (kind not in ("n", "ni") or feasible(f)) and holds(x, f, budget):
            return True
    return False


def whole(t, facts):
    """sequences copied element by element over a length that the facts make
    the length of the source, as the source itself"""
    cs = [x for x in subterms(t) if isinstance(x, T) and x.op == "seq" and any(p.op == "comp" and SQ.copied(p) is not None for p in x.args)]
    ms = list(KNOWN)
    if not (facts or ms):
        return t

    def learn(z):
        m = {}
        eq_into(m, z)
        if m:
            ms.append(m)
    for kind, var, part in facts:
        if kind in ("n", "ni"):
            p = TM.point_of(kind, var, *part)
            if p is not None:
                learn(sub(var, num(p)))
    for z in forced(facts):
        learn(z)

    def norm(x):
        for m in ms:
            x = subst(x, m)
        return x
    out = {}
    for x in cs:
        ps = [SQ.copied(p) if p.op == "comp" else None for p in x.args]
        if any(q is not None and norm(seqlen(q)) is norm(p.args[1]) for p, q in zip(x.args, ps)):
            out[x] = concat(*[q if q is not None and norm(seqlen(q)) is norm(p.args[1]) else mk("seq", p) if p.op != "lit" else SQ.string(p.args[0])
                              for p, q in zip(x.args, ps)])
    return norm(subst(t, out) if out else t)


def folds(t):
    """the general loops (loops without a closed form) inside a term"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "foldat":
                out.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def decisive(a, b):
    """Two terms with general loops differ for certain (True) or perhaps not
    (False): loops count as different only when they run over the same range
    from the same start with the same state and their steps differ."""
    if a is b:
        return False
    if a.op == "sw" or b.op == "sw":
        if a.op == "sw" and b.op == "sw" and a.args[:3] == b.args[:3]:
            return any(decisive(x, y) for x, y in zip(a.args[3], b.args[3]))
        t = min((x for x in (a, b) if x.op == "sw"), key=lambda x: okey(x.args[1]))
        kind, var, labels = t.args[:3]
        if kind in ("b", "v"):
            ls = (True, False) if kind == "b" else labels
            return any(decisive(restrict(a, kind, var, l), restrict(b, kind, var, l)) for l in ls)
        if folds(var):
            return False
    if weak(a) or weak(b):
        return False
    if a.op == b.op and a.op in BINDERS:
        # open both binders with the same index
        y = gensym("ix")
        op_ = lambda t: mk("tup", *[subst(x, {mk("bv", t.args[0]): y}) if isinstance(x, T) else x for x in t.args[1:]])
        return decisive(op_(a), op_(b))
    if a.op == b.op and len(a.args) == len(b.args):
        flat = lambda t: [x for y in t.args for x in (y if isinstance(y, tuple) else (y,))]
        fa, fb = flat(a), flat(b)
        if len(fa) == len(fb):
            ds = [(x, y) for x, y in zip(fa, fb) if x is not y and x != y]
            if any(not isinstance(x, T) or not isinstance(y, T) for x, y in ds):
                ds = None
            elif a.op == "foldat":
                # (position, range, starts, step): only the step may differ
                if any(x is not y for x, y in ds if x.op != "lam"):
                    return False
                return any(decisive(x, y) for x, y in ds)
            elif a.op in ("adt", "tup", "elem", "lam") or (a.op == "seq" and all(x.op == y.op for x, y in ds)) or len(ds) == 1:
                return any(decisive(x, y) for x, y in ds)
    return folds(a) == folds(b)


PEEL = (1, 2, 0, 3)


def loops_in(t):
    """the loops (with and without closed form) inside a term"""
    return {x for x in subterms(t) if x.op in ("comp", "sum", "any", "first", "prod", "hred", "foldat") and
            not (x.op == "comp" and SQ.is_eta(x))}


def around(t):
    """the general loops, the loops around them and those that count how often
    they run"""
    if not folds(t):
        return set()
    out = {x for x in loops_in(t) if folds(x)}
    return out.union(*(loops_in(x.args[1]) for x in out))


def trip_atoms(t, of=folds):
    """quantities that determine how often a general loop runs, with the
    substitution that makes it run k times"""
    out = {}
    for f in sorted(of(t), key=lambda x: x.id):
        n = f.args[1]
        if n.op == "sw" or freebv(n) or any(x.op == "sym" and x.args[2] == "l" for x in subterms(n)):
            continue
        for mono, c in P(n).items():
            if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1 and mono[0][0].op in ("len", "mlen", "slen", "idx", "fld", "sym"):
                a = mono[0][0]
                if any(a in subterms(y) for m2, _ in P(n).items() for y, _p in m2 if y is not a):
                    continue
                rest = sub(n, mul(num(c), a))
                out.setdefault(a, (c, rest))
    return out


# numbers of iterations of an inner loop for each iteration of the outer one
COUNTS = ((1,), (2,), (1, 1), (2, 1), (1, 2), (1, 0, 1), (1, 1, 1))


def atoms_of(t):
    """the quantities a number is a polynomial of"""
    if t.op == "sw":
        return {a for c in t.args[3] for a in atoms_of(c)}
    return set() if t is BOT else {y for mono, _c in P(t).items() for y, _p in mono}


def offset_arrays(t, of=folds):
    """arrays whose consecutive elements are the range of an inner loop"""
    out = set()
    for f in of(t):
        for x in atoms_of(f.args[1]):
            if x.op == "idx" and freebv(x.args[1]) and not freebv(x.args[0]) and x.args[0].op in ("sym", "fld", "seq"):
                a = x.args[0]
                if a.op == "seq" and len(a.args) == 1 and SQ.is_eta(a.args[0]):
                    continue
                out.add(a)
    return sorted(out, key=okey)


def contents(m):
    """the elements of the sets and maps whose number of elements m fixes to
    none or one"""
    for a in list(m):
        if a.op not in ("slen", "mlen") or not is_const(m[a]):
            continue
        b, k, none = a.args[0], const_val(m[a]), SQ.SEMPTY if a.op == "slen" else SQ.MEMPTY
        if b.op in TM.LOGOPS:
            continue
        if k == 0:
            m[b] = none
        elif k == 1:
            m[b] = SQ.mksset(none, seq_of(mk("skey", b, ZERO))) if a.op == "slen" else \
                SQ.mkmset(none, seq_of(tup(mk("mkey", b, ZERO), mk("mv", b, ZERO))))
    return m


def settle(ms):
    """Sets and maps that were built, with a number of elements that one of the
    consecutive substitutions fixes: a substitution that makes their elements
    fit that number. None if that may not be possible, or cannot be told."""
    out = {}
    for i, a in ((i, a) for i, m in enumerate(ms) for a in m):
        if a.op not in ("slen", "mlen") or a.args[0].op not in TM.LOGOPS:
            continue
        b, k = a.args[0], ms[i][a]
        for m in ms[i:]:
            b = subst(b, m)
        b = subst(b, out)
        if b in (SQ.SEMPTY, SQ.MEMPTY):
            if k is ZERO:
                continue
            return None
        if k is not ONE or b.op not in ("sset", "mset") or b.args[0] not in (SQ.SEMPTY, SQ.MEMPTY) or b.args[1].op != "seq" \
           or any(p.op != "elem" for p in b.args[1].args):
            return None
        ks = [p.args[0] if b.op == "sset" else SQ.field(p.args[0], "0") for p in b.args[1].args]
        for x in ks[1:]:
            if x is ks[0]:
                continue
            if x.op not in ("skey", "mkey", "fld", "idx", "sym") or x in subterms(ks[0]) or ks[0] in subterms(x) \
               or ks[0].op in ("skey", "mkey") and ks[0].op == x.op and ks[0].args[0] is x.args[0]:
                return None
            for y in out:
                out[y] = subst(out[y], {x: ks[0]})
            out[x] = ks[0]
    return out


def sized(d, m):
    """do the two sides, or the decisions on the way to them, use sets or maps
    whose number of elements m fixes, but not their elements, in another way
    than element by element?"""
    bases = {a.args[0] for a in m if a.op in ("slen", "mlen") and a.args[0] not in m}
    if not bases:
        return False
    vs = [c.var for c in d[2] if isinstance(c, Cond)]
    for t in (*d[:2], *vs):
        keys, seen, st = {}, set(), [t]
        while st:
            x = st.pop()
            if not isinstance(x, T) or x.id in seen:
                continue
            seen.add(x.id)
            if x in bases:
                return True
            if x.op in ("skey", "mkey", "mv") and x.args[0] in bases and is_const(x.args[1]):
                if x.op != "mv":
                    keys.setdefault(x.args[0], set()).add(x)
                continue
            for y in x.args:
                st.extend(y if isinstance(y, tuple) else (y,))
        if t in vs and any(len(k) > 1 for k in keys.values()):
            return True
    return False


def verdict(got, want, m, facts, before=()):
    m = contents(m)
    g, w = subst(got, m), subst(want, m)
    if g is w:
        return None
    fit = settle((*before, m))
    if fit is None:
        return None
    g, w = subst(g, fit), subst(w, fit)
    if g is w:
        return None
    d = deep_diff(g, w)
    if d is None:
        return None
    p0 = d[2]
    d = first_diff(d[0], d[1])
    d = (d[0], d[1], p0 + d[2])
    r = None if any(sized(d, x) for x in (*before, m)) else certain(d, g, w)
    return r and (r[0], r[1], r[2], facts + r[3])


def peel_nested(got, want):
    """nested loops over the rows an offset array describes"""
    arrays = {a for t in (got, want) for a in offset_arrays(t)}
    atoms = {}
    for t in (got, want):
        atoms.update(trip_atoms(t))
    for a in arrays:
        for cs in COUNTS:
            offs = [sum(cs[:i]) for i in range(len(cs) + 1)]
            m = {a: seq_of(*[num(o) for o in offs])}
            for b, (c, rest) in atoms.items():
                if is_const(rest) and a not in subterms(b):
                    m[b] = mul(num(1 / c), sub(num(len(cs)), rest))
            r = verdict(got, want, m, tuple(m.items()))
            if r is not None:
                return r
    return None


def peel(got, want, facts=(), depth=3, before=()):
    """a certain difference for some small numbers of iterations"""
    if not facts:
        r = peel_nested(got, want)
        if r is not None:
            return r
    atoms = {}
    for t in (got, want):
        atoms.update(trip_atoms(t, around))
    for a, (c, rest) in sorted(atoms.items(), key=lambda x: okey(x[0])):
        for k in PEEL:
            v = mul(num(1 / c), sub(num(k), rest))
            if is_const(v) and const_val(v) < 0:
                continue
            m = contents(extremes({a: v}, got, want))
            g, w = subst(got, m), subst(want, m)
            fs = facts + ((a, v),)
            fit = None if g is w else settle((*before, m))
            if fit is None:
                continue
            g, w = subst(g, fit), subst(w, fit)
            if g is w:
                continue
            d = deep_diff(g, w)
            if d is None:
                continue
            p0 = d[2]
            d = first_diff(d[0], d[1])
            d = (d[0], d[1], p0 + d[2])
            r = None if any(sized(d, x) for x in (*before, m)) else certain(d, g, w, (*before, m))
            if r is None:
                if depth > 1 and (folds(g) or folds(w)):
                    r = peel(g, w, fs, depth - 1, (*before, m))
                    if r is not None:
                        return r
                continue
            return r[0], r[1], r[2], fs + r[3]
        if depth < 3:
            break
    return None


def extremes(m, *ts):
    """the extreme of a sequence whose length m fixes"""
    for t in ts:
        for x in subterms(t):
            if x.op in ("minof", "maxof"):
                n = subst(seqlen(x.args[0]), m)
                if is_const(n) and 0 < const_val(n) <= 4:
                    r = idx(x.args[0], ZERO)
                    for i in range(1, int(const_val(n))):
                        y = idx(x.args[0], num(i))
                        r = ite(cmp(y, r, "<" if x.op == "minof" else ">", False), y, r)
                    m[x] = r
    return m


def unshared(vs, got, want):
    """do the decisions on the way to a difference depend on loops that only
    one of the two sides has?"""
    if not any(loops_in(x) for x in vs):
        return False
    both = loops_in(got) & loops_in(want)
    return any(loops_in(x) - both for x in vs)


def rekeyed(a, b):
    """does one side run over a map that was built and the other over a set?"""
    def over(t):
        return {y.op for x in loops_in(t) for y in subterms(x.args[1]) if y.op in ("slen", "mlen") and y.args[0].op in TM.LOGOPS}
    x, y = over(a), over(b)
    return bool(x and y and x != y)


def unkeyed(a, b):
    """appends to the entries of the same map that differ only in whether the
    kind of the key is looked at first (a key that is not there has no entry)"""
    if a.op != "mapp" or b.op != "mapp" or a.args[0] is not b.args[0]:
        return False

    def open_(t):
        for p in t.args[1].args:
            if p.op == "comp":
                q = p.args[2]
                if q.op == "sw" and q.args[0] == "v":
                    rest = [x for x in q.args[3] if x is not SQ.EMPTY]
                    q = rest[0] if len(set(rest)) == 1 else q
                yield p.args[1], q
            else:
                yield p
    return list(open_(a)) == list(open_(b))


def certain(d, got, want, known=()):
    """a difference (got, want, path) that cannot be one of form only, as
    (got, want, path, facts); None if it may be"""
    vs = [c.var for c in d[2] if isinstance(c, Cond)]
    if any(weak(x) or folds(x) for x in (*d[:2], *vs)):
        return None
    if unshared(vs, got, want) or loops_in(d[0]) != loops_in(d[1]):
        r = confirm(d[0], d[1])
        if r is None and known and (d[0] is not got or d[1] is not want):
            r = confirm(got, want, known)
            return r or None
        return (r[0], r[1], d[2] + r[2], r[3]) if r else None
    return (*d, ())


def special_sizes(got, want):
    """numbers of iterations at which a decision on loop indices falls"""
    gs, ws = subterms(got), subterms(want)
    r = set()
    for t in set(gs) ^ set(ws):
        if t.op == "sw" and t.args[0] == "ni" and all(a.op == "bv" for m in P(t.args[1]) for a, _ in m):
            r.update(int(c) + 1 for c, _ in t.args[2] if 3 <= c <= 10)
    return tuple(sorted(r)[:2])


def instances(got, want):
    """the two terms with every loop bound fixed to a small number"""
    arrays, atoms = set(), {}
    for t in (got, want):
        arrays.update(offset_arrays(t, loops_in))
        atoms.update(trip_atoms(t, loops_in))
    arrays = sorted(arrays, key=okey)
    if len(arrays) > 2:
        return
    for cs in COUNTS if arrays else [(1,) * k for k in (1, 2, 3) + special_sizes(got, want)]:
        m = {a: seq_of(*[num(sum(cs[:i])) for i in range(len(cs) + 1)]) for a in arrays}
        for b, (c, rest) in atoms.items():
            if not any(a in subterms(b) for a in arrays) and is_const(rest):
                m[b] = mul(num(1 / c), sub(num(len(cs)), rest))
        if m:
            yield contents(extremes(m, got, want))


def confirm(got, want, before=()):
    """Do two different closed forms of loops differ for some small numbers of
    iterations? A difference (got, want, path, facts); False if they agree in
    all of them; None if this cannot be told."""
    tried, sure = False, True
    for m in instances(got, want):
        g, w = subst(got, m), subst(want, m)
        tried = True
        if g is w:
            if g is BOT:
                sure = False
            continue
        try:
            if loops_in(g) or loops_in(w):
                r = None if before else confirm(g, w, (m,))
                if r:
                    return r[0], r[1], r[2], tuple(m.items()) + r[3]
                if r is not False:
                    sure = False
                continue
            r = verdict(got, want, m, tuple(m.items()), before)
        except TooBig:
            sure = False
            continue
        if r is not None:
            return r
        if deep_diff(g, w) is not None:
            sure = False
    return False if tried and sure else None


def implied(dom):
    """equalities between quantities that hold wherever dom holds, as a
    substitution"""
    m = {}
    seen, st, eqs = set(), [dom], {}
    while st:
        t = st.pop()
        if t.op != "sw" or t.id in seen:
            continue
        seen.add(t.id)
        kind, var, labels, ch = t.args
        st.extend(ch)
        live = [i for i, c in enumerate(ch) if c is not FALSE]
        if kind in ("n", "ni") and len(live) == 1 and var.id not in eqs:
            i = live[0]
            lo = labels[i - 1] if i > 0 else None
            p = TM.point_of(kind, var, lo, labels[i] if i < len(labels) else None)
            if p is not None and b_and(dom, b_not(cmp(var, num(p), "==", kind == "ni"))) is FALSE:
                eqs[var.id] = sub(var, num(p))
    for z in sorted(eqs.values(), key=okey):
        eq_into(m, z)
    return m


def eq_into(m, z):
    """z = 0: replace its largest atom"""
    z = subst(z, m)
    best = None
    for mono, c in P(z).items() if z.op != "sw" else ():
        if len(mono) == 1 and mono[0][1] == 1 and (best is None or okey(mono[0][0]) > okey(best[0])):
            a = mono[0][0]
            if sum(1 for m2, _ in P(z).items() for x, _p in m2 if x is a or (isinstance(x, T) and a in subterms(x))) == 1:
                best = (a, c)
    if best is None:
        return
    a, c = best
    v = mul(num(-1 / c), sub(z, mul(num(c), a)))
    for k in list(m):
        m[k] = subst(m[k], {a: v})
    m[a] = v


def cases(dom, got, want, path, depth=4):
    """split a domain along its leading case distinctions"""
    if dom.op == "sw" and depth:
        kind, var, labels, ch = dom.args
        live = [i for i, c in enumerate(ch) if c is not FALSE]
        if kind in ("b", "v"):
            ls = (True, False) if kind == "b" else labels
            for i in live:
                r = lambda t: restrict(t, kind, var, ls[i])
                yield from cases(ch[i], r(got), r(want), path + ((show(var, 5), str(ls[i])),), depth - (len(live) > 1))
            return
        if len(live) == 1:
            for g, w, d, p in cases(ch[live[0]], got, want, path, depth):
                yield g, w, node(kind, var, labels, tuple(d if i == live[0] else FALSE for i in range(len(ch)))), p
            return
    yield got, want, dom, path


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def lab(t, i):
    kind, var, labels, ch = t.args
    if kind == "b":
        return ("true", "false")[i]
    if kind == "v":
        return labels[i]
    if kind == "e":
        return str(labels[i][1]) if i < len(labels) else "other"
    return "part %d of %s" % (i, [str(l[0]) for l in labels])


def src_in(t, prefix="/repo/"):
    """a source position inside the analysed repository for a term"""
    best = None
    st, seen = [t], set()
    while st and len(seen) < 300:
        x = st.pop(0)
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.src and x.src.startswith(prefix):
                return x.src
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return best


def coo_invariant(prog):
    """A coordinate matrix has as many row indices as column indices and
    values: its fields are private, every constructor establishes it (C16, C14)
    and no method changes a length.  The fields are found through accessors."""
    names = {}
    for n in ("row_inds", "col_inds", "data"):
        k = "numopt::matrix::coo::CooMat::<T>::" + n
        if k not in prog.fns:
            return
        try:
            r = analyse(prog, k).result
        except Exception:
            return
        if r.op != "fld":
            return
        names[n] = r.args[1]
    alias = {names["col_inds"]: names["row_inds"], names["data"]: names["row_inds"]}

    def hook(t):
        a = alias.get(t.args[1])
        if a is None or (t.args[0].op == "sym" and t.args[0].args[2] == "l"):
            return None
        return mk("len", mk("fld", t.args[0], a))
    FIELDLEN.append(hook)
    SQ.LENHOOK["fld"] = fieldlen


FIELDLEN = []


def fieldlen(t):
    for h in FIELDLEN:
        r = h(t)
        if r is not None:
            return r
    return None


def problem_invariant(prog):
    """The gradient, the limits and the integer flags of a problem have one
    entry per variable, the right-hand side one per row: the constructors make
    it so (C14), and evaluation functions keep the sizes of what they fill
    (assumed). The fields are found through the accessors."""
    k, k2 = "numopt::problem::minlp::ProblemMinlp::", "numopt::problem::milp::ProblemMilp::"

    def read(key):
        try:
            return analyse(prog, key).result if key in prog.fns else BOT
        except Exception:
            return BOT
    g, n = read(k + "gphi"), read(k + "nx")
    if g.op != "fld" or g.args[0].op != "sym" or n is BOT:
        return
    me = g.args[0]
    sizes = {g.args[1]: n}
    for x in ("l", "u", "p"):
        t = read(k + x)
        if t.op == "fld" and t.args[0] is me:
            sizes.setdefault(t.args[1], n)
    a, rows, b = read(k + "a"), read("numopt::matrix::coo::CooMat::<T>::rows"), read(k + "b")
    if a is not BOT and rows is not BOT and b.op == "fld" and b.args[0] is me:
        sizes.setdefault(b.args[1], subst(rows, {me: a}))
    a2, c2 = read(k2 + "a"), read(k2 + "c")
    if a.op == "fld" and a2.op == "fld" and a2.args[1] == a.args[1] and a2.args[0] is not me and c2.op == "fld" and c2.args[0] is me:
        sizes.setdefault(c2.args[1], subst(n, {me: a2.args[0]}))

    def hook(t):
        if t.args[1] not in sizes or (t.args[0].op == "sym" and t.args[0].args[2] == "l"):
            return None
        return subst(sizes[t.args[1]], {me: t.args[0]})

    def filled(t):
        i = t.args[0]
        at = t.args[2 + int(const_val(i))] if is_const(i) and len(t.args) > 2 + const_val(i) else None
        return seqlen(at) if at is not None and at.op in ("fld", "applymut") else None
    FIELDLEN.append(hook)
    SQ.LENHOOK["fld"] = fieldlen
    SQ.LENHOOK["applymut"] = filled


def small_instance(prog, ikey, skey, policy, sort, secs=60):
    """Value-number both functions on the fixed shape they build, in a process
    of its own: a description of a certain difference, or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = ""
        try:
            os.close(r)
            TM.INSTANCE[0] = True
            TM.TM_DEADLINE[0] = time.time() + secs
            I, S = analyse(prog, ikey, policy), analyse(prog, skey, policy)
            a, b = (sort(x) if sort else x for x in (I.result, S.result))
            if a is not b and TM.ground(b) and (TM.ground(a) or a is BOT):
                d = first_diff(a, b)
                out = "computed %s, required %s%s" % (show(d[0], 7)[:600], show(d[1], 7)[:600], " at " + "; ".join("%s = %s" % p for p in d[2]) if d[2] else "")
        except BaseException as ex:
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
        try:
            os.write(w, out.encode()[:4000])
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        out += x
    os.close(r)
    os.waitpid(pid, 0)
    return out.decode("utf8", "replace")


class Check:
    spare = 300.0       # seconds left for peeling and instantiation

    def __init__(self, prop, prog, tier="quick", root="/repo"):
        self.prop = prop
        self.prog = prog
        self.tier = tier
        self.root = root
        self.obl = []          # (name, status, detail)
        self.viol = []
        self.undecided = []
        self.functions = set()
        self.sites = 0
        self.t0 = time.time()

    # -- bookkeeping
    def ran(self, I):
        for k in I.visited:
            if "numopt::" in k and "numopt_spec" not in k:
                self.functions.add(k)
        self.sites += len(I.calls) + len(I.panics)

    def ok(self, name, rule, detail=""):
        self.obl.append((name, "discharged", rule, detail))

    def fail(self, name, rule, where, detail):
        self.obl.append((name, "violated", rule, detail))
        self.viol.append({"obligation": name, "rule": rule, "where": where, "detail": detail})

    def undec(self, name, rule, why):
        self.obl.append((name, "undecided", rule, why))
        self.undecided.append((name, why))

    def expect(self, name, rule, cond, where, detail=""):
        if cond:
            self.ok(name, rule, detail)
        else:
            self.fail(name, rule, where, detail)

    def where(self, key):
        f = self.prog.fns.get(key)
        return "%s (%s)" % (f["span"] if f else "?", key)

    END = [1e18]            # end of the whole check

    def guarded(self, name, rule, f, secs=240):
        """run one obligation; whatever the analysis cannot do is undecided"""
        TM.TM_DEADLINE[0] = min(time.time() + secs, self.END[0])
        try:
            return f()
        except Exception as ex:
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
            self.undec(name, rule, "analysis limit: %s %s" % (type(ex).__name__, str(ex)[:200]))
        finally:
            TM.TM_DEADLINE[0] = 1e18

    # -- obligations
    def same(self, name, rule, got, want, where, dom=TRUE, post=None):
        """canonical equality of two terms under the domain `dom`"""
        KNOWN.clear()
        if post:
            got, want = post(got), post(want)
        DOMAIN[0] = TRUE
        if dom is not TRUE:
            if got is not want:
                for g, w, d, path0 in cases(dom, got, want, ()):
                    m = implied(d)
                    if m:
                        g, w, d = subst(g, m), subst(w, m), subst(d, m)
                    g, w = ite(d, g, BOT), ite(d, w, BOT)
                    if g is not w:
                        got, want = g, w
                        DOMAIN[0] = d
                        if m:
                            KNOWN.append(m)
                        break
                else:
                    got = want
        if post:
            got, want = post(got), post(want)
        if got is want:
            self.ok(name, rule)
            return True
        try:
            d = deep_diff(got, want)
        except TooBig:
            d = (got, want, ())
        KNOWN.clear()
        if d is None:
            self.ok(name, rule)
            return True
        p0 = d[2]
        d = first_diff(d[0], d[1])
        a, b, path = d[0], d[1], p0 + d[2]
        on = [c.var for c in path if isinstance(c, Cond)]
        if weak(a) or (weak(b) and not weak(want)) or any(weak(v) for v in on):
            if self.peeled(name, rule, got, want, where):
                return False
            self.undec(name, rule, "not modelled: %s" % show(a, 3)[:300])
            return None
        if (folds(a) or folds(b) or any(folds(v) for v in on)) and not decisive(got, want):
            if self.peeled(name, rule, got, want, where):
                return False
            self.undec(name, rule, "loop without closed form: %s" % show(a, 3)[:300])
            return None
        if loops_in(a) or loops_in(b) or unshared(on, got, want):
            r = self.timed(confirm, got, want)
            if r is False:
                self.undec(name, rule, "closed forms differ in shape, but not for up to three iterations: %s" % show(a, 3)[:300])
                return None
            if r:
                self.differs(name, rule, where, r)
                return False
            if r is None and (rekeyed(a, b) or unkeyed(a, b)):
                self.undec(name, rule, "keys of a map and elements of a set: %s" % show(a, 3)[:300])
                return None
        cond = "; ".join("%s = %s" % p for p in path)
        self.fail(name, rule, "%s" % (where,),
                  "computed %s, required %s%s%s" % (show(a, 7)[:700], show(b, 7)[:700], (" when/at " + cond[:900]) if cond else "",
                                                  (" [source %s]" % src_in(a)) if src_in(a) else ""))
        return False

    def peeled(self, name, rule, got, want, where, secs=60):
        """a loop without closed form is peeled: for the first few numbers of
        iterations it has one, and a difference there is a difference"""
        r = self.timed(peel, got, want, secs=secs)
        if r is None:
            return False
        self.differs(name, rule, where, r)
        return True

    def timed(self, f, *args, secs=60):
        secs = min(secs, max(5, self.spare))
        t0, old = time.time(), TM.TM_DEADLINE[0]
        TM.TM_DEADLINE[0] = min(old, t0 + secs)
        try:
            return f(*args)
        except Exception as ex:
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
            return None
        finally:
            TM.TM_DEADLINE[0] = old
            Check.spare -= time.time() - t0

    def differs(self, name, rule, where, r):
        a, b, path, facts = r
        cond = "; ".join(["%s = %s" % (show(k, 5), show(v, 5)) for k, v in facts] + ["%s = %s" % p for p in path])
        self.fail(name, rule, "%s" % (where,), "computed %s, required %s when/at %s%s" % (
            show(a, 7)[:700], show(b, 7)[:700], cond[:900], (" [source %s]" % src_in(a)) if src_in(a) else ""))

    def equiv(self, name, rule, ikey, skey, policy=None, assume=None, what=("ret", "out", "fx"), panic=None,
              where=None, post=None, names=None, alt=(), small=(), sort=None):
        """Function ikey computes the same as the reference function skey for
        all arguments (where neither panics); `panic="same"` also compares the
        conditions under which they panic; `panic="none"` requires no panic; otherwise, unless
        it is "free", a panic the reference does not have is a difference."""
        if ikey not in self.prog.fns or not self.prog.fns[ikey].get("body"):
            self.fail(name, rule, "?", "function %s not found (anchor missing)" % ikey)
            return
        tries = []
        for k in (skey,) + tuple(alt):
            sub_ = Check(self.prop, self.prog, self.tier, self.root)
            sub_.guarded(name, rule, lambda: sub_._equiv(name, rule, ikey, k, policy, assume, what, panic, where, post, names))
            tries.append(sub_)
            if not sub_.viol and not sub_.undecided:
                break
        best = next((t for t in tries if not t.viol and not t.undecided), None) or \
            next((t for t in tries if not t.viol), None) or tries[0]
        if small and best.undecided and not best.viol:
            for ik, sk in small[1]:
                r = small_instance(self.prog, ik, sk, small[0], sort)
                if r:
                    best.fail("%s:%s" % (name, ik.split("::")[-1]), rule, where or self.where(ikey), "for the shape of %s: %s" % (sk.split("::")[-1], r))
                    break
        self.obl += best.obl
        self.viol += best.viol
        self.undecided += best.undecided
        self.functions |= best.functions
        self.sites += best.sites

    def _equiv(self, name, rule, ikey, skey, policy, assume, what, panic, where, post, names):
        I = analyse(self.prog, ikey, policy, names=names)
        S = analyse(self.prog, skey, policy, names=names)
        self.ran(I)
        if I.lost or S.lost:
            self.undec(name + ":effects", rule, "effect not followed: " + (I.lost + S.lost)[0])
        w = where or next((self.where(k) for k in list(I.visited) if "numopt_spec" not in k and "numopt::" in k), self.where(ikey))
        pi, ps = panics(I), panics(S)
        dom = b_and(b_not(pi), b_not(ps))
        if assume:
            dom = b_and(dom, assume(I))
        def cmp_(nm, a, b, d=dom):
            self.same(name + ":" + nm, rule, a, b, w, d, post)
        if "ret" in what:
            cmp_("result", I.result, S.result)
        if "out" in what:
            for i, (a, b) in enumerate(zip(I.argterms, S.argterms)):
                if a.op == "mref":
                    cmp_("argument %d" % i, I.load(a), S.load(b))
        if "fx" in what and (I.st[FXROOT] is not EMPTY or S.st[FXROOT] is not EMPTY):
            cmp_("effects", I.st[FXROOT], S.st[FXROOT])
        if panic == "same" or isinstance(panic, tuple):
            a = assume(I) if assume else TRUE
            if panic != "same":
                pi, ps = panics(I, panic), panics(S, panic)
            cmp_("panics", b_and(a, pi), b_and(a, ps), TRUE)
        elif panic == "none":
            a = assume(I) if assume else TRUE
            self.nopanic(name, I, a)
        elif panic != "free":
            self.extra_panics(name, I, ps, assume(I) if assume else TRUE, w)

    def extra_panics(self, name, I, ps, a, w):
        """no panic where the reference has none; a difference counts only
        when it does not rest on how the sizes of two inputs relate"""
        rule, nm = "no panic where the requirement has none", name + ":panics"
        x = b_and(b_and(a, panics(I)), b_not(ps))
        if x is FALSE:
            self.ok(nm, rule)
            return
        p = next(p for p in I.panics if b_and(b_and(a, p.cond), b_not(ps)) is not FALSE)
        at = "%s in %s (panic: %s)" % (p.span, p.key, p.cls)
        try:
            d = deep_diff(x, FALSE)
        except TooBig:
            d = ()
        if d is None:
            self.ok(nm, rule)
            return
        on = [c.var for c in d[2] if isinstance(c, Cond)] if d else [x]
        sizes = {t for v in on for t in subterms(v) if t.op in ("len", "mlen", "slen") or t.op == "field" and "shape" in t.args}
        if len(sizes) > 1 or any(weak(v) or folds(v) for v in on):
            self.undec(nm, rule, "may panic: %s when %s" % (at, show(x, 4)[:300]))
            return
        if any(loops_in(v) for v in on):
            d = self.timed(confirm, x, FALSE)
            if not d:
                self.undec(nm, rule, "may panic: %s when %s" % (at, show(x, 4)[:300]))
                return
        self.fail(nm, rule, at, "panics where the requirement does not, when %s" % "; ".join("%s = %s" % q for q in d[2])[:900])

    def nopanic(self, name, I, assume=TRUE, rule="no panic is reachable", allow=lambda p: False):
        for p in I.panics:
            if allow(p):
                continue
            c = b_and(assume, p.cond)
            nm = "%s:%s" % (name, p.cls)
            if c is FALSE:
                self.ok(nm, rule)
            elif weak(c):
                self.undec(nm, rule, "panic condition not modelled: " + show(c, 3)[:300])
            else:
                self.fail(nm, rule, "%s in %s" % (p.span, p.key), "panics (%s) when %s" % (p.cls, show(c, 8)[:800]))
