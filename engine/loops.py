"""Loop summaries: recurrences of carried values are solved in closed form
(sums, appends, update logs, flags, last values) or kept as canonical folds."""
from terms import *
import terms as TM
from seqs import *
import seqs as SQ
import interp as IP

DEBUG = False


def has_phi(t, phis):
    """does t mention one of the carried terms?"""
    if not phis:
        return False
    syms = frozenset().union(*[p.fv for p in phis])
    if not (t.fv & syms):
        return False
    comp = [p for p in phis if p.op != "sym"]
    if not comp:
        return True
    return _mentions(t, phis, syms)


def _mentions(t, phis, syms):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or not (x.fv & syms):
            continue
        seen.add(x.id)
        if x in phis:
            return True
        if x.op == "fld":
            # a different field of the same carried structure is a different leaf
            b = x
            while b.op == "fld":
                b = b.args[0]
            if b.op == "sym" and not any(p is b for p in phis):
                # some leaf below / above?
                if any(_prefix(p, x) or _prefix(x, p) for p in phis):
                    return True
                continue
        if x.op == "sym" and x in syms:
            return True
        TM._push_children(x.args, st)
    return False


def _prefix(a, b):
    while b is not a:
        if b.op != "fld":
            return False
        b = b.args[0]
    return True


class Leaf:
    __slots__ = ("root", "phi", "init", "nxt", "at", "final", "path")

    def __init__(self, root, phi, init, nxt, path):
        self.root, self.phi, self.init, self.nxt, self.path = root, phi, init, nxt, path
        self.at = None       # python function t -> term


def leaves_of(root, phi, init, nxt, out, path=()):
    """split a carried structure into independently carried components"""
    if nxt is phi:
        out.append(Leaf(root, phi, init, nxt, path))
        return
    shape = struct_shape(nxt)
    if shape is None:
        shape = None
    if shape is not None and nxt.op != "sw" and (nxt.op in ("adt", "tup")):
        names = nxt.args[2] if nxt.op == "adt" else [str(i) for i in range(len(nxt.args))]
        vals = nxt.args[3] if nxt.op == "adt" else nxt.args
        if nxt.op == "adt" and nxt.args[0] not in TM.STRUCTS:
            out.append(Leaf(root, phi, init, nxt, path))
            return
        for n, v in zip(names, vals):
            leaves_of(root, field(phi, n), field(init, n), v, out, path + (n,))
        return
    if nxt.op == "sw":
        sh = common_struct(nxt)
        if sh is not None:
            for n in sh[2]:
                leaves_of(root, field(phi, n), field(init, n), field(nxt, n), out, path + (n,))
            return
    out.append(Leaf(root, phi, init, nxt, path))


def struct_shape(t):
    if t.op == "adt":
        return ("adt", t.args[0], t.args[2])
    if t.op == "tup":
        return ("tup", len(t.args), tuple(str(i) for i in range(len(t.args))))
    return None


def common_struct(t):
    """struct type of all leaves that are constructed values"""
    found = [None]
    bad = [False]

    def go(x):
        if x.op == "sw":
            for c in x.args[3]:
                go(c)
        elif x is BOT:
            pass
        else:
            s = struct_shape(x)
            if s is None:
                if x.op in ("sym", "fld", "idx", "vf"):
                    return
                bad[0] = True
                return
            if s[0] == "adt" and s[1] not in TM.STRUCTS:
                bad[0] = True
            if found[0] is None:
                found[0] = s
            elif found[0] != s:
                bad[0] = True
    go(t)
    return None if bad[0] or found[0] is None else found[0]


def zip_shape(v, w):
    pass


# ------------------------------------------------------------------ solving
def leafmap(t, f):
    """map the decision leaves of t; None if f fails on one"""
    memo = {}
    fail = [False]

    def go(x):
        if x.op == "sw":
            r = memo.get(x.id)
            if r is None:
                ch = tuple(go(c) for c in x.args[3])
                if fail[0]:
                    return BOT
                r = switch(x.args[0], x.args[1], x.args[2], ch)
                memo[x.id] = r
            return r
        if x is BOT:
            return BOT
        r = f(x)
        if r is None:
            fail[0] = True
            return BOT
        return r
    r = go(t)
    return None if fail[0] else r


def live_only(dead, L):
    """L where the iteration goes on, in a form that depends on nothing else:
    each case that ends the loop takes the value of a case next to it"""
    if dead is FALSE or dead is None or L.op != "sw":
        return L
    memo = {}

    def go(t):
        if t.op != "sw":
            return t
        r = memo.get(t.id)
        if r is None:
            ch = [go(c) for c in t.args[3]]
            live = next((c for c in ch if c is not BOT), BOT)
            r = memo[t.id] = switch(t.args[0], t.args[1], t.args[2], tuple(live if c is BOT else c for c in ch))
        return r
    r = go(ite(dead, BOT, L))
    return L if r is BOT else r


def solve_leaf(lf, d, s, phis, dead=FALSE):
    """d: next value in terms of own phi and s. Returns at(t) or None."""
    phi, init = lf.phi, lf.init
    own = has_phi(d, [phi])
    if d is phi:
        return lambda t: init
    if not own:
        def at(t, d=d):
            prev = subst(d, {s: sub(t, ONE)})
            return ite(cmp(t, ZERO, "==", True), init, prev)
        return at
    # append
    def app_leaf(x):
        if x is phi:
            return EMPTY
        if x.op == "seq":
            ps = x.args
            if ps and ps[0] is SQ.eta_comp(phi):
                return mkseq(list(ps[1:]))
        return None
    T_ = leafmap(d, app_leaf)
    if T_ is not None and not has_phi(T_, [phi]):
        T_ = live_only(dead, T_)
        return lambda t, T_=T_: concat(init, mkcomp(s, t, T_))
    # prepend
    def pre_leaf(x):
        if x is phi:
            return EMPTY
        if x.op == "seq" and x.args and x.args[-1] is SQ.eta_comp(phi):
            return mkseq(list(x.args[:-1]))
        return None
    T_ = leafmap(d, pre_leaf)
    if T_ is not None and not has_phi(T_, [phi]):
        def at(t, T_=T_):
            u = gensym("ix")
            return concat(mkcomp(u, t, subst(T_, {s: sub(sub(t, ONE), u)})), init)
        return at
    # drop
    def drop_leaf(x):
        if x is phi:
            return ZERO
        if x.op == "drop" and x.args[0] is phi:
            return x.args[1]
        return None
    T_ = leafmap(d, drop_leaf)
    if T_ is not None and not has_phi(T_, [phi]):
        return lambda t: mkdrop(init, mksum(s, t, T_))
    # each component computed from its own previous value:  a[s+c] = g(a[s+c], s)
    k = pointwise_key(d, phi, s)
    if k is not None:
        d2 = subst(d, {mk("idx", phi, k): idx(init, k)})
        if d2 is not d:
            d = d2
            own = has_phi(d, [phi])
    # one component, the same in every iteration, computed from itself
    r = cell_rule(d, phi, init, s, phis)
    if r is not None:
        return r
    # logs
    for op, mkf in (("mset", mkmset), ("sset", mksset), ("macc", mkmacc), ("scat", mkscat), ("mapp", mkmapp)):
        def log_leaf(x, op=op):
            if x is phi:
                return EMPTY
            if x.op == op and x.args[0] is phi:
                return x.args[1]
            return None
        L = leafmap(d, log_leaf)
        if L is not None and not has_phi(L, [phi]):
            L = live_only(dead, L)
            return lambda t, mkf=mkf, L=L: mkf(init, mkcomp(s, t, L))
    # running totals:  a[s+c] = a[s+c-1] + d
    r = prefix_rule(d, phi, s)
    if r is not None:
        key, dd = r

        def at(t, key=key, dd=dd):
            u = gensym("ix")
            base = idx(init, sub(subst(key, {s: ZERO}), ONE))
            tot = mksum(u, add(s, ONE), subst(dd, {s: u}))
            return mkscat(init, mkcomp(s, t, seq_of(tup(key, add(base, tot)))))
        return at
    # map accumulation:  m[k] += v, inserting when missing
    r = macc_rule(d, phi)
    if r is not None and not has_phi(r, [phi]):
        return lambda t, r=r: mkmacc(init, mkcomp(s, t, r))
    # appending to the sequences of a map
    r = mapp_rule(d, phi)
    if r is not None:
        return lambda t, r=r: mkmapp(init, mkcomp(s, t, r))
    # array accumulation  a[k] += v
    r = aacc_rule(d, phi)
    if r is not None:
        entries = r

        def at(t, entries=entries):
            p = gensym("ix")
            acc = idx(init, p)
            for cond, inc in entries:
                acc = add(acc, mksum(s, t, ite(cond, inc(p), ZERO)))
            return mkcomp(p, seqlen(init), seq_of(acc))
        return at
    # running minimum / maximum, of a number or of each component of an array
    r = extr_rule(d, phi)
    if r is not None:
        op, g, k, v = r
        ent = ite(g, seq_of(v), EMPTY)
        if k is None:
            return lambda t: mkextr(op, concat(seq_of(init), mkcomp(s, t, ent)))

        def at(t):
            p = gensym("ix")
            e = ite(cmp(k, p, "==", True), ent, EMPTY)
            return mkcomp(p, seqlen(init), seq_of(mkextr(op, concat(seq_of(idx(init, p)), mkcomp(s, t, e)))))
        return at
    # booleans
    if d.op == "sw" and not boolish(d) and has_bool_leaf(d):
        d2 = leafmap(d, lambda x: b_atom(phi) if x is phi else x)
        if d2 is not None and boolish(d2):
            d = d2
    if boolish(d):
        ct = restrict(d, "b", phi, True)
        cf = restrict(d, "b", phi, False)
        if not has_phi(ct, [phi]) and not has_phi(cf, [phi]):
            if cf is FALSE:
                return lambda t: b_and(init, b_not(mkany(s, t, b_not(ct))))
            if ct is TRUE:
                return lambda t: b_or(init, mkany(s, t, cf))
        return None
    # sums and products
    if numericish(d):
        diff = sub(d, phi)
        if not has_phi(diff, [phi]):
            return lambda t: add(init, mksum(s, t, diff))
        if d.op == "num" and len(d.args[0]) == 1:
            (m, c), = d.args[0]
            ms = dict(m)
            if ms.get(phi) == 1:
                rest = from_poly({tuple((a, p) for a, p in m if a is not phi): c})
                if not has_phi(rest, [phi]):
                    return lambda t: mul(init, mkprod(s, t, rest))
    return None


def cell_rule(d, phi, init, s, phis):
    k = update_key(d, phi)
    if k is None or k.op == "sw" or occurs(k, s) or has_phi(k, [phi]):
        return None
    cell = gensym("phi")
    d = subst(d, {mk("idx", phi, k): cell})
    nxt = leafmap(d, lambda x: cell if x is phi else (segs(x.args[1])[-1].args[0].args[1] if x.op == "scat" else None))
    if nxt is None or has_phi(nxt, [phi]) or not has_phi(nxt, [cell]):
        return None
    leaves = []
    leaves_of(None, cell, idx(init, k), nxt, leaves)
    if any(lf.phi is cell for lf in leaves):
        if len(leaves) != 1:
            return None
        at = solve_leaf(leaves[0], nxt, s, phis)
        return None if at is None else (lambda t: mkscat(init, seq_of(tup(k, at(t)))))
    solve(leaves, s)

    def build(shape, path, t):
        for lf in leaves:
            if lf.path == path:
                return lf.at(t)
        while shape.op == "sw":
            shape = next((c for c in shape.args[3] if c.op == "sw" or struct_shape(c)), None)
        if shape.op == "adt":
            return adt(shape.args[0], shape.args[1], shape.args[2],
                       [build(v, path + (n,), t) for n, v in zip(shape.args[2], shape.args[3])])
        return tup(*[build(v, path + (str(i),), t) for i, v in enumerate(shape.args)])
    return lambda t: mkscat(init, seq_of(tup(k, build(nxt, (), t))))


def pointwise_key(d, phi, s):
    """the one index s+c at which the loop body updates the array"""
    k = update_key(d, phi)
    return None if k is None or k.op == "sw" or occurs(sub(k, s), s) or has_phi(k, [phi]) else k


def update_key(d, phi):
    keys, seen, st = set(), set(), [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sw":
            st.extend(x.args[3])
        elif x.op == "scat" and x.args[0] is phi:
            ps = segs(x.args[1])
            if any(p.op != "elem" for p in ps):
                return None
            keys |= {p.args[0].args[0] for p in ps}
        elif x is not phi and x is not BOT:
            return None
    if len(keys) != 1:
        return None
    return keys.pop()


def prefix_rule(d, phi, s):
    if d.op != "scat" or d.args[0] is not phi:
        return None
    q = d.args[1]
    if q.op != "seq" or len(q.args) != 1 or q.args[0].op != "elem":
        return None
    kv = q.args[0].args[0]
    if kv.op != "tup":
        return None
    key, val = kv.args
    if has_phi(key, [phi]) or not numericish(val):
        return None
    c = sub(key, s)
    if occurs(c, s):
        return None
    dd = sub(val, idx(phi, sub(key, ONE)))
    if has_phi(dd, [phi]):
        return None
    return key, dd


def has_bool_leaf(d):
    seen, st = set(), [d]
    while st:
        x = st.pop()
        if x is TRUE or x is FALSE:
            return True
        if x.op == "sw" and x.id not in seen:
            seen.add(x.id)
            st.extend(x.args[3])
    return False


def extr_rule(d, phi):
    """x = min(x, v) where g holds, or a[k] = min(a[k], v)"""
    if d.op != "sw":
        return None
    ents, seen, st = set(), set(), [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sw":
            st.extend(x.args[3])
        elif x is not phi and x is not BOT:
            ents.add(x)
    if len(ents) != 1:
        return None
    x = ents.pop()
    if x.op == "scat" and x.args[0] is phi:
        ps = segs(x.args[1])
        if len(ps) != 1 or ps[0].op != "elem":
            return None
        k, v = ps[0].args[0].args
        h = mk("idx", phi, k)
    else:
        k, v, h = None, x, phi
    if has_phi(v, [phi]) or v.op == "sw" or (k is not None and has_phi(k, [phi])) or not numericish(v):
        return None
    cond = leafmap(d, lambda y: FALSE if y is phi else (BOT if y is BOT else TRUE))
    below, above = sub(v, ONE), add(v, ONE)
    for op, lo, hi, rel in (("minof", above, below, ("<", "<=")), ("maxof", below, above, (">", ">="))):
        g = subst(cond, {h: lo})
        if subst(cond, {h: hi}) is FALSE and not has_phi(g, [phi]):
            if any(cond is b_and(g, cmp(v, h, r, False)) or cond is b_and(g, cmp(v, h, r, True)) for r in rel):
                return op, g, k, v
    return None


def mkextr(op, q):
    def leaf(q):
        if q is BOT:
            return BOT
        ps = segs(q)
        if len(ps) == 1 and ps[0].op == "elem":
            return ps[0].args[0]
        return mk(op, q)
    return SQ._lift_nocache(leaf, q)


REBUILD["minof"] = lambda q: mkextr("minof", q)
REBUILD["maxof"] = lambda q: mkextr("maxof", q)


def boolish(d):
    if d.op == "sw":
        return all(boolish(c) for c in d.args[3])
    return d in (TRUE, FALSE, BOT)


def numericish(d):
    if d.op == "sw":
        return all(numericish(c) for c in d.args[3])
    return d.op == "num" or d.op in ("sym", "fld", "idx", "vf", "call", "mv", "mval", "len", "sum", "bv") or d is BOT


def macc_rule(d, phi):
    """ite(has(phi,k), phi[k := phi[k]+v], phi[k := v])  ->  log [(k, v)]"""
    def leaf(x):
        if x is phi:
            return EMPTY
        if x.op == "mset" and x.args[0] is phi:
            ps = segs(x.args[1])
            if len(ps) == 1 and ps[0].op == "elem":
                k, v = ps[0].args[0].args
                return mk("maccq", k, v)
        return None
    # find decision on mhas(phi, k)
    hv = set()
    seen, st = set(), [d]
    while st:
        x = st.pop()
        if x.id in seen or phi not in x.fv:
            continue
        seen.add(x.id)
        if x.op == "sw" and x.args[1].op == "mhas" and x.args[1].args[0] is phi:
            hv.add(x.args[1])
        TM._push_children(x.args, st)
    if len(hv) != 1:
        return None
    h = hv.pop()
    k = h.args[1]
    dt = restrict(d, "b", h, True)
    df = restrict(d, "b", h, False)

    def lt(x):
        if x is phi:
            return EMPTY
        if x.op == "mset" and x.args[0] is phi:
            ps = segs(x.args[1])
            if len(ps) == 1 and ps[0].op == "elem" and ps[0].args[0].args[0] is k:
                v = sub(ps[0].args[0].args[1], mk("mval", phi, k))
                return seq_of(tup(k, v))
        return None

    def lf(x):
        if x is phi:
            return EMPTY
        if x.op == "mset" and x.args[0] is phi:
            ps = segs(x.args[1])
            if len(ps) == 1 and ps[0].op == "elem" and ps[0].args[0].args[0] is k:
                return seq_of(tup(k, ps[0].args[0].args[1]))
        return None
    a = leafmap(dt, lt)
    b = leafmap(df, lf)
    if a is None or b is None or a is not b:
        return None
    return a


def mapp_rule(d, phi):
    """m[k].push(x), where k is present  ->  log [(k, [x])]"""
    def leaf(x):
        if x is phi:
            return EMPTY
        if x.op == "mset" and x.args[0] is phi:
            ps = segs(x.args[1])
            if len(ps) == 1 and ps[0].op == "elem":
                k, v = ps[0].args[0].args
                vs = segs(v) if v.op == "seq" else ()
                if vs and vs[0] is SQ.eta_comp(mk("mval", phi, k)):
                    return seq_of(tup(k, mkseq(list(vs[1:]))))
        return None
    T_ = leafmap(d, leaf)
    if T_ is None:
        return None
    T_ = SQ.present_keys(phi, T_)
    return None if has_phi(T_, [phi]) else T_


def worklist(I, leaves, exits, s, p0):
    """while a queue is not empty: take an item from one of its ends and add
    further ones.  The items processed are those reachable from the initial
    ones; everything else in the loop becomes a loop over them."""
    if TM.INSTANCE[0]:
        return None
    E = FALSE
    for x in exits:
        E = b_or(E, x)
    for lf in leaves:
        q = lf.phi
        n = seqlen(q)
        if cmp(n, ZERO, "==", True) is not E:
            continue
        d = restrict(lf.nxt, "ni", n, ((Fr(1), 0), None))
        for rest, item in ((mkdrop(q, ONE), idx(q, ZERO)), (slice_(q, ZERO, sub(n, ONE)), idx(q, sub(n, ONE)))):
            ends = [segs(rest)[0]] if rest.op == "seq" and len(rest.args) == 1 else [SQ.eta_comp(rest)]

            def leaf(x):
                if x is rest:
                    return EMPTY
                if x.op == "seq" and x.args:
                    if x.args[-1] in ends:
                        return mkseq(list(x.args[:-1]))
                    if x.args[0] in ends:
                        return mkseq(list(x.args[1:]))
                return None
            T_ = leafmap(d, leaf)
            if T_ is None:
                continue
            it = gensym("item")
            T_ = subst(T_, {item: it})
            if has_phi(T_, [x.phi for x in leaves]):
                continue
            bag = SQ.mkbag(lf.init, mklam(it, T_))
            m = {item: idx(bag, s)}

            def conv(t):
                return subst(restrict(t, "ni", n, ((Fr(1), 0), None)), m)
            others = [x for x in leaves if x is not lf]
            nx = [conv(x.nxt) for x in others]
            if any(has_phi(t, [q]) for t in nx):
                continue
            for x, t in zip(others, nx):
                x.nxt = t
            for p in I.panics[p0:]:
                p.cond = conv(p.cond)
                if has_phi(p.cond, [q]):
                    p.cond = b_atom(app("unk", "loop panic"))
            lf.at = lambda t: EMPTY
            return lf, others, bag
    return None


def aacc_rule(d, phi):
    """a[k] += v  ->  [(cond, p -> increment of component p)]"""
    out = []

    def go(x, cond):
        if x.op == "sw":
            kind, var, labels, ch = x.args
            if has_phi(var, [phi]):
                return False
            for i, c in enumerate(ch):
                cc = switch(kind, var, labels, tuple(TRUE if j == i else FALSE for j in range(len(ch))))
                if not go(c, b_and(cond, cc)):
                    return False
            return True
        if x is phi or x is BOT:
            return True
        if x.op == "scat" and x.args[0] is phi:
            ps = segs(x.args[1])
            for p in ps:
                if p.op != "elem":
                    return False
                k, v = p.args[0].args
                dd = sub(v, mk("idx", phi, k))
                if has_phi(dd, [phi]) or has_phi(k, [phi]):
                    return False
                if len(ps) > 1:
                    return False
                out.append((cond, lambda p, k=k, dd=dd: ite(cmp(k, p, "==", True), dd, ZERO)))
            return True
        # every component changed by its own increment
        if x.op == "seq" and len(x.args) == 1 and x.args[0].op == "comp" and x.args[0].args[1] is seqlen(phi):
            u = gensym("ix")
            v = SQ.elem_singleton(SQ.comp_at(x.args[0], u))
            if v is None or not numericish(v):
                return False
            f = sub(v, idx(phi, u))
            if has_phi(f, [phi]):
                return False
            out.append((cond, lambda p, f=f, u=u: subst(f, {u: p})))
            return True
        return False
    if not go(d, TRUE):
        return None
    return out


def mkdrop(t, n):
    def leaf(t, n):
        if t is BOT or n is BOT:
            return BOT
        if n is ZERO:
            return t
        if t.op == "drop":
            return mkdrop(t.args[0], add(t.args[1], n))
        if is_const(n) and t.op in ("seq", "str"):
            ps = list(segs(t))
            c = int(const_val(n))
            while c > 0 and ps and (ps[0].op == "elem" or (ps[0].op == "lit")):
                if ps[0].op == "elem":
                    ps.pop(0)
                    c -= 1
                else:
                    L = len(ps[0].args[0])
                    if L <= c:
                        ps.pop(0)
                        c -= L
                    else:
                        ps[0] = mk("lit", ps[0].args[0][c:])
                        c = 0
            if not ps:
                return EMPTY
            t = mkseq(ps)
            if c == 0:
                return t
            n = num(c)
        return mk("drop", t, n)
    if t.op == "sw" or n.op == "sw":
        return lift("mkdrop", leaf, t, n)
    return leaf(t, n)


REBUILD["drop"] = mkdrop


def undrop(t):
    """drop(S, c) as an explicit sequence"""
    def leaf(t):
        if t.op != "drop":
            return t
        S, c = t.args
        k = gensym("ix")
        n = sub(seqlen(S), c)
        body = seq_of(idx(S, add(k, c)))
        return ite(cmp(n, ZERO, ">", True), mkcomp(k, n, body), EMPTY)
    return SQ._lift_nocache(leaf, t)


FOLDMAX = 4


def unroll(i, c, inits, lam):
    """the state after a known small number of iterations; None if the
    states cannot be told apart"""
    st = inits
    for k in range(c):
        with SQ.opened(lam, lam.args[1]) as (s, l2):
            if l2.op != "lam":
                return None
            with SQ.opened(l2, l2.args[1]) as (h, body):
                b = subst(body, {s: num(k)})

                def step(x):
                    if x is BOT or x.op != "tup":
                        return x
                    return subst(b, {mk("hf", h, num(j)): v for j, v in enumerate(x.args)})
                st = SQ._lift_nocache(step, st)
    return SQ._lift_nocache(lambda x: x.args[int(const_val(i))] if x.op == "tup" else x, st)


def mkfoldat(i, t, inits, lam):
    if t is ZERO:
        return inits.args[int(const_val(i))]
    return app("foldat", i, t, inits, lam)


def _r_foldat(i, t, inits, lam):
    if BOT in (i, t, inits, lam):
        return BOT
    if t.op == "sw":
        return SQ._lift_nocache(lambda x: _r_foldat(i, x, inits, lam), t)
    if is_const(t) and const_val(t) <= FOLDMAX:
        r = unroll(i, max(0, int(const_val(t))), inits, lam) if inits.op in ("tup", "sw") else None
        if r is not None:
            return r
    if t is ZERO:
        return SQ._lift_nocache(lambda x: x.args[int(const_val(i))] if x.op == "tup" else mk("foldat", i, t, x, lam), inits)
    return mk("foldat", i, t, inits, lam)


REBUILD["foldat"] = _r_foldat


def solve(leaves, s, exits=()):
    """solve all recurrences; every leaf gets .at"""
    todo = list(leaves)
    sol = {}          # phi -> value at iteration s
    lens = {seqlen(lf.phi): seqlen(lf.init) for lf in leaves if scat_only(lf.nxt, lf.phi)}
    exits = [subst(x, lens) for x in exits] if lens else exits
    patient = True
    while todo:
        progress = False
        for lf in list(todo):
            others = [x.phi for x in todo if x is not lf]
            d = subst(lf.nxt, sol) if sol else lf.nxt
            if has_phi(d, others):
                continue
            E = FALSE
            for x in exits:
                E = b_or(E, subst(x, sol))
            if has_phi(E, [x.phi for x in todo]):
                # what ends the loop is solved first
                if patient and not has_phi(E, [lf.phi]):
                    continue
                E = FALSE
            at = solve_leaf(lf, d, s, others, E)
            if at is None:
                continue
            lf.at = at
            sol[lf.phi] = at(s)
            todo.remove(lf)
            progress = True
        if not todo:
            break
        if progress:
            continue
        if patient:
            patient = False
            continue
        # smallest strongly connected group -> fold
        nxts = {lf: (subst(lf.nxt, sol) if sol else lf.nxt) for lf in todo}
        deps = {lf: [x for x in todo if has_phi(nxts[lf], [x.phi])] for lf in todo}
        best = None
        for lf in todo:
            clo = set()
            st = [lf]
            while st:
                x = st.pop()
                if x in clo:
                    continue
                clo.add(x)
                st.extend(deps[x])
            if best is None or len(clo) < len(best):
                best = clo
        group = list(best)
        ph = mk("sym", "fold-placeholder", 0, "g")
        m0 = {x.phi: ph for x in group}
        group.sort(key=lambda x: (okey(subst(nxts[x], m0)), okey(x.init)))
        h = gensym("h")
        m = {x.phi: mk("hf", h, num(i)) for i, x in enumerate(group)}
        body = tup(*[subst(nxts[x], m) for x in group])
        lam = mklam(s, mklam(h, body))
        inits = tup(*[x.init for x in group])
        for i, x in enumerate(group):
            x.at = (lambda t, i=i, inits=inits, lam=lam: SQ._lift_nocache(
                lambda ii: mkfoldat(num(i), t, ii, lam), inits) if inits.op == "sw" else
                SQ._lift_nocache(lambda tt: mkfoldat(num(i), tt, inits, lam), t))
            sol[x.phi] = x.at(s)
            if scat_only(nxts[x], x.phi):
                FOLDLEN[(num(i), inits, lam)] = x.init
            todo.remove(x)
    return sol


FOLDLEN = {}


def scat_only(d, phi):
    if d.op == "sw":
        return all(scat_only(c, phi) for c in d.args[3])
    if d is phi or d is BOT:
        return True
    return d.op == "scat" and scat_only(d.args[0], phi)


def _foldlen(t):
    b = FOLDLEN.get((t.args[0], t.args[2], t.args[3]))
    return seqlen(b) if b is not None else None


SQ.LENHOOK["foldat"] = _foldlen


# ------------------------------------------------------------------ running
def one_step(I, step, brk, st, pc_out):
    """Run one iteration from state st. Returns dict of outcomes."""
    fr = I.frames[-1]
    l = {"id": brk, "breaks": [], "conts": [], "step": True}
    fr.loops.append(l)
    nret = len(fr.rets)
    saved = (I.st, I.pc)
    I.st, I.pc = st, TRUE
    I.outer.append(pc_out)
    alive = True
    try:
        step()
        out = (I.pc, I.st)
    except IP.Dead:
        alive = False
        out = None
    finally:
        fr.loops.pop()
        I.outer.pop()
    I.st, I.pc = saved
    conts = [(pc, s2) for (pc, v, s2, i) in l["conts"]]
    rets = fr.rets[nret:]
    del fr.rets[nret:]
    brks = [(pc, v, s2, i) for (pc, v, s2, i) in l["breaks"]]
    pcs = None
    cur = None
    if out is not None:
        pcs, cur = out
    for pc, s2 in conts:
        if cur is None:
            pcs, cur = pc, s2
        else:
            cur = I.merge(pc, s2, cur)
            pcs = b_or(pc, pcs)
    return cur, pcs, brks, rets


def for_loop(I, it, pat, body, brk, e):
    import models
    v = I.eval(it)
    seq = models.into_seq(I, v, I.ty(it))

    def elem(x):
        I.bind_pat(pat, x, None)
        I.eval(body)
    return loop_seq(I, seq, elem, brk)


def loop_seq(I, seq, elem, brk):
    """run elem over all elements of seq"""
    if seq.op == "mref":
        seq = I.load(seq)
    if seq is BOT:
        raise IP.Dead()
    # hoist: decide which sequence it is first
    if seq.op == "sw":
        k, var, labels, ch = seq.args

        def go(i):
            if i == len(ch) - 1:
                return loop_seq(I, ch[i], elem, brk)
            c = node(k, var, labels, tuple(TRUE if j == i else FALSE for j in range(len(ch))))
            return I.branch(c, lambda: loop_seq(I, ch[i], elem, brk), lambda: go(i + 1))
        return go(0)
    if seq.op == "drop":
        return loop_seq(I, undrop(seq), elem, brk)
    fr = I.frames[-1]
    pend = []        # (pc, st) of breaks
    dead = False
    io = None
    for p in segs(seq):
        if p.op == "elem":
            xs = [p.args[0]]
        elif p.op == "lit":
            xs = [mk("chr", c) for c in p.args[0]]
        else:
            xs = None
        if xs is not None:
            for x in xs:
                l = {"id": brk, "breaks": [], "conts": []}
                fr.loops.append(l)
                alive = True
                try:
                    elem(x)
                except IP.Dead:
                    alive = False
                fr.loops.pop()
                cur = (I.pc, I.st) if alive else None
                for (pc, v, st, i) in l["conts"]:
                    cur = (pc, st) if cur is None else (b_or(pc, cur[0]), I.merge(pc, st, cur[1]))
                for (pc, v, st, i) in l["breaks"]:
                    pend.append((pc, st))
                if cur is None:
                    dead = True
                    break
                I.pc, I.st = cur
        else:
            s0 = gensym("ix")
            (b0,) = [inst(p.args[0], p.args[2], s0)]
            r = summarise(I, s0, p.args[1], lambda: step_over(I, b0, elem, brk), brk)
            pend += r[1]
            if not r[0]:
                dead = True
        if dead:
            break
    if dead and not pend:
        raise IP.Dead()
    if pend:
        if dead:
            pc, st = pend.pop()
            I.pc, I.st = pc, st
        for pc, st in pend:
            I.st = I.merge(pc, st, I.st)
            I.pc = b_or(pc, I.pc)
    return UNIT


def step_over(I, b, elem, brk):
    if b.op == "seq" and len(b.args) == 1 and b.args[0].op == "elem":
        elem(b.args[0].args[0])
        return
    fr = I.frames[-1]
    # inner sequence of several elements: breaks leave the outer loop as well
    l = fr.loops[-1]
    st_in = I.st
    loop_seq_inner(I, b, elem, brk, l)


def loop_seq_inner(I, b, elem, brk, outer):
    fr = I.frames[-1]
    if b.op == "sw":
        k, var, labels, ch = b.args

        def go(i):
            if i == len(ch) - 1:
                return loop_seq_inner(I, ch[i], elem, brk, outer)
            c = node(k, var, labels, tuple(TRUE if j == i else FALSE for j in range(len(ch))))
            return I.branch(c, lambda: loop_seq_inner(I, ch[i], elem, brk, outer), lambda: go(i + 1))
        return go(0)
    if b is BOT:
        raise IP.Dead()
    for p in segs(b):
        if p.op in ("elem", "lit"):
            for x in ([p.args[0]] if p.op == "elem" else [mk("chr", c) for c in p.args[0]]):
                l = {"id": brk, "breaks": [], "conts": []}
                fr.loops.append(l)
                alive = True
                try:
                    elem(x)
                except IP.Dead:
                    alive = False
                fr.loops.pop()
                outer["breaks"].extend(l["breaks"])
                cur = (I.pc, I.st) if alive else None
                for (pc, v, st, i) in l["conts"]:
                    cur = (pc, st) if cur is None else (b_or(pc, cur[0]), I.merge(pc, st, cur[1]))
                if cur is None:
                    raise IP.Dead()
                I.pc, I.st = cur
        else:
            s0 = gensym("ix")
            b0 = inst(p.args[0], p.args[2], s0)
            alive, pend = summarise(I, s0, p.args[1], lambda: step_over(I, b0, elem, brk), brk)
            for pc, st in pend:
                outer["breaks"].append((pc, UNIT, st, brk))
            if not alive:
                raise IP.Dead()
    return UNIT


def summarise(I, s, n, step, brk):
    """Replace `for s in 0..n { step }` by its effect.
    Returns (falls through?, breaks [(pc, st)])."""
    if n is BOT:
        raise IP.Dead()
    st0, pc0 = I.st, I.pc
    if is_const(n) and const_val(n) <= 0:
        return True, []
    rec = I.record
    r = iterate(I, s, step, brk, st0, pc0, n)
    leaves, phis, cur, brks, rets, p0 = r
    I.record = rec
    exits = [b[0] for b in brks] + [x[0] for x in rets]
    sol = solve(leaves, s, exits)
    E = FALSE
    for x in exits:
        E = b_or(E, subst(x, sol))
    # panics recorded in the body hold for some iteration
    for p in I.panics[p0:]:
        p.cond = mkany(s, n, subst(p.cond, sol))
        if p.detail is not None:
            p.detail = subst(p.detail, sol)
    if E is FALSE and cur is not None:
        I.st = final_state(I, st0, phis, leaves, n)
        return True, []
    if E is TRUE or cur is None:
        N = ZERO
        ex = cmp(n, ZERO, ">", True)
    else:
        N = mkfirst(s, n, E)
        ex = mkany(s, n, E)
    taken = [len(exits), FALSE]
    out = []
    at_N = {lf.phi: lf.at(N) for lf in leaves}

    def inst_exit(pc, st):
        m = dict(at_N)
        m2 = {s: N}
        taken[0] -= 1
        if taken[0] == 0:
            # iteration N does end the loop
            c = b_and(ex, b_not(taken[1]))
        else:
            c = subst(subst(pc, sol), m2)
            taken[1] = b_or(taken[1], c)
            c = b_and(ex, c)
        nst = {}
        for r in st0:
            v = st.get(r)
            if v is None:
                continue
            if v is phis.get(r):
                v = rebuild_root(r, st0, phis, leaves, lambda lf: lf.at(N))
            elif r in phis or v is not st0[r]:
                v = subst(subst(v, sol_full(leaves, phis, s)), m2)
            nst[r] = v
        return c, nst
    for (pc, v, st, i) in brks:
        c, nst = inst_exit(pc, st)
        out.append((b_and(pc0, c), nst))
    for r in rets:
        pc, v, st = r
        c, nst = inst_exit(pc, st)
        val = subst(subst(v, sol_full(leaves, phis, s)), {s: N})
        I.exit_to(r, (b_and(pc0, c), val, nst))
    falls = b_not(ex)
    if cur is None:
        falls = cmp(n, ZERO, "==", True)
    if falls is FALSE:
        return False, out
    I.st = final_state(I, st0, phis, leaves, n)
    I.pc = b_and(pc0, falls)
    if I.pc is FALSE:
        return False, out
    return True, out


def sol_full(leaves, phis, s):
    return {lf.phi: lf.at(s) for lf in leaves}


def rebuild_root(r, st0, phis, leaves, f):
    v = st0[r]
    for lf in leaves:
        if lf.root is r:
            v = set_struct(v, lf.path, f(lf))
    return v


def pointer(v):
    """base and distance of a pointer into foreign memory or an array"""
    off = ZERO
    while v.op == "padd":
        off = add(off, v.args[1])
        v = v.args[0]
    if v.op == "sw":
        # the same base everywhere
        bases = set()
        o = SQ._lift_nocache(lambda x: x if x is BOT else (bases.add(pointer(x)[0]), pointer(x)[1] or ZERO)[1], v)
        base = bases.pop() if len(bases) == 1 else None
        return (base, add(off, o)) if base is not None else (None, None)
    return (v, off) if v.op in ("pptr", "vptr") else (None, None)


def set_struct(v, path, x):
    if not path:
        return x
    n = path[0]

    def leaf(v):
        if v is BOT:
            return BOT
        if n == "*":
            base = pointer(v)[0]
            return BOT if x is BOT else mk("padd", base, x)
        if v.op == "adt":
            vals = [set_struct(w, path[1:], x) if m == n else w for m, w in zip(v.args[2], v.args[3])]
            return adt(v.args[0], v.args[1], v.args[2], vals)
        if v.op == "tup":
            vals = list(v.args)
            vals[int(n)] = set_struct(vals[int(n)], path[1:], x)
            return mk("tup", *vals)
        names = STRUCTNAMES.get(v)
        if names is not None:
            p, ns = names
            vals = [set_struct(field(v, m), path[1:], x) if m == n else field(v, m) for m in ns]
            return adt(p, p.split("::")[-1], ns, vals)
        return app("setf", v, n, x)
    return SQ._lift_nocache(leaf, v)


STRUCTNAMES = {}
PHI_INIT = {}


def final_state(I, st0, phis, leaves, n):
    st = dict(st0)
    for r in phis:
        st[r] = rebuild_root(r, st0, phis, leaves, lambda lf: lf.at(n))
    return st


def iterate(I, s, step, brk, st0, pc0, n):
    """Fixpoint over the set of carried roots, then one recorded run."""
    modified = []
    snap = snapshot(I)
    I.record = False
    for _ in range(8):
        st = dict(st0)
        phis = {}
        for r in modified:
            g = gensym("phi")
            phis[r] = g
            base, off = pointer(st0[r])
            if base is not None:
                # a pointer that moves: its distance is carried
                PHI_INIT[g] = off
                st[r] = mk("padd", base, g)
            else:
                PHI_INIT[g] = st0[r]
                st[r] = g
        restore(I, snap)
        cur, pcs, brks, rets = one_step(I, step, brk, dict(st), b_and(pc0, TRUE))
        new = set()
        for o in ([cur] if cur is not None else []) + [b[2] for b in brks] + [x[2] for x in rets]:
            for r in st0:
                if o.get(r, st[r]) is not st[r]:
                    new.add(r)
            # roots of foreign memory may appear during the run
            for r in o:
                if r not in st0 and IP.foreign_init(r) is not None:
                    st0[r] = IP.foreign_init(r)
                    new.add(r)
        if cur is not None:
            pass
        new = [r for r in st0 if r in new]
        if all(r in phis for r in new):
            break
        modified = [r for r in st0 if r in phis or r in new]
    # recorded run
    restore(I, snap)
    I.record = snap["record"]
    p0 = len(I.panics)
    st = dict(st0)
    for r, g in phis.items():
        base, _ = pointer(st0[r])
        st[r] = g if base is None else mk("padd", base, g)
    cur, pcs, brks, rets = one_step(I, step, brk, st, pc0)
    leaves = []
    for r, g in phis.items():
        if cur is not None:
            nxt = cur.get(r, g)
            if pcs is not TRUE and nxt is not g:
                # only iterations that go on matter
                nxt = ite(pcs, nxt, BOT)
                if nxt is BOT:
                    nxt = cur.get(r, g)
            base, off = pointer(st0[r])
            if base is not None:
                def distance(x):
                    b, o = pointer(x)
                    return o if b is base else BOT if x is BOT else I.unknown("pointer changed in a loop", x)
                leaves.append(Leaf(r, g, off, g if nxt is g else SQ._lift_nocache(distance, nxt), ("*",)))
                continue
            note_structs(nxt, g, st0[r])
            leaves_of(r, g, st0[r], nxt, leaves)
    return leaves, phis, cur, brks, rets, p0


def note_structs(nxt, g, init):
    """remember struct field names of opaque initial values"""
    def go(x, i, depth=0):
        if depth > 4:
            return
        if x.op == "sw":
            for c in x.args[3]:
                go(c, i, depth)
        elif x.op == "adt" and x.args[0] in TM.STRUCTS:
            def leafnote(v):
                if v.op not in ("adt", "tup", "sw"):
                    STRUCTNAMES[v] = (x.args[0], x.args[2])
                return v
            SQ._lift_nocache(leafnote, i)
            for n, c in zip(x.args[2], x.args[3]):
                go(c, field(i, n), depth + 1)
    go(nxt, init)


def snapshot(I):
    return {"panics": len(I.panics), "err": len(I.errexits), "calls": len(I.calls), "unk": len(I.unk),
            "record": I.record, "rets": len(I.frames[-1].rets), "env": dict(I.frames[-1].env)}


def restore(I, snap):
    del I.panics[snap["panics"]:]
    del I.errexits[snap["err"]:]
    del I.calls[snap["calls"]:]
    del I.unk[snap["unk"]:]


# ------------------------------------------------------------------ while / loop
WHILEMAX = 60


def run_while(h, body, inits, conds, m):
    """A loop whose exit is decided in every iteration is run through:
    (state on exit, panic conditions); None if some exit is undecided."""
    cur, pan = inits, [FALSE] * len(conds)
    conds = [subst(c, m) for c in conds]
    for _ in range(WHILEMAX):
        if any(x.op == "sw" for x in cur.args):
            return None
        at = {mk("hf", h, num(j)): v for j, v in enumerate(cur.args)}
        stop = subst(body.args[0], at)
        if stop is not TRUE and stop is not FALSE:
            return None
        pan = [b_or(p, subst(c, at)) for p, c in zip(pan, conds)]
        if stop is TRUE:
            return cur, pan
        cur = tup(*[subst(x, at) for x in body.args[1:]])
    return None


def while_loop(I, e):
    body = e["b"]
    brk = e.get("id")
    s = gensym("ix")
    st0, pc0 = I.st, I.pc

    def step():
        I.discard(I.eval(body))
    leaves, phis, cur, brks, rets, p0 = iterate(I, s, step, brk, st0, pc0, None)
    exits = [b[0] for b in brks] + [x[0] for x in rets]
    if cur is None:
        # body never repeats: run it straight
        I.st, I.pc = dict(st0), pc0
        l = {"id": brk, "breaks": [], "conts": []}
        fr = I.frames[-1]
        fr.loops.append(l)
        try:
            step()
        except IP.Dead:
            pass
        fr.loops.pop()
        if not l["breaks"]:
            raise IP.Dead()
        return join_breaks(I, [(pc, v, st) for pc, v, st, i in l["breaks"]])
    wl = worklist(I, leaves, exits, s, p0)
    sol = solve(wl[1] if wl is not None else leaves, s)
    E = FALSE
    for x in exits:
        E = b_or(E, subst(x, sol))
    for p in I.panics[p0:]:
        p.cond = subst(p.cond, sol)
    if DEBUG: print('TRIP', E, {str(k):v for k,v in sol.items()})
    N = trip(s, E) if wl is None else seqlen(wl[2])
    if N is not None:
        m2 = {s: N}
        full = sol_full(leaves, phis, s)
        for p in I.panics[p0:]:
            p.cond = mkany(s, N, p.cond)
        mval_ = lambda t: subst(subst(t, full), m2)
        root_at = lambda r: rebuild_root(r, st0, phis, leaves, lambda lf: lf.at(N))
        single = len(exits) == 1
    else:
        # general loop: exit state as a canonical fixpoint of the transition
        h = gensym("h")
        lv = sorted(leaves, key=lambda x: okey(x.init))
        m = {x.phi: mk("hf", h, num(i)) for i, x in enumerate(lv)}
        Eraw = FALSE
        for x in exits:
            Eraw = b_or(Eraw, x)
        bodyt = tup(subst(Eraw, m), *[subst(x.nxt, m) for x in lv])
        lam = mklam(h, bodyt)
        inits = tup(*[x.init for x in lv])
        wv = {x.phi: app("whileat", num(i), inits, lam) for i, x in enumerate(lv)}
        run = run_while(h, bodyt, inits, [p.cond for p in I.panics[p0:]], m)
        if run is not None:
            wv = {x.phi: v for x, v in zip(lv, run[0].args)}
            for p, c in zip(I.panics[p0:], run[1]):
                p.cond = c
        else:
            I.unk.append(("general loop", getattr(I, "cursp", "?"), I.frames[-1].fn["key"]))
            for p in I.panics[p0:]:
                p.cond = b_atom(app("unk", "loop panic"))
        mval_ = lambda t: subst(t, wv)
        fin = {x.root: None for x in lv}
        root_at = lambda r: rebuild_root(r, st0, phis, leaves, lambda lf: wv[lf.phi])
        single = len(exits) == 1

    def inst_exit(pc, st):
        c = TRUE if single else mval_(pc)
        nst = {}
        for r in st0:
            v = st.get(r)
            if v is None:
                continue
            if v is phis.get(r):
                v = root_at(r)
            elif r in phis or v is not st0[r]:
                v = mval_(v)
            nst[r] = v
        return c, nst
    out = []
    for (pc, v, st, i) in brks:
        c, nst = inst_exit(pc, st)
        out.append((b_and(pc0, c), mval_(v), nst))
    for r in rets:
        pc, v, st = r
        c, nst = inst_exit(pc, st)
        I.exit_to(r, (b_and(pc0, c), mval_(v), nst))
    if not out:
        raise IP.Dead()
    return join_breaks(I, out)


def join_breaks(I, out):
    pc, v, st = out[-1]
    for (p, w, s2) in out[:-1]:
        v = ite(p, w, v)
        st = I.merge(p, s2, st)
        pc = b_or(p, pc)
    I.pc, I.st = pc, st
    return v


def trip(s, E):
    """number of completed iterations of a loop that stops when E(s)"""
    if E is TRUE:
        return ZERO
    if E is FALSE:
        return None
    acc = {}
    SQ.root_vars(E, acc, set())
    for v, nd in acc.items():
        if nd.args[0] != "ni" or not occurs(v, s):
            continue
        r = SQ.index_cut(s, None, v, nd.args[2])
        if r is None:
            continue
        co, inv = r
        labs = set()
        SQ._collect_labels(E, "ni", v, labs, set())
        for (c, h) in sorted(labs):
            if co == 1:
                hi = restrict(E, "ni", v, ((c, h), None))
                lo = restrict(E, "ni", v, (None, (c, h)))
                cut = sub(num(c), inv)
            else:
                hi = restrict(E, "ni", v, (None, (c, h)))
                lo = restrict(E, "ni", v, ((c, h), None))
                cut = add(sub(inv, num(c)), ONE)
            if hi is TRUE:
                n = cut if nonneg_num(cut) else ite(cmp(cut, ZERO, ">", True), cut, ZERO)
                if lo is FALSE:
                    return n
                if occurs(lo, s):
                    return SQ._lift_nocache(lambda m: mkfirst(s, m, lo), n)
                return ite(lo, ZERO, n)
    # split on tests that do not depend on the iteration
    for v, nd in acc.items():
        if not occurs(v, s):
            kind = nd.args[0]
            if kind == "b":
                parts = [True, False]
                labels = nd.args[2]
            elif kind == "v":
                labels = nd.args[2]
                parts = list(labels)
            elif kind == "e":
                labs = set()
                SQ._collect_labels(E, "e", v, labs, set())
                labels = tuple(sorted(labs))
                parts = list(labels) + [("default", labels)]
            else:
                labs = set()
                SQ._collect_labels(E, kind, v, labs, set())
                labels = tuple(sorted(labs))
                parts = [(labels[i - 1] if i else None, labels[i] if i < len(labels) else None) for i in range(len(labels) + 1)]
            ns = [trip(s, restrict(E, kind, v, p)) for p in parts]
            if any(n is None for n in ns):
                return None
            return switch(kind, v, labels, tuple(ns))
    return None
