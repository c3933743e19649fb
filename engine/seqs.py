"""Normal forms for sequences, text, array updates, maps, sums."""
from terms import *
import terms as _t

SMALL = 8

_open_cache = {}
_active = set()


class opened:
    """Context manager: open binder term t (index t.args[0]) with a symbol that
    is unique among the simultaneously open binders."""

    def __init__(self, t, *bodies):
        self.t = t
        self.bodies = bodies

    def __enter__(self):
        t = self.t
        self.own = t.id not in _active
        k = t.args[0]
        bvk = mk("bv", k)
        if self.own:
            _active.add(t.id)
            c = _open_cache.get(t.id)
            if c is None:
                s = gensym("ix")
                c = (s, {})
                _open_cache[t.id] = c
            s, memo = c
        else:
            s, memo = gensym("ix"), {}
        out = []
        for b in self.bodies:
            r = memo.get(b.id)
            if r is None:
                r = subst(b, {bvk: s})
                memo[b.id] = r
            out.append(r)
        return (s,) + tuple(out)

    def __exit__(self, *a):
        if self.own:
            _active.discard(self.t.id)


def rebuild_binder(t, f):
    op = t.op
    if op == "lam":
        b = t.args[1]
        with opened(t, b) as (s, b1):
            b2 = f(b1)
            if b2 is b1:
                return t
            return mklam(s, b2)
    n = t.args[1]
    n2 = f(n)
    with opened(t, *t.args[2:]) as ob:
        s, bs = ob[0], ob[1:]
        bs2 = [f(b) for b in bs]
        if n2 is n and all(a is b for a, b in zip(bs, bs2)):
            return t
        if op == "comp":
            return mkcomp_seg(s, n2, bs2[0])
        if op == "sum":
            return mksum(s, n2, mul(bs2[0], bs2[1]))
        if op == "any":
            return mkany(s, n2, bs2[0])
        if op == "first":
            return mkfirst(s, n2, bs2[0])
        if op == "prod":
            return mkprod(s, n2, bs2[0])
        if op == "hred":
            return mkhred(s, n2, bs2[0])
        raise AssertionError(op)


def mklam(s, body):
    k, (b,) = bind(s, body)
    return mk("lam", k, b)


# ------------------------------------------------------------------ sequences
EMPTY = mk("seq")


def is_seqleaf(t):
    return t.op in ("seq", "str")


def segs(t):
    """Segments of a sequence leaf (not a decision)."""
    if t.op == "seq":
        return t.args
    if t.op == "str":
        return (mk("lit", t.args[0]),) if t.args[0] else ()
    return (eta_comp(t),)


_eta = {}


def eta_comp(t):
    r = _eta.get(t.id)
    if r is None:
        s = gensym("ix")
        k, (b,) = bind(s, mk("seq", mk("elem", mk("idx", t, s))))
        n = seqlen(t)
        r = mk("comp", k, mk("len", t) if n.op in ("sw", "bot") else n, b)
        _eta[t.id] = r
    return r


def raw_comp(s, n, body):
    k, (b,) = bind(s, body)
    return mk("comp", k, n, b)


def seq_of(*terms):
    return mkseq([mk("elem", t) for t in terms])


def text(s):
    return string(s)


def root_vars(t, acc, seen):
    if t.op != "sw" or t.id in seen:
        return
    seen.add(t.id)
    acc[t.args[1]] = t
    for c in t.args[3]:
        root_vars(c, acc, seen)


def hoist_invariant(s, body, rebuild):
    """If the decision structure of body (outside binders) tests something that
    does not depend on s, split on it first.  Returns None if nothing to hoist."""
    acc = {}
    root_vars(body, acc, set())
    best = None
    for v, node_ in acc.items():
        if not occurs(v, s):
            if best is None or okey(v) < okey(best):
                best = v
    if best is None:
        return None
    nd = acc[best]
    kind, labels = nd.args[0], nd.args[2]
    if kind in ("n", "ni", "e"):
        labs = set()
        _collect_labels(body, kind, best, labs, set())
        labels = tuple(sorted(labs))
    if kind == "b":
        parts = [True, False]
    elif kind == "v":
        parts = list(labels)
    elif kind == "e":
        parts = list(labels) + [("default", labels)]
    else:
        parts = [(labels[i - 1] if i > 0 else None, labels[i] if i < len(labels) else None) for i in range(len(labels) + 1)]
    ch = tuple(rebuild(restrict(body, kind, best, p)) for p in parts)
    return switch(kind, best, labels, ch)


def _collect_labels(t, kind, var, labs, seen):
    if t.op != "sw" or t.id in seen:
        return
    seen.add(t.id)
    if t.args[1] is var and t.args[0] == kind:
        labs |= set(t.args[2])
    for c in t.args[3]:
        _collect_labels(c, kind, var, labs, seen)


def mkcomp(s, n, body):
    """The sequence body(0) ++ body(1) ++ ... ++ body(n-1)."""
    if n.op == "sw":
        return lift(("mkcomp", s.id, body.id), lambda m: mkcomp(s, m, restrict_like(body)), n)
    if n is ZERO:
        return EMPTY
    if body is BOT or n is BOT:
        return BOT
    if body is EMPTY or (body.op == "str" and not body.args[0]):
        return EMPTY
    if is_const(n):
        c = const_val(n)
        if c <= 0:
            return EMPTY
        if c <= SMALL:
            r = EMPTY
            for i in range(int(c)):
                r = concat(r, subst(body, {s: num(i)}))
            return r
    h = hoist_invariant(s, body, lambda b: mkcomp(s, n, b))
    if h is not None:
        return h
    body = within_elems(s, n, body)
    r = pick_key(s, n, body)
    if r is not None:
        return ite(r[0], r[1], EMPTY)
    # split ranges on conditions  s < c
    if body.op == "sw" and body.args[0] == "ni":
        r = split_range(s, n, body)
        if r is not None:
            return r
    if body.op not in ("sw", "seq", "str"):
        body = mk("seq", eta_comp(body))
    # element conditions comparing the index with the (shifted) bound
    if body.op == "seq" and len(body.args) == 1 and body.args[0].op == "elem" and body.args[0].args[0].op == "sw":
        e = body.args[0].args[0]
        if e.args[0] == "ni":
            hb = lift_elem(e)
            r = split_range(s, n, hb)
            if r is not None:
                return r
    r = full_range(s, n, body)
    if r is not None:
        return r
    r = flat_source(s, n, body)
    if r is not None:
        return map_flat(r[0], lambda x: subst(r[2], {r[1]: x}))
    return mkseq([raw_comp(s, n, body)])


def only_key(s, n, v):
    """v says that the key at index s of the enumerated set or map is X"""
    if v.op == "eq" and n.op in ("slen", "mlen"):
        m = n.args[0]
        key = mk("skey" if n.op == "slen" else "mkey", m, s)
        for k, x in (v.args, v.args[::-1]):
            if k is key and s not in x.fv:
                return m, key, x
    return None


def pick_key(s, n, body):
    """the iteration of a set or map that is guarded by its element being X"""
    if s not in body.fv or body.op != "sw":
        return None
    for v in _spine(body):
        r = only_key(s, n, v)
        if r is None or _t.restrict(body, "b", v, False) not in (EMPTY, FALSE):
            continue
        m, key, x = r
        has = shas if n.op == "slen" else mhas
        g = {key: x} if n.op == "slen" else {key: x, mk("mv", m, s): mval(m, x)}
        b = subst(_t.restrict(body, "b", v, True), g)
        if s not in b.fv:
            return has(m, x), b
    return None


def full_range(s, n, body):
    """a range from an outer index i to a bound N as the range to N without
    the indices below i"""
    for mono, c in P(n).items():
        if c == -1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "sym" and mono[0][0].args[2] == "l":
            i = mono[0][0]
            break
    else:
        return None
    m = add(n, i)
    if i in m.fv or i not in body.fv or not nonneg_num(i):
        return None
    u = gensym("ix")
    b = subst(body, {s: sub(u, i)})
    if s in b.fv or any(x.op == "num" and u in x.fv and i in x.fv for x in local_terms(b, u)):
        return None
    return mkcomp(u, m, ite(cmp(sub(u, i), ZERO, "<", True), EMPTY, b))


def flat_source(s, n, body):
    """the sequence of nested loops whose elements body takes one after the
    other: (sequence, element, body of the element)"""
    if s not in body.fv:
        return None
    for x in local_terms(body, s):
        if x.op == "idx" and x.args[1] is s and x.args[0].op == "seq" and s not in x.args[0].fv:
            q = covered(x.args[0], n)
            if q is None:
                continue
            y = gensym("el")
            b = subst(body, {x: y})
            return (q, y, b) if s not in b.fv else None
    return None


def covered(t, n):
    """the first segments of a sequence whose lengths add up to n"""
    if seqlen(t) is n:
        return t
    m, ps = ZERO, segs(t)
    for k, p in enumerate(ps):
        if m is n:
            return mkseq(ps[:k])
        m = add(m, seqlen(mkseq([p])))
        if m.op == "sw":
            return None
    return None


def map_flat(t, f):
    """the concatenation of f over the elements of a sequence"""
    def leaf(t):
        if t is BOT:
            return BOT
        r = EMPTY
        for p in segs(t):
            if p.op == "elem":
                r = concat(r, f(p.args[0]))
            elif p.op == "lit":
                r = concat(r, *[f(mk("chr", c)) for c in p.args[0]])
            else:
                with opened(p, p.args[2]) as (s, b):
                    r = concat(r, mkcomp(s, p.args[1], map_flat(b, f)))
        return r
    return _lift_nocache(leaf, t)


def local_terms(t, u):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.id in seen or u not in x.fv:
            continue
        seen.add(x.id)
        out.append(x)
        _t._push_children(x.args, st)
    return out


def restrict_like(b):
    return b


def lift_elem(e):
    """decision over elements as an (unmerged) decision over singletons"""
    return mk("sw", e.args[0], e.args[1], e.args[2], tuple(mk("seq", mk("elem", c)) for c in e.args[3]))


def index_cut(s, n, var, labels):
    """cut positions of s for a decision on var = ±s + inv"""
    d = P(var)
    co = None
    inv = {}
    for m, c in d.items():
        if m == ((s, 1),):
            co = c
        else:
            if any(occurs(a, s) for a, _ in m):
                return None
            inv[m] = c
    if co not in (1, -1):
        return None
    inv = from_poly(inv)
    return co, inv


def split_range(s, n, body):
    kind, var, labels, ch = body.args
    r = halves(s, n, body)
    if r is not None:
        b, p, q = r
        return concat(mkcomp(s, b, p), mkcomp(s, sub(n, b), q))
    r = index_cut(s, n, var, labels)
    if r is None:
        return None
    co, inv = r
    if co == 1 and len(labels) == 1:
        b = sub(num(labels[0][0]), inv)
        if any(a.op == "sum" for m in P(b) for a, _ in m) and b.op != "sw" and n.op != "sw":
            p, q = ch
            r = ite(cmp(n, b, "<", True), mkcomp(s, n, p), concat(mkcomp(s, b, p), mkcomp(s, sub(n, b), subst(q, {s: add(s, b)}))))
            return r if nonneg_num(b) else ite(cmp(b, ZERO, "<", True), mkcomp(s, n, q), r)
    # only the shape  s < n - c  (c >= 0 constant) or s < c constant
    cuts = []
    for (c, h) in labels:
        # var >= c  <=>  co*s + inv >= c
        b = sub(num(c), inv) if co == 1 else sub(inv, num(c))   # co==1: s >= c-inv ; co==-1: s <= inv-c i.e. s < inv-c+1
        if co == -1:
            b = add(b, ONE)
        if is_const(b):
            if const_val(b) <= 0 or const_val(b) > 3:
                return None
        else:
            dd = sub(n, b)
            if not is_const(dd) or const_val(dd) < 1 or const_val(dd) > 3:
                return None
        cuts.append(b)
    parts = list(ch)
    if co == -1:
        cuts = list(reversed(cuts))
        parts = list(reversed(parts))
    if len(cuts) != 1:
        # only constant cuts in increasing order or single
        if not all(is_const(c) for c in cuts):
            return None
    lo = ZERO
    bounds = [ZERO] + cuts + [n]
    out = EMPTY
    for i, p in enumerate(parts):
        a, b = bounds[i], bounds[i + 1]
        cnt = sub(b, a)
        if p.op == "sw" or True:
            body_i = subst(p, {s: add(s, a)}) if a is not ZERO else p
        out = concat(out, mkcomp(s, cnt, body_i))
    # valid only when n >= every constant involved
    need = max([const_val(c) if is_const(c) else const_val(sub(n, c)) for c in cuts])
    if nonneg_num(n) and not is_const(n):
        alt = EMPTY
        if need == 1:
            return ite(cmp(n, ONE, ">=", True), out, EMPTY)
        return None
    return out


def halves(s, n, body):
    """(b, body below b, body from b on, with the index counted from b) of a
    body that decides on s < b where 0 <= b <= n always holds"""
    if body.op != "sw" or body.args[0] != "ni":
        return None
    kind, var, labels, ch = body.args
    if len(labels) != 1 or s not in var.fv:
        return None
    r = index_cut(s, n, var, labels)
    if r is None:
        return None
    co, inv = r
    c = num(labels[0][0])
    b = sub(c, inv) if co == 1 else add(sub(inv, c), ONE)
    if s in b.fv or not nonneg_num(b) or not nonneg_num(sub(n, b)):
        return None
    p, q = ch if co == 1 else ch[::-1]
    return b, p, subst(q, {s: add(s, b)})


def mkcomp_seg(s, n, body):
    """rebuild of a comp segment; result is a sequence value wrapped so that
    enclosing sequences can splice it"""
    return mkcomp(s, n, body)


def elem_singleton(body):
    """value of a one-element sequence term, else None"""
    if body.op == "seq" and len(body.args) == 1 and body.args[0].op == "elem":
        return body.args[0].args[0]
    if body.op == "str" and len(body.args[0]) == 1:
        return mk("chr", body.args[0])
    if body.op == "sw":
        vs = [elem_singleton(c) for c in body.args[3]]
        if all(v is not None for v in vs):
            return switch(body.args[0], body.args[1], body.args[2], tuple(vs))
    return None


def comp_at(c, val):
    """body of comp segment c at index val"""
    return inst(c.args[0], c.args[2], val)


def mkseq(parts):
    """Canonical sequence from segments."""
    out = []
    for p in parts:
        if p.op == "elem":
            e = p.args[0]
            if e is BOT:
                return BOT
            if e.op == "chr":
                p = mk("lit", e.args[0])
            elif e.op == "sw" and any_chr(e):
                # characters chosen by a condition: decide at the root
                rest = list(parts)
                return _expand_at(parts, p)
        if p.op == "lit":
            if not p.args[0]:
                continue
            if out and out[-1].op == "lit":
                out[-1] = mk("lit", out[-1].args[0] + p.args[0])
                continue
            out.append(p)
            continue
        if p.op == "comp" and is_const(p.args[1]) and const_val(p.args[1]) <= SMALL:
            r = []
            for i in range(max(0, int(const_val(p.args[1])))):
                r.append(comp_at(p, num(i)))
            return concat(mkseq(out), *r, mkseq(parts[parts.index(p) + 1:]))
        out.append(p)
        _merge_tail(out)
    if not out:
        return EMPTY
    if len(out) == 1:
        p = out[0]
        if p.op == "lit":
            return string(p.args[0])
        if p.op == "comp":
            e = is_eta(p)
            if e is not None:
                return e
    return mk("seq", *out)


def any_chr(e):
    if e.op == "sw":
        return any(any_chr(c) for c in e.args[3])
    return e.op == "chr"


def _expand_at(parts, p):
    i = next(j for j, q in enumerate(parts) if q is p)
    pre, post = parts[:i], parts[i + 1:]
    e = p.args[0]

    def f(v):
        return mkseq([mk("elem", v)]) if v.op != "sw" else None
    mid = lift("mkelem", f, e)
    return concat(mkseq(pre), mid, mkseq(post))


def copied(c):
    """the sequence a segment copies the first elements of"""
    b = c.args[2]
    if b.op == "seq" and len(b.args) == 1 and b.args[0].op == "elem":
        e = b.args[0].args[0]
        if e.op == "idx" and e.args[1].op == "bv" and e.args[1].args[0] == c.args[0] and e.args[0].bvm < c.args[0]:
            return e.args[0]
    return None


def is_eta(c):
    b = c.args[2]
    if b.op == "seq" and len(b.args) == 1 and b.args[0].op == "elem":
        e = b.args[0].args[0]
        if e.op == "idx" and e.args[1].op == "bv" and e.args[1].args[0] == c.args[0] and \
           e.args[0].bvm < c.args[0] and c.args[1] is seqlen(e.args[0]):
            return e.args[0]
    return None


def _merge_tail(out):
    while len(out) >= 2:
        a, b = out[-2], out[-1]
        r = _merge2(a, b)
        if r is None:
            return
        out[-2:] = [r]


def _segseq(p):
    return mk("seq", p) if p.op != "lit" else string(p.args[0])


def _merge2(a, b):
    if a.op == "comp":
        if not simple_body(a.args[2]):
            return None
        nxt = comp_at(a, a.args[1])
        if b.op in ("elem", "lit"):
            if nxt is _segseq(b):
                return mk("comp", a.args[0], add(a.args[1], ONE), a.args[2])
        elif b.op == "comp" and simple_body(b.args[2]):
            with opened(b, b.args[2]) as (s, bb):
                shifted = inst(a.args[0], a.args[2], add(s, a.args[1]))
                if shifted is bb:
                    n = add(a.args[1], b.args[1])
                    if a.args[2].bvm and n.bvm < a.args[0]:
                        return mk("comp", a.args[0], n, a.args[2])
        return None
    if b.op == "comp" and a.op == "elem" and simple_body(b.args[2]):
        with opened(b, b.args[2]) as (s, bb):
            g = subst(bb, {s: sub(s, ONE)})
            if subst(g, {s: ZERO}) is _segseq(a):
                return raw_comp(s, add(b.args[1], ONE), g)
    return None


def simple_body(b):
    return b.op == "seq" and len(b.args) == 1 and b.args[0].op == "elem" and b.args[0].args[0].op != "sw" or b.op == "seq" and b.op != "sw"


def _concat2(a, b):
    if a is BOT or b is BOT:
        return BOT
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    return mkseq(list(segs(a)) + list(segs(b)))


def concat(*ts):
    r = EMPTY
    for t in ts:
        if r is EMPTY:
            r = t
        else:
            r = lift("concat", _concat2, r, t)
    return r


def rebuild_seq(*args):
    """args: rebuilt segments; a comp segment may have become any sequence."""
    r = EMPTY
    buf = []
    for a in args:
        if a.op in ("elem", "lit"):
            buf.append(a)
        elif a.op == "comp":
            buf.append(a)
        else:
            r = concat(r, mkseq(buf), a)
            buf = []
    return concat(r, mkseq(buf))


REBUILD["seq"] = rebuild_seq


LENHOOK = {}


def seqlen(t):
    def leaf(t):
        if t is BOT:
            return BOT
        if t.op == "str":
            return num(len(t.args[0]))
        if t.op == "seq":
            r = ZERO
            for p in t.args:
                if p.op == "elem":
                    r = add(r, ONE)
                elif p.op == "lit":
                    r = add(r, num(len(p.args[0])))
                else:
                    with opened(p, p.args[2]) as (s, b):
                        r = add(r, mksum(s, p.args[1], seqlen(b)))
            return r
        if t.op == "scat":
            return seqlen(t.args[0])
        if t.op == "sorted":
            return seqlen(t.args[0])
        if t.op == "drop":
            r = sub(seqlen(t.args[0]), t.args[1])
            return ite(cmp(r, ZERO, ">", True), r, ZERO)
        hk = LENHOOK.get(t.op)
        if hk is not None:
            r = hk(t)
            if r is not None:
                return r
        return mk("len", t)
    return lift("seqlen", leaf, t)


REBUILD["len"] = lambda t: seqlen(t)


_t.EMPTYTEXT.append(lambda t: cmp(seqlen(t), ZERO, "==", True))


def idx(t, i):
    def leaf(t, i):
        if t is BOT or i is BOT:
            return BOT
        if t.op == "str":
            if is_const(i):
                c = int(const_val(i))
                return mk("chr", t.args[0][c]) if 0 <= c < len(t.args[0]) else BOT
            return mk("idx", t, i)
        if t.op == "seq":
            return _idx_segs(t, t.args, i)
        if t.op == "scat":
            r = _idx_scat(t, i)
            if r is not None:
                return r
        if t.op == "drop":
            return idx(t.args[0], add(t.args[1], i))
        return mk("idx", t, i)
    return lift("idx", leaf, t, i)


def _idx_segs(t, ps, i):
    if not ps:
        return BOT
    p = ps[0]
    if len(ps) == 1 and p.op == "comp":
        b = comp_at(p, i)
        e = elem_singleton(b)
        if e is not None:
            return e
        return mk("idx", t, i)
    if p.op == "elem" or p.op == "lit":
        L = 1 if p.op == "elem" else len(p.args[0])
        if is_const(i):
            c = const_val(i)
            if c < 0:
                return BOT
            if c < L:
                return p.args[0] if p.op == "elem" else mk("chr", p.args[0][int(c)])
            return _idx_segs(t, ps[1:], sub(i, num(L)))
        if p.op == "lit" and L > 1:
            return mk("idx", t, i)
        here = p.args[0] if p.op == "elem" else mk("chr", p.args[0])
        rest = idx(mkseq(list(ps[1:])), sub(i, ONE))
        return ite(cmp(i, ONE, "<", True), here, rest)
    n = p.args[1]
    e = elem_singleton(comp_at(p, i))
    if e is None:
        n = seqlen(mkseq([p]))
        if len(ps) == 1 or n.op == "sw":
            return mk("idx", t, i)
        e = mk("idx", mkseq([p]), i)
    rest = idx(mkseq(list(ps[1:])), sub(i, n))
    return ite(cmp(i, n, "<", True), e, rest)


REBUILD["idx"] = lambda t, i: idx(t, i)


def slice_(t, a, b):
    """t[a..b]"""
    def leaf(t, a, b):
        if BOT in (t, a, b):
            return BOT
        ps = segs(t)
        if a is ZERO and b is seqlen(t):
            return t
        if is_const(a) and all(p.op in ("elem", "lit") for p in ps):
            flat = []
            for p in ps:
                if p.op == "elem":
                    flat.append(p)
                else:
                    flat += [mk("lit", ch) for ch in p.args[0]]
            if is_const(b):
                return mkseq(flat[int(const_val(a)):int(const_val(b))])
        if is_const(a) and b is seqlen(t):
            # drop leading elements
            c = int(const_val(a))
            ps = list(ps)
            while c > 0 and ps and ps[0].op == "elem":
                ps.pop(0)
                c -= 1
            if c == 0:
                return mkseq(ps)
        s = gensym("ix")
        n = sub(b, a)
        r = mkcomp(s, n, seq_of(idx(t, add(s, a))))
        # where the bounds are out of order there is no slice: the value there
        # is chosen to agree with the range of the same bounds
        return r if nonneg_num(n) or is_const(a) else ite(cmp(n, ZERO, ">", True), r, EMPTY)
    return lift("slice", leaf, t, a, b)


def take(t, n):
    return slice_(t, ZERO, n)


def seqmap(t, f):
    """map a pure Python function over the elements of a sequence (lifted)."""
    def leaf(t):
        if t is BOT:
            return BOT
        out = EMPTY
        for p in segs(t):
            if p.op == "elem":
                out = concat(out, seq_of(f(p.args[0])))
            elif p.op == "lit":
                for c in p.args[0]:
                    out = concat(out, seq_of(f(mk("chr", c))))
            else:
                with opened(p, p.args[2]) as (s, b):
                    out = concat(out, mkcomp(s, p.args[1], seqmap(b, f)))
        return out
    # not cached: f is a closure
    return _lift_nocache(leaf, t)


def _lift_nocache(f, t):
    if t.op == "sw":
        return switch(t.args[0], t.args[1], t.args[2], tuple(_lift_nocache(f, c) for c in t.args[3]))
    return f(t)


# ------------------------------------------------------------------ sums
def coefsplit(body):
    """body (number decision) as {monomial: coefficient decision (rational leaves)}"""
    monos = {}

    def collect(t, seen):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == "sw":
            for c in t.args[3]:
                collect(c, seen)
        elif t is not BOT:
            for m in P(t):
                monos[m] = 1
    collect(body, set())
    out = {}
    for m in monos:
        def leaf(t, m=m):
            if t is BOT:
                return BOT
            return num(P(t).get(m, 0))
        out[m] = lift(("coef", m_id(m)), leaf, body)
    return out


def m_id(m):
    return tuple((a.id, p) for a, p in m)


def mksum(s, n, body):
    if n is ZERO:
        return ZERO
    if n is BOT or body is BOT:
        return BOT
    if n.op == "sw":
        return lift(("mksum", s.id, body.id), lambda m: mksum(s, m, body), n)
    if is_const(n):
        c = const_val(n)
        if c <= 0:
            return ZERO
        if c <= SMALL:
            r = ZERO
            for i in range(int(c)):
                r = add(r, subst(body, {s: num(i)}))
            return r
    body = within(s, n, forward(s, n, unmap(s, n, body)))
    h = hoist_invariant(s, body, lambda b: mksum(s, n, b))
    if h is not None:
        return h
    fs = flat_source(s, n, body)
    if fs is not None:
        return sum_seq(map_flat(fs[0], lambda x: seq_of(subst(fs[2], {fs[1]: x}))))
    r = ZERO
    for m, co in coefsplit(body).items():
        inv = tuple((a, p) for a, p in m if not occurs(a, s))
        dep = tuple((a, p) for a, p in m if occurs(a, s))
        f = from_poly({inv: Fr(1)})
        r = add(r, mul(f, sum_atom(s, n, within(s, n, co), from_poly({dep: Fr(1)}))))
    return r


def lead_coef(co):
    if co.op == "sw":
        for c in co.args[3]:
            l = lead_coef(c)
            if l:
                return l
        return None
    if is_const(co) and const_val(co) != 0:
        return const_val(co)
    return None


def sum_atom(s, n, co, mono):
    if co is ZERO:
        return ZERO
    l = lead_coef(co)
    if l is None:
        return ZERO
    co = mul(co, num(1 / l))
    if co is ONE:
        if mono is ONE:
            return mul(num(l), n)
    r = _sum_split(s, n, co, mono)
    if r is not None:
        return mul(num(l), r)
    if not occurs(mono, s) and mono is not ONE:
        # invariant
        return mul(num(l), mul(mono, sum_atom(s, n, co, ONE)))
    # sums of polynomial powers of the index: n(n-1)/2
    if co is ONE and mono is s:
        return mul(num(l), mul(num(Fr(1, 2)), sub(mul(n, n), n)))
    # telescoping with one leading / trailing point is done in merge_sums
    k, (c2, m2) = bind(s, co, mono)
    return mul(num(l), mk("sum", k, n, c2, m2))


def _sum_split(s, n, co, mono):
    """Indicator ranges:  sum_{k<n} [k < c] f(k)  with c = n - const or const."""
    if co.op == "sw" and co.args[0] == "ni":
        kind, var, labels, ch = co.args
        r = index_cut(s, n, var, labels)
        if r is None or len(labels) not in (1, 2):
            return None
        cf, inv = r
        h = halves(s, n, co)
        if h is not None:
            b, p, q = h
            return add(mksum(s, b, mul(p, mono)), mksum(s, sub(n, b), mul(q, subst(mono, {s: add(s, b)}))))
        cuts = []
        for (c, h) in labels:
            b = sub(num(c), inv) if cf == 1 else add(sub(inv, num(c)), ONE)
            cuts.append(b)
        parts = list(ch)
        if cf == -1:
            cuts.reverse()
            parts.reverse()
        # single point  k == p : needs 0 <= p < n
        if len(cuts) == 2 and sub(cuts[1], cuts[0]) is ONE and parts[0] is parts[2]:
            p = cuts[0]
            base = mksum(s, n, mul(parts[0], mono))
            at = subst(mul(sub(parts[1], parts[0]), mono), {s: p})
            inr = b_and(cmp(p, ZERO, ">=", True), cmp(p, n, "<", True))
            return add(base, ite(inr, at, ZERO))
        return None
    return None


def merge_sums(d):
    """Combine sum atoms over the same range with the same summand factor."""
    # find monomials with exactly one sum atom of power 1
    ss = [(m, c) for m, c in d.items() if any(a.op == "sum" and p == 1 for a, p in m)]
    if not ss:
        return d
    if len(ss) >= 2:
        groups = {}
        for m, c in ss:
            i = next(i for i, (a, p) in enumerate(m) if a.op == "sum" and p == 1)
            a = m[i][0]
            rest = m[:i] + m[i + 1:]
            if any(x.op == "sum" for x, _ in rest):
                continue
            key = (m_id(rest), a.args[1].id)
            groups.setdefault(key, []).append((m, c, a, rest))
        for key, items in groups.items():
            if len(items) < 2:
                continue
            s = gensym("ix")
            by = {}
            for m, c, a, rest in items:
                bvk = mk("bv", a.args[0])
                co, mono = subst(a.args[2], {bvk: s}), subst(a.args[3], {bvk: s})
                by.setdefault(mono, []).append((m, c, co, rest, a.args[1]))
            for mono, its in by.items():
                if len(its) < 2:
                    continue
                tot = ZERO
                for m, c, co, rest, n in its:
                    tot = add(tot, mul(num(c), co))
                d = dict(d)
                for m, *_ in its:
                    d.pop(m, None)
                newt = mksum(s, its[0][4], mul(tot, mono)) if tot is not ZERO else ZERO
                rest = its[0][3]
                nt = mul(from_poly({rest: Fr(1)}), newt)
                if nt.op == "sw":
                    raise NeedLift(d, nt)
                for m2, c2 in P(nt).items():
                    d[m2] = d.get(m2, 0) + c2
                d = {m: c for m, c in d.items() if c != 0}
    # absorb boundary points
    for m, c in list(d.items()):
        if m not in d:
            continue
        i = next((i for i, (a, p) in enumerate(m) if a.op == "sum" and p == 1 and a.args[2] is ONE), None)
        if i is None:
            continue
        a = m[i][0]
        rest = m[:i] + m[i + 1:]
        for n_at, newn, sign in ((a.args[1], add(a.args[1], ONE), 1), (sub(a.args[1], ONE), sub(a.args[1], ONE), -1),
                                 (num(-1), add(a.args[1], ONE), 1)):
            at = inst(a.args[0], a.args[3], n_at)
            if at.op == "sw" or at is BOT:
                continue
            full = mul(from_poly({rest: Fr(1)}), at)
            if full.op == "sw":
                continue
            pf = P(full)
            if len(pf) != 1:
                continue
            (m2, c2), = pf.items()
            if m2 == () or m2 not in d:
                continue
            if d[m2] == sign * c * c2:
                d = dict(d)
                d.pop(m2)
                d.pop(m)
                with opened(a, a.args[3]) as (s, mono):
                    na = mksum(s, newn, subst(mono, {s: sub(s, ONE)}) if is_const(n_at) and const_val(n_at) == -1 else mono)
                nt = mul(from_poly({rest: Fr(1)}), mul(num(c), na))
                if nt.op == "sw":
                    continue
                for m3, c3 in P(nt).items():
                    d[m3] = d.get(m3, 0) + c3
                d = {m: c for m, c in d.items() if c != 0}
                break
    return d


class NeedLift(Exception):
    pass


def sum_seq(t):
    """sum of the elements of a sequence"""
    def leaf(t):
        if t is BOT:
            return BOT
        r = ZERO
        for p in segs(t):
            if p.op == "elem":
                r = add(r, p.args[0])
            elif p.op == "lit":
                return mk("sumtext", t)
            else:
                with opened(p, p.args[2]) as (s, b):
                    r = add(r, mksum(s, p.args[1], sum_seq(b)))
        return r
    return _lift_nocache(leaf, t)


def mkprod(s, n, body):
    if is_const(n) and const_val(n) <= SMALL:
        r = ONE
        for i in range(max(0, int(const_val(n)))):
            r = mul(r, subst(body, {s: num(i)}))
        return r
    k, (b,) = bind(s, body)
    return mk("prod", k, n, b)


def prod_seq(t):
    def leaf(t):
        if t is BOT:
            return BOT
        r = ONE
        for p in segs(t):
            if p.op == "elem":
                r = mul(r, p.args[0])
            else:
                with opened(p, p.args[2]) as (s, b):
                    r = mul(r, mkprod(s, p.args[1], prod_seq(b)))
        return r
    return _lift_nocache(leaf, t)


# ------------------------------------------------------------------ exists / first
def bounded(t):
    """a constant the number never exceeds (a constant less nonnegative quantities), or None"""
    if t.op in ("sw", "bot"):
        return None
    r = Fr(0)
    for m, c in P(t).items():
        if not m:
            r = c
        elif c > 0 or not all(nonneg(a) and p > 0 for a, p in m):
            return None
    return r


def within(s, n, body):
    """drop the cases of a decision that no index 0 <= s < n can reach"""
    if body.op != "sw" or s not in body.fv:
        return body
    if n.op in ("sw", "bot"):
        return body
    memo = {}
    z = sub(s, n)

    def go(t):
        if t.op != "sw" or s not in t.fv:
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        kind, var, labels, ch = t.args
        lo, hi = 0, len(ch) - 1
        if kind == "ni" and s in var.fv:
            up = sub(var, z)          # var <= c - 1
            dn = add(var, z)          # var >= c + 1
            m = bounded(up)
            if m is not None:
                m = m - 1
                hi = sum(1 for l in labels if l <= (m, 0))
            else:
                m = bounded(neg(dn))
                if m is not None:
                    m = 1 - m
                    lo = sum(1 for l in labels if l <= (m, 0))
        if lo > 0 or hi < len(ch) - 1:
            ch2 = [go(c) for c in ch[lo:hi + 1]]
            r = ch2[0] if len(ch2) == 1 else node(kind, var, labels[lo:hi], tuple(ch2))
        elif var.op == "any" and var.args[1] is n and s not in n.fv and inst(var.args[0], var.args[2], s) is TRUE:
            r = go(ch[0])
        else:
            ch2 = [go(c) for c in ch]
            r = t if all(a is b for a, b in zip(ch, ch2)) else node(kind, var, labels, tuple(ch2))
        memo[t.id] = r
        return r
    return go(body)


def within_elems(s, n, body):
    body = within(s, n, body)
    if body.op == "seq" and len(body.args) == 1 and body.args[0].op == "elem" and body.args[0].args[0].op == "sw":
        e = body.args[0].args[0]
        e2 = within(s, n, e)
        if e2 is not e:
            return seq_of(e2)
    return body


def stepped(t):
    """t with the difference of a running total and an earlier one as the
    terms between"""
    d = P(t) if t.op != "sw" else {}
    one = [(m[0][0], c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum"]
    for a, c in one:
        for b, e in one:
            if e == -c and a.args[0] == b.args[0] and a.args[2:] == b.args[2:]:
                k = sub(a.args[1], b.args[1])
                if is_const(k) and 1 <= const_val(k) <= 3 and nonneg_num(b.args[1]):
                    rest = from_poly({m: x for m, x in d.items() if m not in (((a, 1),), ((b, 1),))})
                    for i in range(int(const_val(k))):
                        at = add(b.args[1], num(i))
                        rest = add(rest, mul(num(c), mul(inst(a.args[0], a.args[2], at), inst(a.args[0], a.args[3], at))))
                    return stepped(rest)
    return t


def reached(s, n, body):
    """exists s < n with s >= b, and exists s < n whose share of a running
    total, which never falls, takes it past a bound, in closed form"""
    conj = []
    b = body
    while b is not TRUE:
        if b.op != "sw" or b.args[0] != "ni" or len(b.args[2]) != 1 or len(conj) == 2:
            return None
        v, c = b.args[1], num(b.args[2][0][0])
        low, high = b.args[3]
        if high.op == "sw" and high.args[0] == "ni" and high.args[2] == b.args[2] and high.args[3] == (low, FALSE) and \
           nonneg_num(stepped(sub(v, high.args[1]))):
            b = high            # v < c only where the smaller one is
            continue
        if b.args[3][0] is FALSE:
            conj.append((v, c))
            b = b.args[3][1]
        elif b.args[3][1] is FALSE:
            conj.append((neg(v), sub(ONE, c)))
            b = b.args[3][0]
        else:
            return None
    if len(conj) == 1 and s in conj[0][0].fv:
        r = index_cut(s, n, conj[0][0], ())
        if r is not None and s not in r[1].fv:
            co, inv = r
            c = conj[0][1]
            if co == 1:
                past = cmp(sub(n, ONE), sub(c, inv), ">=", True)
                return past if nonneg_num(sub(c, inv)) else b_and(cmp(n, ONE, ">=", True), past)
            return b_and(cmp(n, ONE, ">=", True), cmp(inv, c, ">=", True))
    if len(conj) == 2:
        for (l, one), (g, c) in (conj, conj[::-1]):
            if one is ONE and s in l.fv and s in g.fv and nonneg_num(l):
                h = subst(g, {s: sub(s, ONE)})
                if stepped(sub(g, h)) is l and cmp(subst(h, {s: ZERO}), c, ">=", True) is FALSE:
                    return cmp(subst(h, {s: n}), c, ">=", True)
    return None


def mkany(s, n, body):
    """exists s < n . body"""
    if n is ZERO:
        return FALSE
    if body is BOT or n is BOT:
        return BOT
    if n.op == "sw":
        return lift(("mkany", s.id, body.id), lambda m: mkany(s, m, body), n)
    body = within(s, n, forward(s, n, unmap(s, n, body)))
    if body is FALSE:
        return FALSE
    if body is TRUE:
        return cmp(n, ZERO, ">", True)
    r = pick_key(s, n, body)
    if r is not None:
        return b_and(*r)
    if is_const(n) and const_val(n) <= SMALL:
        r = FALSE
        for i in range(max(0, int(const_val(n)))):
            r = b_or(r, subst(body, {s: num(i)}))
        return r
    h = hoist_invariant(s, body, lambda b: mkany(s, n, b))
    if h is not None:
        return h
    r = halves(s, n, body)
    if r is not None:
        b, p, q = r
        return b_or(mkany(s, b, p), mkany(s, sub(n, b), q))
    r = reached(s, n, body)
    if r is not None:
        return r
    fs = flat_source(s, n, body)
    if fs is not None:
        return any_seq(fs[0], lambda x: subst(fs[2], {fs[1]: x}))
    k, (b,) = bind(s, body)
    if b in (TRUE, FALSE):
        return mkany(s, n, b)
    return b_atom(mk("any", k, n, b))


def any_seq(t, f=lambda x: x):
    def leaf(t):
        if t is BOT:
            return BOT
        r = FALSE
        for p in segs(t):
            if p.op == "elem":
                r = b_or(r, f(p.args[0]))
            elif p.op == "lit":
                for c in p.args[0]:
                    r = b_or(r, f(mk("chr", c)))
            else:
                with opened(p, p.args[2]) as (s, b):
                    r = b_or(r, mkany(s, p.args[1], any_seq(b, f)))
        return r
    return _lift_nocache(leaf, t)


def mkfirst(s, n, body):
    """least s < n with body, or n"""
    body = within(s, n, body)
    if body is FALSE:
        return n
    if body is TRUE:
        return ZERO
    if n.op == "sw":
        return lift(("mkfirst", s.id, body.id), lambda m: mkfirst(s, m, body), n)
    if is_const(n) and const_val(n) <= SMALL:
        r = n
        for i in reversed(range(max(0, int(const_val(n))))):
            r = ite(subst(body, {s: num(i)}), num(i), r)
        return r
    h = hoist_invariant(s, body, lambda b: mkfirst(s, n, b))
    if h is not None:
        return h
    k, (b,) = bind(s, body)
    F = mk("first", k, n, b)
    if F not in FIRSTS:
        FIRSTS.add(F)
        a = mkany(s, n, body)
        if a.op == "sw" and a.args[0] == "b" and a.args[3] == (TRUE, FALSE) and a.args[1].op == "any":
            c = inst(k, b, F)
            acc = {}
            root_vars(c, acc, set())
            for v, nd in acc.items():
                if occurs(v, F):
                    _t.FACTS.setdefault((nd.args[0], v), []).append((a.args[1], c))
    return F


FIRSTS = set()


def first_rule(var, labels, ch):
    """decisions on how far the first hit is from the end: none / some"""
    if var.op not in ("num", "first") or not labels:
        return None
    d = P(var)
    for mono, c in d.items():
        if len(mono) != 1 or mono[0][1] != 1 or c not in (1, -1) or mono[0][0].op != "first":
            continue
        F = mono[0][0]
        rest = add(sub(var, scale(c, F)), scale(c, F.args[1]))
        if not is_const(rest):
            continue
        k = const_val(rest)
        # var = c * (F - n) + k,   0 <= n - F
        lo = []                                # (distance at which the part begins, part)
        if c == -1:
            cuts = [(l[0] - k) + (1 if l[1] else 0) if (l[0] - k) == int(l[0] - k) else -(-(l[0] - k) // 1) for l in labels]
            if not any(x <= 1 for x in cuts):
                return None
            near = ch[sum(1 for x in cuts if x <= 0)]
            keep = [i for i, x in enumerate(cuts) if x > 1]
            far_ch = (ch[sum(1 for x in cuts if x <= 1)],) + tuple(ch[i + 1] for i in keep)
        else:
            # var >= v  <=>  n - F <= k - v
            cuts = []
            for l in labels:
                x = k - l[0]
                x = x // 1 if not (l[1] and x == x // 1) else x - 1
                cuts.append(x)                 # var in the upper part <=> distance <= x
            if not any(x <= 0 for x in cuts):
                return None
            near = ch[sum(1 for x in cuts if x >= 0)]
            keep = [i for i, x in enumerate(cuts) if x > 0]
            far_ch = tuple(ch[i] for i in keep) + (ch[sum(1 for x in cuts if x >= 1)],)
        if c == -1:
            far = node("ni", var, tuple(labels[i] for i in keep), far_ch) if keep else far_ch[0]
        else:
            far = node("ni", var, tuple(labels[i] for i in keep), far_ch) if keep else far_ch[0]
        s = gensym("fi")
        a = mkany(s, F.args[1], inst(F.args[0], F.args[2], s))
        return ite(a, far, near)
    return None


_t.VARRULES.append(first_rule)


def count_rule(var, labels, ch):
    """whether a count is zero"""
    if var.op not in ("num", "sum") or not labels:
        return None
    d = P(var)
    if len(d) != 1:
        return None
    (mono, c), = d.items()
    if len(mono) != 1 or mono[0][1] != 1 or c <= 0 or mono[0][0].op != "sum" or mono[0][0].args[3] is not ONE:
        return None
    S = mono[0][0]
    k, n, co = S.args[:3]
    vals = set()
    if co.op != "sw" or not _t.all_leaves(co, lambda v: is_const(v) and (vals.add(const_val(v)) or True)) or min(vals) < 0:
        return None
    least = min([v for v in vals if v > 0] or [0]) * c
    cuts = [l[0] + (Fr(1, 1000000) if l[1] else 0) for l in labels]
    if not least or not any(0 < x <= least for x in cuts):
        return None
    zero = ch[sum(1 for x in cuts if x <= 0)]
    keep = [i for i, x in enumerate(cuts) if x > least]
    some_ch = (ch[sum(1 for x in cuts if x <= least)],) + tuple(ch[i + 1] for i in keep)
    rest = node("ni", var, tuple(labels[i] for i in keep), some_ch) if keep else some_ch[0]
    s = gensym("fi")
    hit = lift(("nonzero",), lambda v: boolean(const_val(v) != 0), inst(k, co, s))
    return ite(mkany(s, n, hit), rest, zero)


_t.VARRULES.append(count_rule)


def mkhred(s, n, body):
    k, (b,) = bind(s, body)
    return mk("hred", k, n, b)


# ------------------------------------------------------------------ decisions over sequences
def merge_switch(kind, var, labels, ch):
    """All children are sequence leaves / decisions; merge equal skeletons."""
    if all(c.op == "seq" for c in ch) and len({len(c.args) for c in ch}) == 1 and ch[0].args:
        n = len(ch[0].args)
        cols = []
        for i in range(n):
            col = [c.args[i] for c in ch]
            if all(x is col[0] for x in col):
                cols.append(("same", col[0]))
            elif all(x.op == "elem" for x in col):
                cols.append(("elem", col))
            elif all(x.op == "comp" for x in col) and all(x.args[1] is col[0].args[1] for x in col):
                cols.append(("comp", col))
            else:
                return mk("sw", kind, var, labels, tuple(ch))
        out = []
        for k, col in cols:
            if k == "same":
                out.append(col)
            elif k == "elem":
                out.append(mk("elem", switch(kind, var, labels, tuple(x.args[0] for x in col))))
            else:
                s = gensym("ix")
                bodies = [inst(x.args[0], x.args[2], s) for x in col]
                b = switch(kind, var, labels, tuple(bodies))
                # no hoisting here: the decision is invariant and stays inside
                if b.op == "sw":
                    return mk("sw", kind, var, labels, tuple(ch))
                out.append(raw_comp(s, col[0].args[1], b))
        r = mk("seq", *out)
        return r
    return mk("sw", kind, var, labels, tuple(ch))


# ------------------------------------------------------------------ array updates
def aset(v, i, x):
    """v with element i replaced by x"""
    def leaf(v, i):
        if v is BOT or i is BOT:
            return BOT
        if v.op == "seq" and is_const(i):
            c = int(const_val(i))
            ps = list(v.args)
            if c < len(ps) and all(p.op == "elem" for p in ps[:c + 1]) and c >= 0:
                ps[c] = mk("elem", x)
                return mkseq(ps)
        return mkscat(v, seq_of(tup(i, x)))
    return _lift2_nocache(leaf, v, i)


def _lift2_nocache(f, a, b):
    if a.op == "sw" or b.op == "sw":
        memo = {}
        return lift(("l2", _newtag()), f, a, b)
    return f(a, b)


_tag = [0]


def _newtag():
    _tag[0] += 1
    return _tag[0]


def mkscat(base, log):
    """base with the (index, value) updates of log applied in order"""
    def leaf(base, log):
        if base is BOT or log is BOT:
            return BOT
        if log is EMPTY:
            return base
        if base.op == "scat":
            return mkscat(base.args[0], concat(base.args[1], log))
        # drop updates overwritten by a later update at the same index
        ps = list(segs(log))
        if carried(base):
            # inside a loop: keep updates of the carried array as a log
            r = _contig(base, ps)
            if r is not None and not any(x.args[0].startswith("phi") for x in r.fv):
                return r
            return mk("scat", base, mkseq(_dedup_log(ps)))
        ps = reindex_log(ps, _k0)
        r = _contig(base, ps)
        if r is not None:
            return r
        ps2 = _dedup_log(ps)
        if len(ps2) == 1 and ps2[0].op == "comp":
            r = _contig(base, ps2)
            if r is not None:
                return r
            r = consec(ps2)
            if r is not None:
                c, n, vals = r
                return concat(concat(slice_(base, ZERO, c), vals), slice_(base, add(c, n), seqlen(base)))
        if ps2 and all(p.op == "elem" and is_const(p.args[0].args[0]) for p in ps2) and base.op == "seq" \
           and all(p.op == "elem" for p in base.args):
            r = base
            for p in ps2:
                if not 0 <= const_val(p.args[0].args[0]) < len(base.args):
                    return BOT
                r = aset(r, p.args[0].args[0], p.args[0].args[1])
            if r.op != "scat":
                return r
        return mk("scat", base, mkseq(ps2))
    if base.op == "sw" or log.op == "sw":
        return lift("mkscat", leaf, base, log)
    return leaf(base, log)


REBUILD["scat"] = mkscat


def _dedup_log(ps):
    out = []
    for j, p in enumerate(ps):
        if p.op == "elem" and p.args[0].op == "tup":
            key = p.args[0].args[0]
            if any(q.op == "elem" and q.args[0].op == "tup" and q.args[0].args[0] is key for q in ps[j + 1:]):
                continue
        if p.op == "comp" and any(q.op == "comp" and q.args[1] is p.args[1] and _overwrites(q, p) for q in ps[j + 1:]):
            continue
        out.append(p)
    # commute elements with distinct constant keys into order
    i = 0
    while i < len(out):
        j = i
        while j < len(out) and out[j].op == "elem" and is_const(out[j].args[0].args[0]):
            j += 1
        if j - i > 1:
            out[i:j] = sorted(out[i:j], key=lambda p: const_val(p.args[0].args[0]))
        i = max(j, i + 1)
    return out


def _overwrites(q, p):
    """does q write, at each index, the key that p may have written there?"""
    s = gensym("ix")
    e = elem_singleton(comp_at(q, s))
    if e is None or e.op != "tup":
        return False

    def all_same(t):
        if t.op == "sw":
            return all(all_same(c) for c in t.args[3])
        if t is EMPTY or t is BOT:
            return True
        x = elem_singleton(t)
        return x is not None and x.op == "tup" and x.args[0] is e.args[0]
    return all_same(comp_at(p, s))


def _contig(base, ps):
    """single comp log with keys k+c (each key written at most once)"""
    if len(ps) != 1 or ps[0].op != "comp":
        return None
    p = ps[0]
    with opened(p, p.args[2]) as (s, b):
        keys = set()
        ok_ = [True]

        def visit(t):
            if t.op == "sw":
                for c in t.args[3]:
                    visit(c)
                return
            if t is EMPTY or t is BOT:
                return
            if t.op == "seq" and len(t.args) == 1 and t.args[0].op == "elem" and t.args[0].args[0].op == "tup":
                keys.add(t.args[0].args[0].args[0])
                return
            ok_[0] = False
        visit(b)
        if not ok_[0] or len(keys) != 1:
            return None
        key = next(iter(keys))
        c = sub(key, s)
        if occurs(c, s) or c.op == "sw":
            return None
        L = seqlen(base)

        def val(t):
            if t.op == "sw":
                return switch(t.args[0], t.args[1], t.args[2], tuple(val(x) for x in t.args[3]))
            if t is EMPTY:
                return idx(base, key)
            if t is BOT:
                return BOT
            return t.args[0].args[0].args[1]
        v = val(b)
        mid = mkcomp(s, p.args[1], seq_of(v))
        end = add(p.args[1], c)
        r = mid
        if c is not ZERO:
            r = concat(slice_(base, ZERO, c), r)
        if end is not L:
            r = concat(r, slice_(base, end, L))
        return r


def carried(t):
    while t.op == "fld":
        t = t.args[0]
    return t.op == "sym" and t.args[2] == "l" and t.args[0].startswith("phi")


def consec(ps):
    """(start, count, values) of a log that writes consecutive indices"""
    start, count, vals = None, ZERO, EMPTY
    for p in ps:
        r = consec_seg(p)
        if r is None:
            return None
        c, n, v = r
        if start is None:
            start = c
        elif sub(c, add(start, count)) is not ZERO:
            return None
        count = add(count, n)
        vals = concat(vals, v)
    if start is None or start.op == "sw" or count.op == "sw":
        return None
    return start, count, vals


def consec_seg(p):
    if p.op == "elem" and p.args[0].op == "tup":
        k, v = p.args[0].args
        return k, ONE, seq_of(v)
    if p.op != "comp":
        return None
    with opened(p, p.args[2]) as (s, b):
        if b.op != "seq":
            return None
        r = consec(b.args)
        if r is None:
            return None
        c, n, v = r
        u = gensym("ix")
        c0 = subst(c, {s: ZERO})
        if sub(c, add(c0, mksum(u, s, subst(n, {s: u})))) is not ZERO:
            return None
        return c0, mksum(s, p.args[1], n), mkcomp(s, p.args[1], v)


def _idx_scat(t, i):
    base, log = t.args
    ps = segs(log)
    if len(ps) == 1 and ps[0].op == "comp" and ps[0].args[2].op == "seq" and len(ps[0].args[2].args) == 1 and ps[0].args[2].args[0].op == "elem":
        r = consec(ps)
        if r is not None:
            c, n, vals = r
            ins = b_and(cmp(c, i, "<=", True), cmp(i, add(c, n), "<", True))
            return ite(ins, idx(vals, sub(i, c)), idx(base, i))
    if not all(p.op == "elem" for p in ps):
        # one comp whose keys cannot be decided: opaque
        return None
    r = idx(base, i)
    for p in ps:
        k, x = p.args[0].args
        r = ite(cmp(i, k, "==", True), x, r)
    return r


# ------------------------------------------------------------------ maps and sets
MEMPTY = mk("mempty")
SEMPTY = mk("sempty")


def mset(m, k, v):
    return mkmset(m, seq_of(tup(k, v)))


def distinct(q):
    """no two elements of the sequence are equal"""
    if q is EMPTY:
        return True
    if q.op == "sorted":
        return distinct(q.args[0])
    if q.op == "seq" and len(q.args) == 1:
        p = q.args[0]
        if p.op == "elem":
            return True
        if p.op == "comp":
            with opened(p, p.args[2]) as (s, b):
                e = elem_singleton(b)
                return e is not None and injective(e, s)
    return False


def injective(e, s):
    """e takes different values for different indices s of its range"""
    if e is s:
        return True
    if e.op in ("mkey", "skey"):
        return not occurs(sub(e.args[1], s), s) and not occurs(e.args[0], s)
    if e.op == "idx":
        d = sub(e.args[1], s)
        return not occurs(d, s) and not occurs(e.args[0], s) and distinct(e.args[0])
    if e.op == "num":
        d = P(e)
        c = d.get(((s, 1),), 0)
        return c != 0 and not any(occurs(a, s) for m, _ in d.items() if m != ((s, 1),) for a, _p in m)
    return False


_ENUM = {}


def enum_form(m):
    """a map built from pairs with distinct keys: (index, length, key, value)"""
    if m.op != "mset" or m.args[0] is not MEMPTY:
        return None
    r = _ENUM.get(m.id, 0)
    if r == 0:
        r = None
        ps = segs(m.args[1])
        if len(ps) == 1 and ps[0].op == "comp":
            s = gensym("ix")
            e = elem_singleton(comp_at(ps[0], s))
            if e is not None and e.op == "tup" and injective(e.args[0], s):
                r = (s, ps[0].args[1], e.args[0], e.args[1])
        _ENUM[m.id] = r
    return r


def forward(s, n, body):
    """the body of an order-insensitive reduction that reads its arrays from
    the back, turned around"""
    if s not in body.fv or n.op == "sw" or s in n.fv:
        return body
    seen, st, neg_ = set(), [body], False
    while st:
        x = st.pop()
        if x.id in seen or s not in x.fv:
            continue
        seen.add(x.id)
        if x.op == "idx" and s in x.args[1].fv:
            c = P(x.args[1]).get(((s, 1),), 0)
            if c > 0:
                return body
            neg_ = neg_ or c < 0
        _t._push_children(x.args, st)
    if not neg_:
        return body
    return subst(body, {s: sub(sub(n, ONE), s)})


def unmap(s, n, body):
    """the body of an order-insensitive reduction over the entries of a map
    built from distinct pairs, in the order of the pairs"""
    if s not in body.fv:
        return body
    seen, st, ms = set(), [body], []
    while st:
        x = st.pop()
        if x.id in seen or s not in x.fv:
            continue
        seen.add(x.id)
        if x.op in ("mkey", "mv") and x.args[1] is s and x.args[0].op == "mset" and x.args[0] not in ms:
            ms.append(x.args[0])
        _t._push_children(x.args, st)
    for m in ms:
        if s in m.fv:
            continue
        e = enum_form(m)
        if e is None or e[1] is not n:
            continue
        u = gensym("ix")
        b = subst(body, {mk("mkey", m, s): subst(e[2], {e[0]: u}), mk("mv", m, s): subst(e[3], {e[0]: u})})
        if s not in b.fv:
            return subst(b, {u: s})
    return body


def reindex_log(ps, keyof, inj=True):
    """log segments over a map's entries in the order of its pairs"""
    out = []
    for p in ps:
        if p.op == "comp":
            s = gensym("ix")
            b = comp_at(p, s)
            n = p.args[1]
            b2 = unmap(s, n, b)
            if b2 is b:
                b2, n = join_swap(s, n, b)
            if b2 is not b and (not inj or all(injective(keyof(x), s) for x in log_elems(b2))):
                q = mkcomp(s, n, b2)
                out += [p] if q.op in ("sw", "bot") else list(segs(q))
                continue
        out.append(p)
    return out


def join_swap(s, n, body):
    """entries of one map whose key is in another map built from distinct
    pairs: enumerate the pairs instead"""
    if n.op != "mlen" or s not in body.fv or enum_form(n.args[0]) is not None:
        return body, n
    m = n.args[0]
    k = mk("mkey", m, s)
    for v in _spine(body):
        if v.op == "mhas" and v.args[1] is k and s not in v.args[0].fv:
            e = enum_form(v.args[0])
            if e is None or _t.restrict(body, "b", v, False) is not EMPTY:
                continue
            u = gensym("ix")
            key = subst(e[2], {e[0]: u})
            b = subst(_t.restrict(body, "b", v, True), {k: key, mk("mv", m, s): mval(m, key)})
            if s not in b.fv:
                return subst(ite(mhas(m, key), b, EMPTY), {u: s}), e[1]
    return body, n


def _spine(t):
    """variables of a decision's nodes"""
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.op == "sw" and x.id not in seen:
            seen.add(x.id)
            if x.args[1] not in out:
                out.append(x.args[1])
            st.extend(x.args[3])
    return out


def log_elems(b):
    """elements of a log body with at most one element per case"""
    if b.op == "sw":
        r = []
        for c in b.args[3]:
            r += log_elems(c)
        return list(dict.fromkeys(r)) if len(set(keyfix(x) for x in r)) <= 1 else r + [BOT]
    r = []
    for p in segs(b):
        if p.op != "elem":
            return [BOT]
        r.append(p.args[0])
    return r if len(r) <= 1 else r + [BOT]


def keyfix(x):
    return x.args[0].id if x.op == "tup" else x.id


def _k0(x):
    return x.args[0] if x.op == "tup" else BOT


def mkmset(base, log):
    def leaf(base, log):
        if base is BOT or log is BOT:
            return BOT
        if log is EMPTY:
            return base
        if INSTANCE[0]:
            r = known("mset", base, log)
            if r is not None:
                return r
        ps = segs(log)
        if base is not MEMPTY and len(ps) == 1 and _all_keys(base, ps[0]):
            return mkmset(MEMPTY, log)
        if base.op == "mset":
            return mkmset(base.args[0], concat(base.args[1], log))
        if base is MEMPTY and len(ps) == 1 and ps[0].op == "comp":
            m = _map_eta(ps[0])
            if m is not None:
                return m
        ps = _dedup_log(reindex_log(list(ps), _k0))
        return mk("mset", base, mkseq(ps))
    if base.op == "sw" or log.op == "sw":
        return lift("mkmset", leaf, base, log)
    return leaf(base, log)


REBUILD["mset"] = mkmset


def _all_keys(base, p):
    """does the segment write every key of the map?"""
    if p.op != "comp" or p.args[1].op != "mlen" or p.args[1].args[0] is not base:
        return False
    e = elem_singleton(p.args[2])
    return e is not None and e.op == "tup" and e.args[0] is mk("mkey", base, mk("bv", p.args[0]))


def _map_eta(p):
    n = p.args[1]
    if n.op != "mlen":
        return None
    m = n.args[0]
    b = p.args[2]
    e = elem_singleton(b)
    if e is None or e.op != "tup":
        return None
    bv = mk("bv", p.args[0])
    if e.args[0] is mk("mkey", m, bv) and e.args[1] is mk("mv", m, bv):
        return m
    return None


def mkmacc(base, log):
    """base with log values added (missing keys start at the value itself)"""
    def leaf(base, log):
        if base is BOT or log is BOT:
            return BOT
        if log is EMPTY:
            return base
        if INSTANCE[0]:
            r = known("macc", base, log)
            if r is not None:
                return r
        if base.op == "macc":
            return mkmacc(base.args[0], concat(base.args[1], log))
        ps = segs(log)
        if base is MEMPTY and len(ps) == 1 and ps[0].op == "comp":
            m = _map_eta(ps[0])
            if m is not None:
                return m
        return mk("macc", base, mkseq(list(ps)))
    if base.op == "sw" or log.op == "sw":
        return lift("mkmacc", leaf, base, log)
    return leaf(base, log)


REBUILD["macc"] = mkmacc


def mkmapp(base, log):
    """base with log's sequences appended to the sequences at present keys"""
    def leaf(base, log):
        if base is BOT or log is BOT:
            return BOT
        if log is EMPTY:
            return base
        if INSTANCE[0]:
            r = known("mapp", base, log)
            if r is not None:
                return r
        if base.op == "mapp":
            return mkmapp(base.args[0], concat(base.args[1], log))
        ps = []
        for p in segs(log):
            if p.op == "comp":
                s = gensym("ix")
                b = comp_at(p, s)
                b2 = present_keys(base, b)
                if b2 is not b:
                    q = mkcomp(s, p.args[1], b2)
                    if q.op != "seq":
                        return mkmapp(base, q)
                    ps += list(segs(q))
                    continue
            ps.append(p)
        return mk("mapp", base, mkseq(ps))
    log = present_keys(base, log)
    if base.op == "sw" or log.op == "sw":
        return lift("mkmapp", leaf, base, log)
    return leaf(base, log)


def present_keys(base, b):
    """drop the conditions that the key of an entry is present"""
    for v in _spine(b):
        if v.op == "mhas" and v.args[0] is base:
            k = v.args[1]
        elif v.op == "shas" and keys_are(base, v.args[0]):
            k = v.args[1]
        else:
            continue
        if _t.restrict(b, "b", v, False) is EMPTY:
            t = _t.restrict(b, "b", v, True)
            if all(x.op == "tup" and x.args[0] is k for x in log_elems(t)):
                return present_keys(base, t)
    return b


def keys_are(m, st):
    """the keys of map m are the elements of set st"""
    e = enum_form(m)
    return e is not None and e[1].op == "slen" and e[1].args[0] is st and e[2] is mk("skey", st, e[0])


REBUILD["mapp"] = mkmapp


def mkbag(init, lam):
    """all items of a worklist: the initial ones and, for each item, its
    children (the order in which they are processed is abstracted)"""
    if init is BOT or lam is BOT:
        return BOT
    if lam.op == "lam":
        s = gensym("ix")
        b = inst(lam.args[0], lam.args[1], s)
        if b is EMPTY:
            return init
        lam = mklam(s, _lift_nocache(unordered, b))
    return mk("bag", init, lam)


REBUILD["bag"] = mkbag

from terms import LOWER as TM_LOWER
_BAGLOW = {}


def bag_items_nonempty(t):
    """the items of a worklist of sequences are not empty if the initial ones
    and all children are not"""
    if t.op != "len" or t.args[0].op != "idx" or t.args[0].args[0].op != "bag":
        return None
    b = t.args[0].args[0]
    if b not in _BAGLOW:
        _BAGLOW[b] = None
        init, lam = b.args
        if lam.op == "lam" and all(not_empty(x) for x in items(init)) and \
           all(not_empty(x) for x in items(inst(lam.args[0], lam.args[1], gensym("it")))):
            _BAGLOW[b] = Fr(1)
    return _BAGLOW[b]


def items(t):
    """terms for all elements of a sequence"""
    if t is BOT or t is EMPTY:
        return []
    if t.op == "sw":
        return [x for c in t.args[3] for x in items(c)]
    out = []
    for p in segs(t):
        if p.op == "elem":
            out.append(p.args[0])
        elif p.op == "comp":
            out += items(p.args[2])
        else:
            out.append(None)
    return out


def not_empty(x):
    if x is None or x is BOT:
        return x is BOT
    if x.op == "sw":
        return all(not_empty(c) for c in x.args[3])
    return cmp(seqlen(x), ONE, "<", True) is FALSE


TM_LOWER.append(bag_items_nonempty)


def unordered(t):
    """a sequence whose order does not matter"""
    if t is BOT or t is EMPTY:
        return t
    ps = []
    for p in segs(t):
        if p.op == "comp":
            u = gensym("ix")
            b = _lift_nocache(unordered, comp_at(p, u))
            r = subst(b, {u: sub(sub(p.args[1], ONE), u)})
            if u in b.fv and termsize(r) < termsize(b):
                b = r
            q = mkcomp(u, p.args[1], b)
            ps += list(segs(q)) if q.op in ("seq", "str") else [eta_comp(q) if q.op != "sw" else p]
        else:
            ps.append(p)
    return mkseq(sorted(ps, key=okey))


def termsize(t, lim=2000):
    n, st = 0, [t]
    while st and n < lim:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        n += 1
        if hasattr(x, "args"):
            st.extend(x.args)
    return n


# ------------------------------------------------------------------ instances
# Small instances (terms.INSTANCE set, in a process of its own): maps and sets with
# finitely many known keys are kept as lists of entries in a fixed order.
def entries(m):
    """the entries of a map or set whose keys are known to be distinct"""
    if m is MEMPTY or m is SEMPTY:
        return []
    if m.op in ("mset", "sset") and m.args[0] in (MEMPTY, SEMPTY) and m.args[1].op == "seq":
        ps = m.args[1].args
        if all(p.op == "elem" for p in ps):
            es = [p.args[0] for p in ps]
            ks = es if m.op == "sset" else [e.args[0] for e in es]
            if all(keq(a, b) is FALSE for i, a in enumerate(ks) for b in ks[:i]):
                return es
    return None


def known(op, base, log):
    """base updated by log, entry by entry"""
    es = entries(base)
    if es is None or log.op != "seq" or any(p.op != "elem" for p in log.args):
        return None
    es = list(es)
    for p in log.args:
        e = p.args[0]
        k = e if op == "sset" else field(e, "0")
        for i, old in enumerate(es):
            c = keq(old if op == "sset" else old.args[0], k)
            if c is TRUE:
                break
            if c is not FALSE:
                return None
        else:
            i = None
        if op == "sset":
            if i is None:
                es.append(e)
            continue
        v = field(e, "1")
        if i is None:
            if op == "mapp":
                continue
            es.append(tup(k, v))
        else:
            old = es[i].args[1]
            es[i] = tup(es[i].args[0], v if op == "mset" else concat(old, v) if op == "mapp" else add(old, v))
    if not es:
        return SEMPTY if op == "sset" else MEMPTY
    es.sort(key=lambda e: okey(e if op == "sset" else e.args[0]))
    return mk("sset" if op == "sset" else "mset", SEMPTY if op == "sset" else MEMPTY, seq_of(*es))


def keq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return boolean(a is b)
    return eq(a, b)


def mhas(m, k):
    def leaf(m, k):
        if m is BOT or k is BOT:
            return BOT
        if m is MEMPTY:
            return FALSE
        if k.op == "mkey" and k.args[0] is m:
            return TRUE
        if m.op == "mapp":
            return mhas(m.args[0], k)
        if m.op == "mset":
            ps = segs(m.args[1])
            if all(p.op == "elem" for p in ps):
                r = mhas(m.args[0], k)
                for p in ps:
                    r = b_or(r, keq(p.args[0].args[0], k))
                return r
            # a comp whose key is k for some index of an enclosing range is not decided
            j = _enum_at(m, k)
            if j is not None:
                return j[0]
            e = enum_form(m)
            if e is not None and e[1].op == "slen" and keys_are(m, e[1].args[0]):
                return shas(e[1].args[0], k)
        return b_atom(mk("mhas", m, k))
    return lift("mhas", leaf, m, k)


def guarded_form(m):
    """a map built from pairs with distinct keys, each under a condition:
    (index, length, key, value, condition)"""
    e = enum_form(m)
    if e is not None:
        return e + (TRUE,)
    if m.op != "mset" or m.args[0] is not MEMPTY:
        return None
    r = _GUARDED.get(m.id, 0)
    if r == 0:
        r = None
        ps = segs(m.args[1])
        if len(ps) == 1 and ps[0].op == "comp":
            s = gensym("ix")
            b = comp_at(ps[0], s)
            es = log_elems(b)
            if len(es) == 1 and es[0].op == "tup" and injective(es[0].args[0], s):
                c = _lift_nocache(lambda x: FALSE if x is EMPTY else x if x is BOT else TRUE, b)
                r = (s, ps[0].args[1], es[0].args[0], es[0].args[1], c)
        _GUARDED[m.id] = r
    return r


_GUARDED = {}


def _enum_at(m, k):
    """k is the key at some index of the map's pairs: (present, value)"""
    e = guarded_form(m)
    if e is None or k.op not in ("idx", "skey", "mkey") or e[2].op != k.op or e[2].args[0] is not k.args[0]:
        return None
    j = sub(k.args[1], sub(e[2].args[1], e[0]))
    here = b_and(cmp(j, ZERO, ">=", True), cmp(j, e[1], "<", True))
    return b_and(here, subst(e[4], {e[0]: j})), subst(e[3], {e[0]: j})


def mval(m, k):
    def leaf(m, k):
        if m is BOT or k is BOT:
            return BOT
        if m is MEMPTY:
            return BOT
        if k.op == "mkey" and k.args[0] is m:
            return mk("mv", m, k.args[1])
        if m.op == "mset":
            ps = segs(m.args[1])
            if all(p.op == "elem" for p in ps):
                r = mval(m.args[0], k)
                for p in ps:
                    r = ite(keq(p.args[0].args[0], k), p.args[0].args[1], r)
                return r
            j = _enum_at(m, k)
            if j is not None:
                return j[1]
        return mk("mval", m, k)
    return lift("mval", leaf, m, k)


REBUILD["mhas"] = lambda m, k: mhas(m, k)
REBUILD["mval"] = lambda m, k: mval(m, k)


def mlen(m):
    def leaf(m):
        if m is BOT:
            return BOT
        if m is MEMPTY:
            return ZERO
        if INSTANCE[0] and entries(m) is not None:
            return num(len(entries(m)))
        if m.op == "mset" and m.args[0] is MEMPTY:
            ps = segs(m.args[1])
            if len(ps) == 1 and ps[0].op == "elem":
                return ONE
            if m.op == "mapp":
                return mlen(m.args[0])
            e = enum_form(m)
            if e is not None:
                return e[1]
        return mk("mlen", m)
    return lift("mlen", leaf, m)


REBUILD["mlen"] = lambda m: mlen(m)


def miter(m):
    """iteration order of a map is arbitrary but fixed: (key, value) pairs"""
    def leaf(m):
        if m is BOT:
            return BOT
        if m is MEMPTY:
            return EMPTY
        if INSTANCE[0] and entries(m) is not None:
            return seq_of(*entries(m))
        if m.op == "mset" and m.args[0] is MEMPTY:
            ps = segs(m.args[1])
            if len(ps) == 1 and ps[0].op == "elem":
                return mkseq([ps[0]])
        s = gensym("ix")
        return mkseq([raw_comp(s, mlen(m), seq_of(tup(mk("mkey", m, s), mk("mv", m, s))))])
    return lift("miter", leaf, m)


def _r_mkey(m, i):
    return lift("mkey", lambda m, i: BOT if BOT in (m, i) else _it(m, i, 0, "mkey"), m, i)


def _r_mv(m, i):
    return lift("mv", lambda m, i: BOT if BOT in (m, i) else _it(m, i, 1, "mv"), m, i)


def _it(m, i, which, op):
    if INSTANCE[0] and is_const(i):
        es = entries(m)
        if es is not None and 0 <= const_val(i) < len(es):
            return es[int(const_val(i))].args[which]
    if m.op == "mset" and m.args[0] is MEMPTY:
        ps = segs(m.args[1])
        if len(ps) == 1 and ps[0].op == "elem":
            return ps[0].args[0].args[which]
    return mk(op, m, i)


REBUILD["mkey"] = _r_mkey
REBUILD["mv"] = _r_mv


def map_entries(ps):
    """segments over the keys of an updated map: over its old keys and the
    updates (values may be stale, so only for bodies that ignore them)"""
    out = []
    for p in ps:
        n = p.args[1] if p.op == "comp" else None
        if n is not None and n.op == "mlen" and n.args[0].op in ("mset", "macc"):
            m = n.args[0]
            s = gensym("ix")
            b = comp_at(p, s)
            key = gensym("ix")
            b2 = subst(b, {mk("mkey", m, s): key})
            if s not in b2.fv:
                old = EMPTY if m.args[0] is MEMPTY else mkcomp(s, mlen(m.args[0]), subst(b2, {key: mk("mkey", m.args[0], s)}))
                new = seqmap_flat(m.args[1], lambda e: subst(b2, {key: field(e, "0")}))
                qs = [list(segs(x)) if x.op in ("seq", "str") else None for x in (old, new)]
                if None not in qs:
                    out += map_entries(qs[0]) + qs[1]
                    continue
        out.append(p)
    return out


def seqmap_flat(t, f):
    def leaf(t):
        if t is BOT:
            return BOT
        out = EMPTY
        for p in segs(t):
            if p.op == "elem":
                out = concat(out, f(p.args[0]))
            else:
                with opened(p, p.args[2]) as (s, b):
                    out = concat(out, mkcomp(s, p.args[1], seqmap_flat(b, f)))
        return out
    return _lift_nocache(leaf, t)


def unsort_seg(p):
    """all elements of a sorted sequence, in its original order"""
    if p.op == "comp":
        s = gensym("ix")
        e = elem_singleton(comp_at(p, s))
        if e is not None and e.op == "idx" and e.args[1] is s and e.args[0].op == "sorted" and p.args[1] is seqlen(e.args[0]) \
           and s not in e.args[0].fv:
            q = e.args[0].args[0]
            if q.op == "seq":
                return list(segs(q))
    return [p]


def mksset(base, log):
    def leaf(base, log):
        if base is BOT or log is BOT:
            return BOT
        if log is EMPTY:
            return base
        if INSTANCE[0]:
            r = known("sset", base, log)
            if r is not None:
                return r
        if base.op == "sset":
            return mksset(base.args[0], concat(base.args[1], log))
        if base is SEMPTY:
            # insertion order and duplicates do not matter
            ps = []
            for p in map_entries(reindex_log(list(segs(log)), _k0, False)):
                for q in unsort_seg(p):
                    if q not in ps:
                        ps.append(q)
            if len(ps) == 1 and ps[0].op == "comp":
                p = ps[0]
                e = elem_singleton(p.args[2])
                if e is not None and p.args[1].op == "slen" and e is mk("skey", p.args[1].args[0], mk("bv", p.args[0])):
                    return p.args[1].args[0]
            ps.sort(key=okey)
            return mk("sset", base, mk("seq", *ps))
        return mk("sset", base, log if log.op == "seq" else mk("seq", *segs(log)))
    if base.op == "sw" or log.op == "sw":
        return lift("mksset", leaf, base, log)
    return leaf(base, log)


REBUILD["sset"] = mksset


def slen(m):
    def leaf(m):
        if m is BOT:
            return BOT
        if m is SEMPTY:
            return ZERO
        if INSTANCE[0] and entries(m) is not None:
            return num(len(entries(m)))
        return mk("slen", m)
    return lift("slen", leaf, m)


REBUILD["slen"] = lambda m: slen(m)


def siter(m):
    def leaf(m):
        if m is BOT:
            return BOT
        if m is SEMPTY:
            return EMPTY
        if INSTANCE[0] and entries(m) is not None:
            return seq_of(*entries(m))
        if m.op == "sset" and m.args[0] is SEMPTY:
            ps = segs(m.args[1])
            if len(ps) == 1 and ps[0].op == "elem":
                return mkseq([ps[0]])
        s = gensym("ix")
        return mkseq([raw_comp(s, slen(m), seq_of(mk("skey", m, s)))])
    return lift("siter", leaf, m)


def shas(m, k):
    def leaf(m, k):
        if BOT in (m, k):
            return BOT
        if m is SEMPTY:
            return FALSE
        if k.op == "skey" and k.args[0] is m:
            return TRUE
        if m.op == "sset":
            ps = segs(m.args[1])
            if all(p.op == "elem" for p in ps):
                r = shas(m.args[0], k)
                for p in ps:
                    r = b_or(r, keq(p.args[0], k))
                return r
        return b_atom(mk("shas", m, k))
    return lift("shas", leaf, m, k)


REBUILD["shas"] = lambda m, k: shas(m, k)


def log_parts(t):
    """all ways to see t as (op, base, log)"""
    out = []
    if t.op in LOGOPS:
        out.append((t.op, t.args[0], t.args[1]))
    return out


_MKLOG = {"mapp": mkmapp, "scat": mkscat, "mset": mkmset, "macc": mkmacc, "sset": mksset}


def merge_logs(kind, var, labels, ch):
    ops = {c.op for c in ch if c.op in LOGOPS}
    if len(ops) != 1:
        return None
    op = next(iter(ops))
    bases = {}
    for c in ch:
        if c is BOT:
            continue
        b = c.args[0] if c.op == op else c
        bases[b] = 1
    if len(bases) != 1:
        return None
    base = next(iter(bases))
    logs = []
    for c in ch:
        if c is BOT:
            logs.append(BOT)
        elif c.op == op:
            lg = c.args[1]
            logs.append(lg)
        else:
            logs.append(EMPTY)
    lg = switch(kind, var, labels, tuple(logs))
    if lg.op == "sw":
        # keep as one log whose content is decided inside
        return mk("sw", kind, var, labels, tuple(ch))
    return _MKLOG[op](base, lg)


class Undefined(Exception):
    pass


def undefined(s, old, i):
    """may the element at i have been lost from the sequence?"""
    if s is old:
        return False
    if s.op == "sw":
        return any(undefined(c, old, i) for c in s.args[3])
    if s.op != "seq":
        return False
    n = seqlen(s)
    return not (is_const(i) and is_const(n) and 0 <= const_val(i) < const_val(n)) and \
        all(p.op in ("elem", "lit") for p in s.args)


def zero_counts(t, var):
    """Under var = 0, where var is a sum of counts (or: where no index has the
    property var): sums and sequences over the counted indices are empty."""
    if var.op == "any":
        cs = [var]
    elif var.op == "sum":
        cs = [var]
    elif var.op == "num" and all(c > 0 and len(m) == 1 and m[0][1] == 1 for m, c in var.args[0]):
        cs = [m[0][0] for m, c in var.args[0] if m[0][0].op == "sum"]
    else:
        return t
    cs = [c for c in cs if c.op == "any" or nonneg_num(c.args[3]) and nonneg_tree(c.args[2])]
    if not cs:
        return t
    memo = {}

    def dead(x):
        for c in cs:
            if x.args[1] is not c.args[1]:
                continue
            with opened(c, *c.args[2:]) as (s, *cb):
                g = cb[0] if c.op == "any" else cmp(mul(cb[0], cb[1]), ZERO, ">", True)
                k = mk("bv", x.args[0])
                if x.op == "sum":
                    b = mul(subst(x.args[2], {k_bv(x): s}), subst(x.args[3], {k_bv(x): s}))
                    if ite(g, ZERO, b) is ZERO:
                        return ZERO
                else:
                    b = subst(x.args[2], {k_bv(x): s})
                    if ite(g, EMPTY, b) is EMPTY:
                        return EMPTY
        return None

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        r = x
        if x.op == "idx" and undefined(go(x.args[0]), x.args[0], x.args[1]):
            raise Undefined()
        if x.op == "sum":
            r = dead(x) or x
        elif x.op == "seq":
            ps = [p for p in x.args if not (p.op == "comp" and dead(p) is EMPTY)]
            if len(ps) != len(x.args):
                r = mkseq(ps)
        if r is x:
            r = rebuild_with(x, go)
        memo[x.id] = r
        return r
    try:
        return go(t)
    except Undefined:
        return t


def k_bv(x):
    return mk("bv", x.args[0])


def nonneg_tree(t):
    if t.op == "sw":
        return all(nonneg_tree(c) for c in t.args[3])
    return nonneg_num(t)
