import time
"""Value terms: hash-consed normal forms for the dataflow (gated value
numbering) analysis.

* numbers are polynomials over atoms (reals / mathematical integers),
* decisions are ordered multi-valued decision diagrams ('sw' nodes),
* sequences are lists of optional elements and index comprehensions,
* binders are named by height, so alpha-equivalent terms are identical.

Nothing here explores paths or calls a solver: every operation rewrites terms
to a canonical form, and two program fragments are judged by comparing the
canonical forms of what they compute.
"""
import zlib
import math
from fractions import Fraction as Fr
import sys
sys.setrecursionlimit(100000)


class TooBig(Exception):
    pass


TM_DEADLINE = [1e18]


CUR_SRC = [None]          # span attached to newly created terms
LIMIT = [4_000_000]


class T:
    __slots__ = ("op", "args", "id", "k", "lk", "fv", "bvm", "dv", "src", "__weakref__")

    def __repr__(self):
        return show(self)


TABLE = {}
_EMPTY = frozenset()


def _crc(s):
    return zlib.crc32(s.encode())


def _mixh(h, x):
    return ((h * 1000003) ^ x) & 0xFFFFFFFFFFFFFFF


def _scan(args, acc):
    """acc = [k, lk(list), fv, bvm, dv]"""
    for a in args:
        if isinstance(a, T):
            acc[0] = _mixh(acc[0], a.k)
            if len(acc[1]) < 8:
                acc[1].extend(a.lk)
            acc[2] = acc[2] | a.fv if a.fv else acc[2]
            if a.bvm > acc[3]:
                acc[3] = a.bvm
            acc[4] = acc[4] | a.dv if a.dv else acc[4]
        elif isinstance(a, tuple):
            acc[0] = _mixh(acc[0], 77 + len(a))
            _scan(a, acc)
        elif isinstance(a, str):
            acc[0] = _mixh(acc[0], _crc(a))
        elif isinstance(a, bool):
            acc[0] = _mixh(acc[0], 3 if a else 5)
        elif isinstance(a, int):
            acc[0] = _mixh(acc[0], (a * 2654435761) & 0xFFFFFFFFFFF)
        elif isinstance(a, Fr):
            acc[0] = _mixh(acc[0], (a.numerator * 40503 + a.denominator * 31) & 0xFFFFFFFFFFF)
        elif a is None:
            acc[0] = _mixh(acc[0], 11)
        else:
            acc[0] = _mixh(acc[0], _crc(repr(type(a))))


BINDERS = {"comp": 1, "sum": 1, "any": 1, "first": 1, "prod": 1, "hred": 1, "fold": 1, "lam": 1}


def mk(op, *args):
    key = (op, args)
    t = TABLE.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.args = args
    t.id = len(TABLE)
    if t.id > LIMIT[0]:
        raise TooBig("term table")
    t.src = CUR_SRC[0]
    if op == "sym":
        # args: (name, uid, kind)   kind 'l' = local (loop index / carried value)
        if args[2] == "l":
            t.k = 424242
            t.lk = ((0, args[1]),)
            t.fv = frozenset((t,))
        else:
            t.k = _mixh(17, _crc(args[0]))
            t.lk = ()
            t.fv = _EMPTY
        t.bvm = 0
        t.dv = _EMPTY
    elif op == "bv":
        t.k = 424242
        t.lk = ((1, -args[0]),)
        t.fv = _EMPTY
        t.bvm = args[0]
        t.dv = _EMPTY
    else:
        acc = [_crc(op), [], _EMPTY, 0, _EMPTY]
        if op in BINDERS:
            # binder index args[0] is a local name: not part of k
            _scan(args[1:], acc)
            if args[0] > acc[3]:
                acc[3] = args[0]
        else:
            _scan(args, acc)
        t.k = acc[0]
        t.lk = tuple(acc[1][:8])
        t.fv = acc[2]
        t.bvm = acc[3]
        dv = acc[4]
        if op == "sw":
            dv = dv | frozenset((t.args[1].id,))
        t.dv = dv
    TABLE[key] = t
    return t


def okey(t):
    return (t.op != "any", t.k, t.lk, t.id)


# ---------------------------------------------------------------- symbols
_uid = [0]


def gensym(name="g"):
    _uid[0] += 1
    return mk("sym", name, _uid[0], "l")


def sym(name):
    return mk("sym", name, 0, "g")


def string(s):
    return mk("str", s)


TRUE = mk("true")
FALSE = mk("false")
UNIT = mk("tup")
ABSENT = mk("absent")
BOT = mk("bot")


def boolean(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- polynomials
def num(c):
    c = Fr(c)
    return mk("num", ((((), c),) if c != 0 else ()))


ZERO = num(0)
ONE = num(1)


def is_const(t):
    return t.op == "num" and (not t.args[0] or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))


def const_val(t):
    if not t.args[0]:
        return Fr(0)
    return t.args[0][0][1]


def P(t):
    if t.op == "num":
        return dict(t.args[0])
    t = as_number(t)
    if t.op == "num":
        return dict(t.args[0])
    return {((t, 1),): Fr(1)}


NUMCONV = []


def as_number(t):
    """Hook: constructor terms that stand for numbers (constant nodes)."""
    for f in NUMCONV:
        r = f(t)
        if r is not None:
            return r
    return t


def _mono_key(m):
    return (len(m), tuple((okey(a), p) for a, p in m))


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    try:
        d = merge_sums(d)
    except Exception as ex:
        if type(ex).__name__ != "NeedLift":
            raise
        return add(from_poly(ex.args[0]), ex.args[1])
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    return mk("num", tuple(items))


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = {}
    for x, p in a:
        r[x] = r.get(x, 0) + p
    for x, p in b:
        r[x] = r.get(x, 0) + p
    return tuple(sorted(((x, p) for x, p in r.items() if p != 0), key=lambda xp: okey(xp[0])))


def _poly_add(a, b):
    d = P(a)
    for m, c in P(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def _poly_mul(a, b):
    d = {}
    pa, pb = P(a), P(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def _leafnum(f):
    def g(*a):
        if BOT in a:
            return BOT
        return f(*a)
    return g


def add(a, b):
    if a.op != "sw" and b.op != "sw" and a is not BOT and b is not BOT:
        return _poly_add(a, b)
    return lift("add", _leafnum(_poly_add), a, b)


def mul(a, b):
    if a.op != "sw" and b.op != "sw" and a is not BOT and b is not BOT:
        return _poly_mul(a, b)
    return lift("mul", _leafnum(_poly_mul), a, b)


def scale(c, a):
    return mul(num(c), a)


def neg(a):
    return scale(-1, a)


def sub(a, b):
    return add(a, neg(b))


def _poly_inv(a):
    a = as_number(a)
    d = P(a)
    if len(d) == 1:
        (m, c), = d.items()
        return from_poly({tuple((x, -p) for x, p in m): 1 / c}) if c != 0 else mk("inv0")
    if not d:
        return mk("inv0")
    # normalise leading coefficient
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    lead = items[0][1]
    base = from_poly({m: c / lead for m, c in d.items()})
    return from_poly({((base, -1),): 1 / lead})


def inv(a):
    return lift("inv", _leafnum(_poly_inv), a)


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    r = ONE
    for _ in range(abs(n)):
        r = mul(r, a)
    return r if n >= 0 else inv(r)


# ---------------------------------------------------------------- decisions
def _cofs(t, kind, var, labels):
    """Cofactors of t for each part of the partition `labels` of var."""
    if t.op != "sw" or t.args[1] is not var or t.args[0] != kind:
        return None
    l2, ch = t.args[2], t.args[3]
    if kind in ("b", "v"):
        return ch
    if l2 == labels:
        return ch
    if kind == "e":
        m = dict(zip(l2, ch))
        return tuple(m.get(x, ch[-1]) for x in labels) + (ch[-1],)
    # numeric: labels superset of l2
    out = []
    j = 0
    out.append(ch[0])
    for x in labels:
        while j < len(l2) and l2[j] <= x:
            j += 1
        out.append(ch[j])
    return tuple(out)


_LIFT = {}
LIFTCOUNT = [0]


def lift(name, f, *ts):
    """Apply f to all leaf combinations of the decision diagrams ts."""
    if not any(t.op == "sw" for t in ts):
        return f(*ts)
    key = (name, tuple(t.id for t in ts))
    r = _LIFT.get(key)
    if r is not None:
        return r
    LIFTCOUNT[0] += 1
    if not LIFTCOUNT[0] & 255 and time.time() > TM_DEADLINE[0]:
        raise TooBig("time limit")
    if LIFTCOUNT[0] > 3_000_000:
        raise TooBig("lift")
    top = None
    for t in ts:
        if t.op == "sw":
            kk = okey(t.args[1])
            if top is None or kk < top[0]:
                top = (kk, t.args[0], t.args[1])
    _, kind, var = top
    labels = None
    labset = set()
    for t in ts:
        if t.op == "sw" and t.args[1] is var and t.args[0] == kind:
            if kind in ("b", "v"):
                labels = t.args[2]
            else:
                labset |= set(t.args[2])
    if labels is None and kind not in ("b", "v"):
        labels = tuple(sorted(labset))
    n = 2 if kind == "b" else len(labels) if kind == "v" else len(labels) + 1
    cof = []
    for t in ts:
        c = _cofs(t, kind, var, labels)
        cof.append(c if c is not None else (t,) * n)
    ch = tuple(lift(name, f, *[c[i] for c in cof]) for i in range(n))
    r = node(kind, var, labels, ch)
    _LIFT[key] = r
    return r


def decided(kind, var, labels):
    """Index of the branch taken if var is known, else None."""
    if kind == "b":
        if var is TRUE:
            return 0
        if var is FALSE:
            return 1
        return None
    if kind == "v":
        if var.op == "adt":
            return labels.index(var.args[1])
        if var.op == "opq" :
            return None
        return None
    if kind == "e":
        if var.op in ("str", "chr", "num"):
            if var.op == "num" and not is_const(var):
                return None
            for i, l in enumerate(labels):
                if ("str", var.args[0]) == l or ("chr", var.args[0]) == l:
                    return i
            return len(labels)
        return None
    if is_const(var):
        c = const_val(var)
        i = 0
        for l in labels:
            if l <= (c, 0):
                i += 1
        return i
    return None


def switch(kind, var, labels, children):
    """General decision: children may themselves test earlier variables, and
    var may be a decision diagram."""
    if var.op == "sw":
        def pick(v, *cs):
            return switch(kind, v, labels, cs)
        # var's own leaves become the tested values
        return lift(("swv", kind, labels), pick, var, *children)
    if var is BOT:
        # a part the value does not have: only asked about where the case test
        # below it says otherwise
        live = [c for c in children if c is not BOT]
        return live[0] if live and all(c is live[0] for c in live) else BOT
    i = decided(kind, var, labels)
    if i is not None:
        return children[i]
    if kind in ("n", "ni") and var.op == "num":
        # renormalise the tested polynomial (substitution may have changed it)
        kind2, q, s, off = normq(var, kind == "ni")
        if q is None:
            raise AssertionError
        if q is not var:
            # var = s*q + off  (s > 0 or < 0)
            return _renorm_num(kind, q, s, off, labels, children)
    sel = mk("sw", kind, var, labels, tuple(mk("sel", i) for i in range(len(children))))

    def pick(s, *cs):
        return cs[s.args[0]]
    return lift(("sel", len(children)), pick, sel, *children)


def _renorm_num(kind, q, s, off, labels, children):
    pos = []
    for (c, h) in labels:
        pos.append(((c - off) / s, h))
    ch = list(children)
    if s < 0:
        # intervals reverse; boundary (c,0)= "from c inclusive" becomes (c,1) "after c"
        pos = [(c, 1 - h) for (c, h) in reversed(pos)]
        ch = list(reversed(ch))
    if kind == "ni":
        pos = [_intcut(p) for p in pos]
        # no index, count or number read is that large
        lo = sum(1 for p in pos if p[0] <= -HUGE)
        hi = sum(1 for p in pos if p[0] >= HUGE)
        pos, ch = pos[lo:len(pos) - hi], ch[lo:len(ch) - hi]
        if not pos:
            return ch[0]
    # drop duplicate cuts (empty parts)
    np_, nc = [], [ch[0]]
    for p, c in zip(pos, ch[1:]):
        if np_ and np_[-1] == p:
            nc[-1] = c
        else:
            np_.append(p)
            nc.append(c)
    return switch(kind, q, tuple(np_), tuple(nc))


def _intcut(p):
    c, h = p
    if h == 0:
        return (Fr(math.ceil(c)), 0)
    return (Fr(math.floor(c)) + 1, 0)


def normq(p, isint):
    """p = s*q + off with q homogeneous and normalised."""
    d = P(p)
    off = d.pop((), Fr(0))
    items = sorted(d.items(), key=lambda mc: _mono_key(mc[0]))
    if not items:
        return None, None, None, off
    lead = items[0][1]
    if isint:
        g = Fr(0)
        for _, c in items:
            g = Fr(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator),
                   g.denominator * c.denominator) if g else abs(c)
        s = g if lead > 0 else -g
    else:
        s = lead
    q = from_poly({m: c / s for m, c in d.items()})
    return ("ni" if isint else "n"), q, s, off


NONNEG = set()
UNSIGNED = {}    # field name -> "int" | "seq" | "tup": what every field of that name holds
USEQ = set()     # symbols that stand for a sequence of unsigned integers


def unsigned(t, shape):
    if t.op == "fld":
        if UNSIGNED.get(t.args[1]) == shape:
            return True
        return shape == "int" and t.args[0].op == "fld" and UNSIGNED.get(t.args[0].args[1]) == "tup"
    if shape == "seq":
        return t in USEQ
    return t.op == "idx" and unsigned(t.args[0], "seq")


def nonneg(t):
    if t.op in ("len", "mlen", "bv"):
        return True
    if t.op == "sym" and t.args[0].startswith("ix"):
        return True
    if t.op == "sum":
        return nonneg_num(t.args[3])
    if t in NONNEG:
        return True
    if t.op in ("fld", "idx"):
        return unsigned(t, "int")
    return False


def nonneg_num(t):
    if is_const(t):
        return const_val(t) >= 0
    if t.op == "num":
        return all(c >= 0 and all(nonneg(a) and p > 0 for a, p in m) for m, c in t.args[0])
    return nonneg(t)


LOWER = []


def lower_bound(v):
    for f in LOWER:
        r = f(v)
        if r is not None:
            return r
    if nonneg_num(v):
        return Fr(0)
    return None


def node(kind, var, labels, ch):
    """Canonical decision node; children must not test variables <= var at top."""
    # reduce numeric / eq labels
    if kind in ("n", "ni"):
        lowb = lower_bound(var)
        if lowb is not None and any(l <= (lowb, 0) for l in labels):
            keep = [i for i, l in enumerate(labels) if l > (lowb, 0)]
            drop = len(labels) - len(keep)
            labels = tuple(labels[i] for i in keep)
            ch = ch[drop:]
        if kind == "ni" and VARRULES:
            for f in VARRULES:
                r = f(var, labels, ch)
                if r is not None:
                    return r
        if kind == "ni":
            # cuts are integers
            nl, nc = [], [ch[0]]
            for l, c in zip(labels, ch[1:]):
                l = _intcut(l)
                if nl and nl[-1] == l:
                    nc[-1] = c
                else:
                    nl.append(l)
                    nc.append(c)
            labels, ch = tuple(nl), tuple(nc)
    # don't-care
    if BOT in ch:
        if kind in ("n", "ni"):
            lst = [restrict(c, kind, var, (labels[i - 1] if i > 0 else None, labels[i] if i < len(labels) else None))
                   for i, c in enumerate(ch)]
            # replace BOT by a neighbour
            for i in range(1, len(lst)):
                if lst[i] is BOT:
                    lst[i] = lst[i - 1]
            for i in range(len(lst) - 2, -1, -1):
                if lst[i] is BOT:
                    lst[i] = lst[i + 1]
            ch = tuple(lst)
        elif kind == "e":
            d = next((c for c in ch if c is not BOT), BOT)
            dd = ch[-1] if ch[-1] is not BOT else d
            ch = tuple(c if c is not BOT else dd for c in ch)
        else:
            ls = (True, False) if kind == "b" else labels
            ch = tuple(restrict(c, kind, var, l) for c, l in zip(ch, ls))
            live = [c for c in ch if c is not BOT]
            if not live:
                return BOT
            if all(c is live[0] for c in live):
                return live[0]
    if all(c is ch[0] for c in ch):
        return ch[0]
    if (kind, var) in FACTS:
        r = by_fact(kind, var, labels, ch)
        if r is not None:
            return r
    # restrict children deeply
    if kind in ("n", "ni"):
        lab0 = labels
        nch = []
        for i, c in enumerate(ch):
            lo = labels[i - 1] if i > 0 else None
            hi = labels[i] if i < len(labels) else None
            c = restrict(c, kind, var, (lo, hi))
            pt = point_of(kind, var, lo, hi)
            if pt is not None and c.op not in ("sel",):
                c = subst_atom(c, var, num(pt))
            nch.append(c)
        ch = tuple(nch)
        # merge equal neighbours, and points that the neighbour already covers
        ch, labels = _merge_num(kind, var, labels, ch)
        if not labels:
            return ch[0]
    elif kind == "e":
        nch = [restrict(c, kind, var, l) for c, l in zip(ch, labels)] + [restrict(ch[-1], kind, var, ("default", labels))]
        keep = [i for i in range(len(labels)) if nch[i] is not nch[-1]]
        labels = tuple(labels[i] for i in keep)
        ch = tuple(nch[i] for i in keep) + (nch[-1],)
        if not labels:
            return ch[0]
    else:
        ls = (True, False) if kind == "b" else labels
        ch = tuple(restrict(c, kind, var, l) for c, l in zip(ch, ls))
        if kind == "b" and var.op == "any" and ch[0].op not in ("sel", "true", "false") and ch[1].op != "sel":
            import seqs
            z = seqs.zero_counts(ch[0], var)
            if z is ch[1] or z is not ch[0] and z is seqs.zero_counts(ch[1], var):
                return ch[0]
    if all(c is ch[0] for c in ch):
        return ch[0]
    # substitution may have changed what a child tests: restore the order
    kv = okey(var)
    if any(c.op == "sw" and okey(c.args[1]) <= kv for c in ch):
        REORDER[0] += 1
        if REORDER[0] < 60:
            try:
                sel = mk("sw", kind, var, labels, tuple(mk("sel", i) for i in range(len(ch))))
                return lift(("sel", len(ch)), lambda s, *cs: cs[s.args[0]], sel, *ch)
            finally:
                REORDER[0] -= 1
        REORDER[0] -= 1
    if kind == "b" and var.op == "shas" and ch[1].op == "sset":
        # inserting what is there already
        import seqs
        if (ch[0] is var.args[0] or ch[0].op == "sset" and ch[0].args[0] is var.args[0]) and \
           seqs.mksset(ch[0], seqs.seq_of(var.args[1])) is ch[1]:
            return ch[1]
    # eta for variants
    if kind == "v":
        ok = True
        for l, c in zip(labels, ch):
            if c is var or c is BOT:
                continue
            if c.op == "adt" and c.args[1] == l and c.args[0] == VARINFO.get(var, c.args[0]) and \
               all(x is vfield(var, l, fn) for fn, x in zip(c.args[2], c.args[3])):
                continue
            ok = False
            break
        if ok:
            return var
    # push into products
    c0 = next((c for c in ch if c.op == "adt"), None)
    if c0 is not None and all(c.op == "adt" and c.args[0] == c0.args[0] and c.args[1] == c0.args[1] for c in ch):
        fs = tuple(switch(kind, var, labels, tuple(c.args[3][i] for c in ch)) for i in range(len(c0.args[2])))
        return adt(c0.args[0], c0.args[1], c0.args[2], fs)
    if c0 is not None and c0.args[0] in STRUCTS and all(c.op == "adt" or c.op not in ("sw", "sel", "absent") for c in ch):
        ee = [c if c.op == "adt" else adt(c0.args[0], c0.args[1], c0.args[2],
                                          tuple(field(c, fn) for fn in c0.args[2]), noeta=True) for c in ch]
        if all(e.args[1] == c0.args[1] for e in ee):
            fs = tuple(switch(kind, var, labels, tuple(c.args[3][i] for c in ee)) for i in range(len(c0.args[2])))
            return adt(c0.args[0], c0.args[1], c0.args[2], fs)
    t0 = next((c for c in ch if c.op == "tup"), None)
    if t0 is not None and all(c.op == "tup" and len(c.args) == len(t0.args) for c in ch):
        return mk("tup", *[switch(kind, var, labels, tuple(c.args[i] for c in ch)) for i in range(len(t0.args))])
    if any(c.op == "seq" for c in ch) and all(c.op not in ("sel", "absent", "true", "false") for c in ch):
        import seqs
        return seqs.merge_switch(kind, var, labels, ch)
    if any(c.op in LOGOPS for c in ch) and all(c.op not in ("sel", "absent", "true", "false") for c in ch):
        import seqs
        r = seqs.merge_logs(kind, var, labels, ch)
        if r is not None:
            return r
    return mk("sw", kind, var, labels, ch)


VARRULES = []
FACTS = {}               # (kind, var) -> [(premise variable, condition known under it)]
FACTING = set()


def _never(t, kind, var, part):
    """t is false wherever the decision takes this part (read off the diagram)"""
    if t is FALSE:
        return True
    if t.op != "sw":
        return False
    ch = t.args[3]
    if t.args[0] == kind and t.args[1] is var:
        if kind == "b":
            ch = (ch[0 if part else 1],)
        elif kind == "v":
            ch = (ch[t.args[2].index(part)],)
        elif kind == "e":
            if isinstance(part, tuple) and part and part[0] == "default":
                ch = [c for l, c in zip(t.args[2], ch) if l not in part[1]] + [ch[-1]]
            else:
                ch = (dict(zip(t.args[2], ch)).get(part, ch[-1]),)
        else:
            lo, hi = part
            ls = t.args[2]
            ch = [c for i, c in enumerate(ch)
                  if not (lo is not None and i < len(ls) and ls[i] <= lo) and not (hi is not None and i > 0 and ls[i - 1] >= hi)]
    return all(_never(c, kind, var, part) for c in ch)


def by_fact(kind, var, labels, ch):
    """parts of a decision that contradict what the premise implies"""
    if (kind, var) in FACTING:
        return None
    for prem, c in FACTS[(kind, var)]:
        if okey(prem) >= okey(var):
            continue
        if kind in ("n", "ni"):
            parts = [(labels[i - 1] if i else None, labels[i] if i < len(labels) else None) for i in range(len(ch))]
        elif kind == "e":
            parts = list(labels) + [("default", labels)]
        elif kind == "b":
            parts = [True, False]
        else:
            parts = list(labels)
        no = [_never(c, kind, var, p) for p in parts]
        if not any(no) or all(no):
            continue
        FACTING.add((kind, var))
        try:
            T = node(kind, var, labels, tuple(BOT if x else y for x, y in zip(no, ch)))
            E = node(kind, var, labels, ch)
        finally:
            FACTING.discard((kind, var))
        if T is E:
            continue
        return node("b", prem, (True, False), (restrict(T, "b", prem, True), restrict(E, "b", prem, False)))
    return None


REORDER = [0]
LOGOPS = ("scat", "mset", "macc", "sset", "mapp")
VARINFO = {}
STRUCTS = set()


def point_of(kind, var, lo, hi):
    """If the part (lo,hi) of var is the single value c and var is solvable: c."""
    if lo is None:
        if hi is not None and kind == "ni" and hi == (Fr(1), 0) and nonneg_num(var):
            return Fr(0)
        return None
    if hi is None:
        return None
    if lo[1] == 0 and hi == (lo[0], 1):
        return lo[0]
    if kind == "ni" and hi == (lo[0] + 1, 0) and lo[1] == 0:
        return lo[0]
    return None


def subst_atom(t, var, val):
    if var.op == "num":
        return t
    if var.op in ("sym",) and var.args[2] == "l" and False:
        return t
    return subst(t, {var: val})


def eq_at(b, a, kind, var, p, solvable):
    """b with var = p is a"""
    if a.op == "sel" or b.op == "sel":
        return False
    if solvable and subst(b, {var: num(p)}) is a:
        return True
    if p == 0 and kind == "ni":
        import seqs
        z = seqs.zero_counts(b, var)
        za = seqs.zero_counts(a, var)
        if z is not b or za is not a:
            if z is a or z is za or (solvable and subst(z, {var: ZERO}) is subst(za, {var: ZERO})):
                return True
    if not solvable and kind == "n" and num_tree(a) and num_tree(b):
        d = sub(b, a)
        x = P(sub(var, num(p)))
        m = next(iter(x))
        return all_leaves(d, lambda v: v is ZERO or (m in P(v) and from_poly({k: c * P(v)[m] / x[m] for k, c in x.items()}) is v))
    return False


def num_tree(t):
    if t.op == "sw":
        return all(num_tree(c) for c in t.args[3])
    return numeric_leaf(t)


def all_leaves(t, f):
    if t.op == "sw":
        kind, var, labels, ch = t.args
        for i, c in enumerate(ch):
            if kind == "ni" and i < len(labels):
                lo = labels[i - 1] if i > 0 else None
                if point_of(kind, var, lo, labels[i]) == 0:
                    import seqs
                    c = seqs.zero_counts(c, var)
            if not all_leaves(c, f):
                return False
        return True
    return f(t)


def _merge_num(kind, var, labels, ch):
    ch = list(ch)
    labels = list(labels)
    solvable = var.op != "num"
    changed = True
    while changed:
        changed = False
        for i in range(len(labels)):
            a, b = ch[i], ch[i + 1]
            if a is b:
                del labels[i]
                del ch[i + 1]
                changed = True
                break
            lo = labels[i - 1] if i > 0 else None
            p = point_of(kind, var, lo, labels[i])
            if p is not None and eq_at(b, a, kind, var, p, solvable):
                ch[i] = b
                changed = True
                break
            hi = labels[i + 1] if i + 1 < len(labels) else None
            p = point_of(kind, var, labels[i], hi)
            if p is not None and eq_at(a, b, kind, var, p, solvable):
                ch[i + 1] = a
                changed = True
                break
    # continuous at the cut: canonical cut position (c,0)
    if kind == "n":
        for i in range(len(labels)):
            if labels[i][1] == 1 and (i == 0 or labels[i - 1] != (labels[i][0], 0)):
                a, b = ch[i], ch[i + 1]
                if numeric_leaf(a) and numeric_leaf(b):
                    dlt = sub(b, a)
                    x = sub(var, num(labels[i][0]))
                    dd, dx = P(dlt), P(x)
                    m = next(iter(dx))
                    if m in dd and from_poly({k: v * dx[m] / dd[m] for k, v in dd.items()}) is x:
                        labels[i] = (labels[i][0], 0)
    else:
        # integers: equal at the last point before the cut, which joins the right
        for i in range(len(labels)):
            p = labels[i][0] - 1
            a, b = ch[i], ch[i + 1]
            if (i == 0 or labels[i - 1] < (p, 0)) and numeric_leaf(a) and numeric_leaf(b):
                dd, dx = P(sub(b, a)), P(sub(var, num(p)))
                m = next(iter(dx))
                if len(dd) == len(dx) and m in dd and all(k in dd and dd[k] * dx[m] == dx[k] * dd[m] for k in dx):
                    labels[i] = (p, 0)
    return tuple(ch), tuple(labels)


def numeric_leaf(t):
    return t.op not in ("sw", "adt", "tup", "seq", "true", "false", "absent", "bot", "str", "chr", "sel",
                        "clo", "mref", "scat", "mset", "macc", "sset", "mapp")


_RES = {}


def restrict(t, kind, var, part):
    if var.id not in t.dv:
        return t
    key = (t.id, kind, var.id, part)
    r = _RES.get(key)
    if r is not None:
        return r
    if t.op == "sw" and t.args[1] is var and t.args[0] == kind:
        labels, ch = t.args[2], t.args[3]
        if kind == "b":
            r = ch[0 if part else 1]
        elif kind == "v":
            r = ch[labels.index(part)]
        elif kind == "e":
            if isinstance(part, tuple) and part and part[0] == "default":
                keep = [i for i in range(len(labels)) if labels[i] not in part[1]]
                nl = tuple(labels[i] for i in keep)
                nc = tuple(ch[i] for i in keep) + (ch[-1],)
                r = nc[0] if not nl else mk("sw", kind, var, nl, nc)
            else:
                r = dict(zip(labels, ch)).get(part, ch[-1])
        else:
            lo, hi = part
            keepl, keepc = [], []
            # parts of t overlapping [lo,hi)
            for i, c in enumerate(ch):
                plo = labels[i - 1] if i > 0 else None
                phi = labels[i] if i < len(labels) else None
                if lo is not None and phi is not None and phi <= lo:
                    continue
                if hi is not None and plo is not None and plo >= hi:
                    continue
                if keepc:
                    keepl.append(plo)
                keepc.append(c)
            # a single point left over at an edge that the part beside it covers
            if len(keepc) > 1 and hi is not None:
                c = point_of(kind, var, keepl[-1], hi)
                if c is not None and eq_at(keepc[-2], subst(keepc[-1], {var: num(c)}) if var.op != "num" else keepc[-1], kind, var, c, var.op != "num"):
                    keepl.pop()
                    keepc.pop()
            if len(keepc) > 1 and lo is not None:
                c = point_of(kind, var, lo, keepl[0])
                if c is not None and eq_at(keepc[1], subst(keepc[0], {var: num(c)}) if var.op != "num" else keepc[0], kind, var, c, var.op != "num"):
                    keepl.pop(0)
                    keepc.pop(0)
            r = keepc[0] if len(keepc) == 1 else node(kind, var, tuple(keepl), tuple(keepc))
        r = restrict(r, kind, var, part) if r is not t else r
    else:
        r = rebuild_with(t, lambda a: restrict(a, kind, var, part))
    _RES[key] = r
    return r


# boolean connectives
def b_atom(t):
    return lift("batom", lambda x: x if x in (TRUE, FALSE, BOT, ABSENT) else node("b", x, (True, False), (TRUE, FALSE)), t)


def b_not(a):
    return lift("not", lambda x: FALSE if x is TRUE else TRUE if x is FALSE else x if x is BOT else node("b", x, (True, False), (FALSE, TRUE)), a)


def b_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    a, b = b_atom(a), b_atom(b)
    return lift("and", lambda x, y: FALSE if FALSE in (x, y) else y if x is TRUE else x, a, b)


def b_or(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    a, b = b_atom(a), b_atom(b)
    return lift("or", lambda x, y: TRUE if TRUE in (x, y) else y if x is FALSE else x, a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    c = b_atom(c)
    n = map_leaves(c, {TRUE: 0, FALSE: 1})
    return _ite_sel(n, a, b)


def _ite_sel(c, a, b):
    def pick(s, x, y):
        if s is BOT:
            return BOT
        return x if s is TRUE else y
    return lift("ite", pick, c, a, b)


def map_leaves(c, m):
    return c


HUGE = 2 ** 62


def cmp0(p, op, isint):
    """condition  p op 0  for op in < <= > >= == != """
    def leaf(p):
        if p is BOT:
            return BOT
        p = as_number(p)
        if is_const(p):
            c = const_val(p)
            return boolean({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op])
        kind, q, s, off = normq(p, isint)
        c = -off / s
        o = op
        if s < 0:
            o = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
        if isint and abs(c) >= HUGE:
            # no index, count or number read is that large
            return boolean(o in (("<", "<=", "!=") if c > 0 else (">", ">=", "!=")))
        if o == "<":
            return _numnode(kind, q, ((c, 0),), (TRUE, FALSE))
        if o == "<=":
            return _numnode(kind, q, ((c, 1),), (TRUE, FALSE))
        if o == ">":
            return _numnode(kind, q, ((c, 1),), (FALSE, TRUE))
        if o == ">=":
            return _numnode(kind, q, ((c, 0),), (FALSE, TRUE))
        if o == "==":
            return _numnode(kind, q, ((c, 0), (c, 1)), (FALSE, TRUE, FALSE))
        return _numnode(kind, q, ((c, 0), (c, 1)), (TRUE, FALSE, TRUE))
    return lift(("cmp", op, isint), leaf, p)


def _numnode(kind, q, labels, ch):
    if kind == "ni":
        labs = [_intcut(l) for l in labels]
        nl, nc = [], [ch[0]]
        for l, c in zip(labs, ch[1:]):
            if nl and nl[-1] == l:
                nc[-1] = c
            else:
                nl.append(l)
                nc.append(c)
        labels, ch = tuple(nl), tuple(nc)
    return node(kind, q, labels, ch)


def cmp(a, b, op, isint):
    return cmp0(sub(a, b), op, isint)


def variant_is(x, path, name, allv):
    def leaf(v):
        if v is BOT:
            return BOT
        if v.op == "adt":
            return boolean(v.args[1] == name)
        VARINFO.setdefault(v, path)
        return node("v", v, tuple(allv), tuple(TRUE if n == name else FALSE for n in allv))
    return lift(("is", path, name), leaf, x)


EMPTYTEXT = []


def eq_const(x, c):
    """x == c with c a str/chr term."""
    def leaf(v):
        if v is BOT:
            return BOT
        if v.op in ("str", "chr"):
            return boolean(v is c)
        if c.op == "str" and not c.args[0] and EMPTYTEXT:
            return EMPTYTEXT[0](v)
        return node("e", v, ((c.op, c.args[0]),), (TRUE, FALSE))
    return lift(("eqc", c.id), leaf, x)


# Small instances are looked at in a process of their own (see seqs.py)
INSTANCE = [False]
_ground = {}


def ground(t):
    """a value without unknowns"""
    if not isinstance(t, T):
        return not isinstance(t, tuple) or all(ground(x) for x in t)
    r = _ground.get(t.id)
    if r is None:
        r = _ground[t.id] = t.op in ("adt", "tup", "seq", "elem", "str", "chr", "num", "lit", "true", "false", "sempty", "mempty", "mset", "sset") and all(ground(x) for x in t.args)
    return r


def eq(a, b):
    def leaf(x, y):
        if BOT in (x, y):
            return BOT
        if x is y:
            return TRUE
        if x.op in ("str", "chr") and y.op in ("str", "chr"):
            return boolean(x is y)
        if x.op == "addr" and y.op == "addr":
            # equal addresses: one object
            x, y = x.args[0], y.args[0]
            if x is y:
                return TRUE
            if okey(x) > okey(y):
                x, y = y, x
            return b_atom(mk("ptr_eq", x, y))
        if x.op in ("str", "chr"):
            return eq_const(y, x)
        if y.op in ("str", "chr"):
            return eq_const(x, y)
        if x.op == "adt" and y.op == "adt" and x.args[1] != y.args[1]:
            return FALSE
        if INSTANCE[0] and ground(x) and ground(y):
            return FALSE
        if okey(x) > okey(y):
            x, y = y, x
        return b_atom(mk("eq", x, y))
    return lift("eq", leaf, a, b)


# ---------------------------------------------------------------- structures
def adt(path, variant, names, vals, noeta=False):
    names = tuple(names)
    vals = tuple(vals)
    if not noeta and vals and path in STRUCTS:
        v0 = vals[0]
        if v0.op == "fld" and v0.args[1] == names[0]:
            x = v0.args[0]
            if all(field(x, n) is v for n, v in zip(names, vals)) and x.op not in ("adt",):
                return x
    if not noeta and vals and vals[0].op == "vf" and vals[0].args[1] == variant:
        # the case itself put together again from its parts
        x = vals[0].args[0]
        if VARINFO.get(x) == path and all(v.op == "vf" and v.args == (x, variant, n) for n, v in zip(names, vals)):
            return x
    return mk("adt", path, variant, names, vals)


def field(x, name):
    def leaf(v):
        if v is BOT:
            return BOT
        if v.op == "adt":
            try:
                return v.args[3][v.args[2].index(name)]
            except ValueError:
                return BOT
        if v.op == "tup":
            return v.args[int(name)]
        return mk("fld", v, name)
    return lift(("fld", name), leaf, x)


def vfield(x, variant, name):
    def leaf(v):
        if v is BOT:
            return BOT
        if v.op == "adt":
            if v.args[1] != variant:
                return BOT
            return v.args[3][v.args[2].index(name)]
        if v.op == "setv" and v.args[1] == variant:
            return v.args[3] if v.args[2] == name else vfield(v.args[0], variant, name)
        return mk("vf", v, variant, name)
    return lift(("vf", variant, name), leaf, x)


def setv(x, variant, name, y):
    """x, known to be of the variant, with one field replaced"""
    def leaf(x, y):
        if BOT in (x, y):
            return BOT
        if y is mk("vf", x, variant, name):
            return x
        return mk("setv", x, variant, name, y)
    return lift(("setv", variant, name), leaf, x, y)


def tup(*a):
    return mk("tup", *a)


SOME, NONE = "Some", "None"
OPT = "core::option::Option"
RES = "core::result::Result"
OPTV = ("None", "Some")
RESV = ("Ok", "Err")


def some(x):
    return mk("adt", OPT, "Some", ("0",), (x,))


NONET = mk("adt", OPT, "None", (), ())


def ok(x):
    return mk("adt", RES, "Ok", ("0",), (x,))


ERRV = mk("errv")


def err(x=None):
    return mk("adt", RES, "Err", ("0",), (ERRV,))


ERRT = err()


# ---------------------------------------------------------------- binders
def bind(s, *bodies):
    """Close bodies over the local symbol s: returns (k, closed bodies)."""
    k = 1 + max([b.bvm for b in bodies] or [0])
    bvk = mk("bv", k)
    return k, tuple(subst(b, {s: bvk}) for b in bodies)


_DEPTH = [0]


def openb(k, *bodies):
    """Open binder k with a fresh symbol."""
    s = gensym("ix")
    bvk = mk("bv", k)
    return s, tuple(subst(b, {bvk: s}) for b in bodies)


def inst(k, body, val):
    return subst(body, {mk("bv", k): val})


def occurs(t, x):
    if x.op == "sym" and x.args[2] == "l":
        return x in t.fv
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        _push_children(y.args, st)
    return False


def _push_children(args, st):
    for a in args:
        if isinstance(a, T):
            st.append(a)
        elif isinstance(a, tuple):
            _push_children(a, st)


def subst(t, m):
    """Replace terms (symbols, bound variables or atoms) and renormalise."""
    if not m:
        return t
    memo = {}
    onlylocal = all(k.op == "sym" and k.args[2] == "l" for k in m)
    keys = frozenset(m)
    bvs = [k.args[0] for k in m if k.op == "bv"]
    minbv = min(bvs) if bvs and len(bvs) == len(m) else None

    def go(x):
        if x in m:
            return m[x]
        if onlylocal and not (x.fv & keys):
            return x
        if minbv is not None and x.bvm < minbv:
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        r = rebuild_with(x, go)
        memo[x.id] = r
        return r
    return go(t)


def _maptuple(a, f):
    return tuple(f(x) if isinstance(x, T) else _maptuple(x, f) if isinstance(x, tuple) else x for x in a)


REBUILD = {}


def rebuild_with(t, f):
    """Rebuild t with f applied to its immediate subterms."""
    op = t.op
    if op in ("sym", "bv", "str", "true", "false", "absent", "bot", "chr", "errv", "sel"):
        return t
    if op in BINDERS:
        return rebuild_binder(t, f)
    if op == "num":
        ch = False
        new = []
        for m, c in t.args[0]:
            nm = []
            for a, p in m:
                b = f(a)
                if b is not a:
                    ch = True
                nm.append((b, p))
            new.append((nm, c))
        if not ch:
            return t
        r = ZERO
        for nm, c in new:
            x = num(c)
            for b, p in nm:
                x = mul(x, powi(b, p))
            r = add(r, x)
        return r
    na = _maptuple(t.args, f)
    if na == t.args:
        return t
    return rebuild(op, na, t)


def rebuild(op, na, t=None):
    if op == "sw":
        return switch(na[0], na[1], na[2], na[3])
    if op == "adt":
        return adt(*na)
    if op == "fld":
        return field(*na)
    if op == "vf":
        return vfield(*na)
    if op == "eq":
        return eq(*na)
    r = REBUILD.get(op)
    if r is not None:
        return r(*na)
    if op in ("tup", "elem", "clo", "mref"):
        return mk(op, *na)
    # opaque application: lift over decisions in term arguments
    return app(op, *na)


def app(op, *args):
    """Opaque operator application, lifted over decision diagrams."""
    ix = [i for i, a in enumerate(args) if isinstance(a, T) and a.op == "sw"]
    if not ix:
        return mk(op, *args)
    fixed = tuple(None if i in ix else (a.id if isinstance(a, T) else a) for i, a in enumerate(args))

    def f(*vs):
        if BOT in vs:
            return BOT
        a2 = list(args)
        for i, v in zip(ix, vs):
            a2[i] = v
        return rebuild(op, tuple(a2)) if op in REBUILD else mk(op, *a2)
    return lift(("app", op, fixed), f, *[args[i] for i in ix])


def rebuild_binder(t, f):
    """Open, apply f to parts, close again through the smart constructor."""
    op = t.op
    import seqs
    return seqs.rebuild_binder(t, f)


def merge_sums(d):
    import seqs
    return seqs.merge_sums(d)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    op, a = t.op, t.args
    if op == "sym":
        return a[0] + (str(a[1]) if a[1] else "")
    if op == "bv":
        return "b%d" % a[0]
    if op in ("str", "chr"):
        return repr(a[0])
    if op in ("true", "false", "absent", "bot", "errv"):
        return op
    if op == "num":
        if not a[0]:
            return "0"
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, depth - 1) + ("^%d" % p if p != 1 else "") for x, p in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append("%s*%s" % (c, s))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if op == "sw":
        kind, var, labels, ch = a
        v = show(var, depth - 1)
        if kind == "b":
            return "if(%s ? %s : %s)" % (v, show(ch[0], depth - 1), show(ch[1], depth - 1))
        if kind == "v":
            groups = {}
            for l, c in zip(labels, ch):
                groups.setdefault(c, []).append(l)
            return "match(%s){%s}" % (v, "; ".join("%s=>%s" % ("|".join(ls), show(c, depth - 1)) for c, ls in groups.items()))
        if kind == "e":
            return "switch(%s){%s; _=>%s}" % (v, "; ".join("%s=>%s" % (l[1], show(c, depth - 1)) for l, c in zip(labels, ch)), show(ch[-1], depth - 1))
        out = [show(ch[0], depth - 1)]
        for l, c in zip(labels, ch[1:]):
            out.append(("<%s: " if l[1] == 0 else "<=%s: ") % l[0])
            out.append(show(c, depth - 1))
        return "step(%s){%s}" % (v, " ".join(out))
    if op == "adt":
        return "%s{%s}" % (a[0].split("::")[-1] + ("::" + a[1] if a[1] != a[0].split("::")[-1] else ""),
                           ", ".join("%s:%s" % (n, show(v, depth - 1)) for n, v in zip(a[2], a[3])))
    if op == "tup":
        return "(" + ", ".join(show(x, depth - 1) for x in a) + ")"
    if op == "fld":
        return show(a[0], depth) + "." + a[1]
    if op == "vf":
        return "%s.%s%s" % (show(a[0], depth), a[1], "" if a[2] == "0" else "." + a[2])
    if op == "call":
        return a[0].split("::")[-1] + "(" + ", ".join(show(x, depth - 1) for x in a[1:]) + ")"
    if op in BINDERS:
        return "%s[b%d](%s)" % (op, a[0], ", ".join(show(x, depth - 1) for x in a[1:]))
    if op == "seq":
        txt = chars(t)
        if txt is not None:
            return repr(txt)
        return "[" + "; ".join(show(x, depth - 1) for x in a) + "]"
    if op == "elem":
        return show(a[0], depth)
    return op + "(" + ", ".join(show(x, depth - 1) for x in a) + ")"


def chars(t):
    s = ""
    for e in t.args:
        if e.op == "elem" and e.args[0].op == "chr":
            s += e.args[0].args[0]
        else:
            return None
    return s or None
