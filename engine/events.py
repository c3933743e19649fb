"""Event sequences: effects of a function on files, processes and foreign
code, enumerated per combination of the decisions they depend on."""
from terms import *
from seqs import *
import seqs as SQ


RES = "core::result::Result"


class TooMany(Exception):
    pass


def top_sw(ts):
    """a decision one of the terms starts with, or one inside an event"""
    for t in ts:
        if t.op == "sw":
            return t
    for t in ts:
        if t.op == "seq":
            for p in t.args:
                if p.op == "elem" and p.args[0].op == "sw":
                    return p.args[0]
    return None


def parts(sw):
    kind, var, labels, ch = sw.args
    if kind == "b":
        return [(kind, True), (kind, False)]
    return [(kind, l) for l in split_labels(kind, labels, len(ch))]


def split_labels(kind, labels, n):
    if kind == "v":
        return list(labels)
    if kind == "e":
        return list(labels) + [("default", tuple(labels))] * (n - len(labels))
    out = []
    for i in range(n):
        out.append((labels[i - 1] if i > 0 else None, labels[i] if i < len(labels) else None))
    return out


def paths(ts, known=(), limit=20000):
    """All combinations of decisions with the values the terms have there:
    yields (facts, terms); facts = ((kind, var, part), ...)."""
    count = [0]

    def go(ts, facts):
        d = top_sw(ts)
        if d is None and ts and ts[0].op == "call" and (VARINFO.get(ts[0]) == RES or ts[0].args[0].endswith("_file")):
            # the result of an operation handed on as it is
            had = [f[2] for f in facts if f[0] == "v" and f[1] is ts[0]]
            for part, t in (("Ok", mk("adt", RES, "Ok", ("0",), (vfield(ts[0], "Ok", "0"),))), ("Err", err())):
                if had and (had[-1] != part if isinstance(had[-1], str) else False):
                    continue
                yield from go([t] + [restrict(x, "v", ts[0], part) for x in ts[1:]], facts if had else facts + (("v", ts[0], part),))
            return
        if d is None:
            count[0] += 1
            if count[0] > limit:
                raise TooMany("too many paths")
            yield facts, ts
            return
        kind, var = d.args[0], d.args[1]
        for k, part in parts(d):
            t2 = [restrict(t, kind, var, part) for t in ts]
            if any(t is BOT for t in t2):
                continue
            yield from go(t2, facts + ((kind, var, part),))
    yield from go(list(ts), tuple(known))


def events(t):
    """the events of one path; None where a segment is not a single event"""
    out = []
    for p in segs(t):
        if p.op == "elem" and p.args[0].op == "ev":
            out.append(p.args[0])
        else:
            out.append(None)
    return out


def mentions(t, pred):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if pred(x):
                return True
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return False


def recording(name, key):
    """policy: the call of a library function of the repository is an event;
    its result is an unknown of its arguments"""
    def f(I, fn, args, e):
        vals = [I.load(a) if a.op == "mref" else a for a in args]
        r = I.opaque(key, fn, args, e)
        I.event(name, *vals)
        return r
    return f


def solver_policy(prog):
    """command-line solvers: writing the problem file and reading the solution
    file are events, every operation that can fail is a decision"""
    pol = {"__fork__": True}
    for k in prog.fns:
        if k.endswith("::write_to_lp_file"):
            pol[k] = recording("lpfile", k)
        elif k.endswith("::read_sol_file"):
            pol[k] = recording("solfile", k)
    return pol


def failing(facts):
    """operations that fail under these facts"""
    out = []
    for kind, var, part in facts:
        if kind == "b" and var.op == "iofail" and part is True:
            out.append(str(var.args[0]))
        if kind == "v" and var.op == "call" and part == "Err":
            out.append(var.args[0].split("::")[-1])
    return out


def told(facts):
    return "; ".join("%s = %s" % (show(v, 4), p[0] if isinstance(p, tuple) and p and p[0] == "default" else p) for k, v, p in facts)[:600]
