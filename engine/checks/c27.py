from fw import *
from events import paths, TooMany
import models
import nodes

EXPLAIN = ("The text of every kind of expression is computed as a sequence of literal pieces and operand texts, for every combination of "
           "operand kinds, and read with the usual grammar (* and / before +, left to right): an operand's text is spliced in as a sum, "
           "product or quotient of two parts according to its kind. The value read has to be the value evaluate() gives in terms of the "
           "operands' values. Constraint and model texts are compared with reference texts.")
FLOOR = 9
S = "numopt_spec::c27::"
NODE = nodes.NODE
FMT = "<%s as core::fmt::Display>::fmt"
CON = "numopt::model::constraint::Constraint"
SUMS, PRODUCTS = ("FunctionAdd",), ("FunctionMul", "FunctionDiv")
RULE = "read with the usual precedence, the text denotes the operation on the same operands"


def show_policy(prog, *keep):
    """Display of expressions and constraints is one text per object"""
    pol = {}
    for k in prog.fns:
        if k.startswith("<numopt::model::") and k.endswith(" as core::fmt::Display>::fmt") and k not in keep:
            pol[k] = shown
    return pol


def shown(I, f, a, e):
    if not is_mref(a[1]):
        return NotImplemented
    return models.append_text(I, a[1], app("disp", models.val(I, a[0])))


def run(c):
    con, mod = FMT % CON, FMT % "numopt::model::model::Model"
    c.equiv("constraint", "left side, relation, right side", S + "i_con", S + "s_con", policy=show_policy(c.prog, con), what=("ret",), where=con)
    c.equiv("model", "direction, objective, constraints with their labels in order", S + "i_model", S + "s_model",
            policy=show_policy(c.prog, mod), what=("ret",), where=mod)
    k = FMT % NODE
    if k not in c.prog.fns:
        c.fail("expressions", RULE, "?", "function %s not found (anchor missing)" % k)
        return
    c.level = {"sum": [], "product": [], "quotient": []}
    todo = []
    for v in c.prog.enums[NODE]:
        c.guarded(v, RULE, lambda: todo.append(kind(c, k, v)))
    for x in todo:
        for part, ops in (("sum", "+-"), ("product", "*"), ("quotient", "/")):
            if x and any(o in ops for o in x[1]):
                c.level[part].append(x[0])
    for x in todo:
        if x:
            c.guarded(x[0], RULE, lambda: judge_all(c, *x))


class Unread(Exception):
    pass


class Misread(Exception):
    pass


def kind(c, k, v):
    prog = c.prog
    I = analyse(prog, k, show_policy(prog, k))
    c.ran(I)
    me = models.val(I, I.argterms[0])
    fn = k
    text = restrict(I.load(I.argterms[1]), "v", me, v)
    toks = tokens(text) if text.op != "sw" else []
    pay = None
    if len(toks) == 1 and toks[0][0] == "disp":
        x = toks[0][1]
        if x.op == "vf" and x.args[0] is me and x.args[1] == v:
            # handed on to the operation's own type
            pay = x
            fn = FMT % (payload(prog, v) or "?")
            if fn not in prog.fns:
                c.fail(v, RULE, "?", "function %s not found (anchor missing)" % fn)
                return
            I = analyse(prog, fn, show_policy(prog, fn))
            c.ran(I)
            me = models.val(I, I.argterms[0])
            text = I.load(I.argterms[1])
    if I.unk:
        c.undec(v, RULE, "not modelled: %s" % str(I.unk[0])[:200])
        return
    w = c.where(fn)
    c.expect(v + " panics", "printing does not panic", not [p for p in I.panics if p.cond is not FALSE], w, "may panic")
    val = required(c, prog, v, pay is not None, me)
    out = []
    for facts, (t,) in paths([text]):
        if any(kd in ("n", "ni") and var.op == "len" and empty(part) for kd, var, part in facts):
            continue                    # a sum has terms
        out.append((facts, t))
    return v, outer(out), out, val, w


def outer(texts):
    """operators outside parentheses"""
    ops = set()
    for _, t in texts:
        depth = 0
        for i, k in enumerate(flat(t)):
            if k in "([":
                depth += 1
            elif k in ")]":
                depth -= 1
            elif depth == 0 and k in "+-*/" and i:
                ops.add(k)
    return ops


def flat(t):
    for k in tokens(t):
        if k[0] == "lit":
            if not k[1].isspace():
                yield k[1]
        elif k[0] == "rep":
            yield "x"
            for facts, (u,) in paths([k[1].args[2]]):
                yield from (y for y in flat(u))
        else:
            yield "x"


def judge_all(c, v, ops, texts, val, w):
    for n, (facts, t) in enumerate(texts):
        kinds, want = {}, val
        for kd, var, part in facts:
            want = restrict(want, kd, var, part)
            if kd == "v":
                kinds[var] = part
        at = "; ".join("%s is %s" % (show(x, 3), y) for x, y in sorted(kinds.items(), key=lambda z: z[0].id)) or "always"
        try:
            judge(c, "%s #%d" % (v, n), t, want, kinds, w, at)
        except Unread as ex:
            c.undec("%s #%d" % (v, n), RULE, "%s (%s)" % (ex, at))


def empty(part):
    hi = part[1]
    hi = hi[0] if isinstance(hi, tuple) else hi
    return hi is not None and hi <= 1


def payload(prog, v):
    a = prog.adts[NODE]
    for x in a["variants"]:
        if x["n"] == v:
            for q in inside(a["types"], x["f"][0]["ty"]):
                if q.startswith("numopt::"):
                    return q


def inside(types, i):
    t = types[i]
    if t["k"] == "adt":
        yield t["p"]
    for j in list(t.get("a") or []) + [t.get("t")]:
        if isinstance(j, int):
            yield from inside(types, j)


def required(c, prog, v, is_pay, me):
    """the value in terms of the operands' values"""
    def of(k):
        J = analyse(prog, k)
        c.ran(J)
        x = models.val(J, J.argterms[0])
        out = restrict(J.result, "v", x, v)
        return subst(out, {mk("vf", x, v, "0"): me}) if is_pay else subst(out, {x: me})
    if v == "VariableScalar":
        return of(NODE + "::name")
    return of(nodes.N_EVAL)


# ------------------------------------------------------------------ reading
def tokens(t, first=True):
    """pieces of a text: ("lit", char), ("disp", x), ("text", x), ("rep", part)"""
    if t.op == "sw":
        raise Unread("undecided text %s" % show(t, 3)[:100])
    out = []
    for i, p in enumerate(SQ.segs(t)):
        if p.op == "lit":
            out += [("lit", ch) for ch in p.args[0]]
            continue
        if p.op == "comp":
            x = SQ.is_eta(p)
            if x is None:
                out.append(("rep", p))
            elif x.op == "disp":
                out.append(("disp", x.args[0]))
            elif i == 0 and first and x.op == "sym":
                continue            # what the formatter held before
            else:
                out.append(("text", x))
            continue
        raise Unread("piece %s" % show(p, 3)[:100])
    return out


class Reader:
    """the value a token list denotes; `reps` gives the parts an operand's text consists of"""

    def __init__(self, toks, leaf, splice=None, reps=None, each=None):
        self.each = each
        self.t = []
        for k in toks:
            if k[0] == "lit" and k[1].isspace():
                self.t.append(("lit", " "))
            elif splice and k[0] in ("disp", "text") and k[1] is splice:
                self.t += reps
            else:
                self.t.append(k)
        self.i = 0
        self.leaf = leaf
        self.splice, self.reps = splice, reps

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] == ("lit", " "):
            self.i += 1

    def peek(self):
        self.ws()
        return self.t[self.i] if self.i < len(self.t) else None

    def at(self, chars):
        k = self.peek()
        return k is not None and k[0] == "lit" and k[1] in chars

    def take(self):
        k = self.peek()
        self.i += 1
        return k

    def whole(self):
        v = self.expr()
        if self.peek() is not None:
            raise Misread("a second expression follows")
        return v

    def expr(self):
        v = None
        while True:
            k = self.peek()
            if k is not None and k[0] == "rep":
                r, side = self.rep(self.take()[1])
                if side == "after":
                    # terms each followed by +
                    v = r if v is None else add(v, r)
                    v = add(v, self.term())
                elif v is None:
                    raise Misread("the text starts with an operator")
                else:
                    v = add(v, r)
            elif v is None:
                v = self.term()
            if self.at("+-"):
                o = self.take()[1]
                k = self.peek()
                if k is not None and k[0] == "rep" and o == "+":
                    continue
                x = self.term()
                v = add(v, x) if o == "+" else sub(v, x)
                continue
            k = self.peek()
            if k is not None and k[0] == "rep":
                continue
            return v

    def rep(self, part):
        with SQ.opened(part, part.args[2]) as (s, b):
            vals = []
            side = None
            for facts, (t,) in paths([b]):
                toks = [k for k in tokens(t, False) if k != ("lit", " ")]
                if toks and toks[-1] == ("lit", "+"):
                    sd, toks = "after", toks[:-1]
                elif toks and toks[0] == ("lit", "+"):
                    sd, toks = "before", toks[1:]
                elif any(x.op == "disp" for kd, var, p in facts for x in subterms(var)):
                    raise Unread("text chosen by what an operand's text looks like")
                else:
                    raise Misread("terms are not joined by +")
                if side not in (None, sd):
                    raise Unread("repeated text")
                side = sd
                if self.each and not self.reps:
                    self.each(toks, dict((var, p) for kd, var, p in facts if kd == "v"))
                vals.append(Reader(toks, self.leaf, self.splice, self.reps).whole())
            if len(set(vals)) != 1:
                raise Unread("terms depending on a decision")
            return SQ.mksum(s, part.args[1], vals[0]), side

    def term(self):
        v = self.factor()
        while self.at("*/"):
            o = self.take()[1]
            x = self.factor()
            v = mul(v, x) if o == "*" else div(v, x)
        return v

    def factor(self):
        k = self.take()
        if k is None:
            raise Misread("an operand is missing")
        if k[0] in ("disp", "text"):
            return self.leaf(k[1])
        if k[0] == "val":
            return k[1]
        if k[0] == "rep":
            raise Unread("repeated text in a product")
        ch = k[1]
        if ch == "-":
            return neg(self.factor())
        if ch == "(":
            v = self.expr()
            self.close()
            return v
        if ch.isdigit() or ch == ".":
            t = ch
            while self.i < len(self.t) and self.t[self.i][0] == "lit" and (self.t[self.i][1].isdigit() or self.t[self.i][1] == "."):
                t += self.t[self.i][1]
                self.i += 1
            self.adjacent()
            return num(Fr(t))
        if ch.isalpha():
            t = ch
            while self.i < len(self.t) and self.t[self.i][0] == "lit" and self.t[self.i][1].isalnum():
                t += self.t[self.i][1]
                self.i += 1
            if not self.at("("):
                raise Misread("%s is not followed by (" % t)
            self.take()
            v = self.expr()
            self.close()
            return app(t, v)
        raise Misread("unexpected %s" % ch)

    def adjacent(self):
        if self.i < len(self.t) and self.t[self.i][0] != "lit":
            raise Misread("an operand runs into a number")

    def close(self):
        if not self.at(")"):
            raise Misread("a parenthesis is not closed")
        self.take()


def operand(x):
    """the expression a text belongs to, and its kind if known"""
    if x.op == "vf":
        return x.args[0], x.args[1]
    return x, None


def judge(c, name, t, want, kinds, w, at):
    toks = tokens(t)
    if name.startswith("VariableScalar"):
        c.same(name, "a variable is shown by its name", toks[0][1] if len(toks) == 1 else t, want, w)
        return
    calls = {}
    for x in walk(want):
        if x.op == "call" and x.args[0] == nodes.N_EVAL:
            calls[x.args[1]] = x

    def value(x):
        y, _ = operand(x)
        if y in calls:
            return calls[y]
        if y.op == "idx":
            # a term of the sum: as it occurs in the value
            for z, cl in calls.items():
                if z.op == "idx" and z.args[0] is y.args[0]:
                    return subst(cl, {z: y})
        return y

    def parts(toks, known0):
        """an operand printed in two parts reads as the same operand"""
        done = set()
        hole = mk("sym", "operand", 0, "g")
        for k in toks:
            if k[0] not in ("disp", "text") or k[1] in done:
                continue
            x = k[1]
            done.add(x)
            y, known = operand(x)
            if value(x) is y:
                continue                # a number or a name
            atom = Reader(toks, value, x, [("val", hole)]).whole()
            known = known or known0.get(y) or kinds.get(y)
            if isinstance(known, tuple):
                known = None
            for part, o, f in (("sum", "+", add), ("product", "*", mul), ("quotient", "/", div)):
                if known is not None and known not in c.level[part]:
                    continue
                a, b = mk("sym", "left part", 0, "g"), mk("sym", "right part", 0, "g")
                rep = [("val", a), ("lit", " "), ("lit", o), ("lit", " "), ("val", b)]
                try:
                    got = Reader(toks, value, x, rep).whole()
                except Misread:
                    got = None
                want = subst(atom, {hole: f(a, b)})
                nm = "%s %s %s%s" % (name, part, show(y, 2), " (%s)" % known if known else "")
                if got is want:
                    c.ok(nm, RULE)
                else:
                    c.fail(nm, RULE, w, "operand %s printed as a %s of two parts is read as %s, not %s (%s)" % (
                        show(y, 3), part, show(got, 4)[:100] if got is not None else "nothing", show(want, 4)[:100], at))
    try:
        got = Reader(toks, value, each=parts).whole()
    except Misread as ex:
        c.fail(name, RULE, w, "the text cannot be read: %s (%s)" % (ex, at))
        return
    c.same(name, RULE, got, want, w)
    parts(toks, {})


def walk(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        TM._push_children(x.args, st)
