"""Expression nodes as values: how operators and constants of the model layer
are interpreted."""
from interp import *
import terms as TM
import models

NODE = "numopt::model::node::Node"
N_EVAL = "<%s as numopt::model::node_base::NodeBase>::evaluate" % NODE
OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Neg": "neg"}


def op_keys(prog):
    """every operator implementation on expressions, found from the program:
    key -> operation"""
    out = {}
    for k, f in prog.fns.items():
        if not f.get("body") or "ops::arith::" not in k or "model::node::" not in k:
            continue
        m = re.search(r"ops::arith::(\w+)", k)
        if m.group(1) not in OPS or not k.endswith("::" + OPS[m.group(1)]):
            continue
        if "CooMat" in k or "ConstraintStd" in k:
            continue
        out[k] = OPS[m.group(1)]
    return out


def func_keys(prog):
    return {"<%s as numopt::model::node_func::NodeFunc>::%s" % (NODE, n): n for n in ("cos", "sin")}


def const_conv(t):
    if t.op == "adt" and t.args[0] == NODE and t.args[1] == "ConstantScalar":
        p = t.args[3][0]
        if p.op == "adt" and len(p.args[3]) == 1:
            return p.args[3][0]
    return None


TM.NUMCONV.append(const_conv)


def numify(t):
    """replace constant nodes by their value"""
    memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = const_conv(x)
            if r is None:
                r = rebuild_with(x, go)
            memo[x.id] = r
        return r
    return go(t)


def number(x):
    """a constant expression is its value, also where the value is a decision"""
    return lift("number", lambda t: t if t is BOT else as_number(t), x)


def arith(op):
    def f(I, f, a, e):
        a = [number(models.val(I, x)) for x in a]
        if op == "neg":
            return neg(a[0])
        return {"add": add, "sub": sub, "mul": mul, "div": div}[op](a[0], a[1])
    return f


def algebra(prog):
    """policy: operators on expressions are the operations on their values"""
    pol = {}
    for k, o in op_keys(prog).items():
        pol[k] = arith(o)
    for k, o in func_keys(prog).items():
        pol[k] = (lambda o: lambda I, f, a, e: app(o, models.val(I, a[0])))(o)
    return pol


def args_len(t):
    """every sum node has at least two arguments (FunctionAdd::new asserts it;
    the assertion is itself an obligation of C26)"""
    if t.op == "len" and t.args[0].op == "fld" and t.args[0].args[0].op == "vf" and t.args[0].args[0].args[1] == "FunctionAdd":
        return Fr(2)
    return None


TM.LOWER.append(args_len)


def value_policy(prog):
    """policy for `evaluate`: the value of an expression is its own evaluate()
    unfolded for an operand and for the constants among its terms; below that it
    is an uninterpreted value.  Recursive operator calls are interpreted by the
    operation they implement (each operator has its own obligation)."""
    ops = dict(op_keys(prog))
    ops.update(func_keys(prog))
    names = prog.enums[NODE]
    fn = prog.fns[N_EVAL]

    def ev(I, x, m):
        if x is BOT:
            return BOT
        if x.op == "sw":
            kind, var, labels, ch = x.args
            def go(i):
                if i == len(ch) - 1:
                    return ev(I, ch[i], m)
                c = TM.node(kind, var, labels, tuple(TRUE if j == i else FALSE for j in range(len(ch))))
                return I.branch(c, lambda: ev(I, ch[i], m), lambda: go(i + 1))
            return go(0)
        if x.op == "adt":
            return I.call_body(fn, fn["body"], [x, m])
        if x.op == "call" and x.args[0] in ops:
            o = ops[x.args[0]]
            a = [ev(I, y, m) if isnode(y, x, i) else y for i, y in enumerate(x.args[1:])]
            if o in ("cos", "sin"):
                return app(o, a[0])
            if o == "neg":
                return neg(a[0])
            return {"add": add, "sub": sub, "mul": mul, "div": div}[o](a[0], a[1])
        L = seqlen(x.args[0]) if x.op == "idx" and x.args[0].op == "seq" else None
        if L is not None and (x.args[1] is ZERO or x.args[1] is sub(L, ONE)):
            # the only element of a one-element sequence
            one = cmp(L, ONE, "==", True)
            if b_and(abspc(I), b_not(one)) is FALSE:
                return SQ.sum_seq(SQ.seqmap(x.args[0], lambda y: ev(I, y, m)))
        kids = []
        for n in names:
            if n == "ConstantScalar" or (n == "FunctionAdd" and x.op == "sym"):
                kids.append(I.call_body(fn, fn["body"], [variant(x, n), m]))
            else:
                kids.append(app("V", x, m))
        return switch("v", x, names, tuple(kids))

    def variant(x, n):
        VARINFO.setdefault(x, NODE)
        return mk("adt", NODE, n, ("0",), (vfield(x, n, "0"),))

    def isnode(y, x, i):
        # operators between an expression and a number: which side is the number
        k = x.args[0]
        if k.startswith("numopt::model::node::<impl") and i == 0:
            return False
        if i == 1 and "<f64>" in k:
            return False
        return True

    def pol(I, f, a, e):
        return ev(I, models.val(I, a[0]), models.val(I, a[1]))
    return {N_EVAL: pol}, ev


def abspc(I):
    return I.abspc()


def vops_opaque(prog, but=()):
    return {k: "opaque" for k in list(op_keys(prog)) + list(func_keys(prog)) if k not in but}
