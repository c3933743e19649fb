from fw import *
import nodes
import models
from checks.c01 import callees
from checks.c02 import EQ
from checks.c04 import diff_policy

EXPLAIN = ("Every operator overload, cos, sin, evaluation, partial, argument list, path enumeration, derivative and decomposition of a symbolic "
           "expression is value-numbered with the condition under which each of its panic sites (explicit panics, assertions, unwraps, "
           "index and lookup operations) is reached. Structural induction: no operation builds a quotient by the constant zero, and "
           "products are the constant zero only if a factor is; recursive calls are used through these facts.")
FLOOR = 80
S = "numopt_spec::c26::"
N = "<numopt::model::node::Node as numopt::model::"
RULE = "no panic except division by the constant zero and differentiation with respect to a non-variable"
BUILD = "no quotient by the constant zero is built; products and quotients are the constant zero only if a factor or the dividend is"


def operations(prog, but=()):
    """Operations used through the rules checked for them: a division panics
    when its divisor is the constant zero, results are no quotients by zero"""
    ops = nodes.op_keys(prog)
    fns = nodes.func_keys(prog)

    def scalar(k, i, y):
        """numbers among the operands, by the operator's signature"""
        if i == 0 and k.startswith("numopt::model::node::<impl") or i == 1 and "<f64>" in k:
            return mk("value", y)
        return y

    def divides(I, x):
        """is x the divisor of an existing quotient?"""
        for v in subterms(x):
            if v.op == "vf" and v.args[1] == "FunctionDiv":
                d = I.call_body(prog.fns[S + "divisor"], prog.fns[S + "divisor"]["body"], [v.args[0]])
                if d.op == "sw" and d.args[1] is v.args[0] and x in d.args[3]:
                    return True
        return False

    def asked(name, known):
        fn = prog.fns[S + name]

        def of(I, x):
            if x is BOT:
                return x
            if x.op == "sw":
                kind, var, labels, ch = x.args
                return TM.node(kind, var, labels, tuple(of(I, c) for c in ch))
            if x.op == "call" and (x.args[0] in ops or x.args[0] in fns):
                r = known(I, ops.get(x.args[0]), [scalar(x.args[0], i, y) for i, y in enumerate(x.args[1:])])
                if r is not None:
                    return r
            if x.op == "value":
                return cmp(x.args[0], ZERO, "==", False)
            if name == "zero" and divides(I, x):
                return FALSE
            return I.call_body(fn, fn["body"], [x])
        return of

    def product(I, o, a):
        if o == "mul":
            return b_or(zero(I, a[0]), zero(I, a[1]))
        if o in ("neg", "div"):
            return zero(I, a[0])
    zero = asked("zero", product)
    built = asked("broken", lambda I, o, a: FALSE)

    def broken(I, x):
        """existing expressions and results of operations are no quotients by
        zero (induction); those built here are looked at"""
        if x.op == "sw":
            kind, var, labels, ch = x.args
            return TM.node(kind, var, labels, tuple(broken(I, c) for c in ch))
        return built(I, x) if x.op == "adt" else x if x is BOT else FALSE

    def op(k, o):
        def run(I, f, a, e):
            if o == "div":
                I.panic(zero(I, models.val(I, a[1])), "division by zero")
            return I.opaque(k, f, a, e)
        return run
    pol = {k: op(k, o) for k, o in ops.items() if k not in but}
    pol.update({k: "opaque" for k in fns if k not in but})
    pol[S + "zero"] = lambda I, f, a, e: zero(I, models.val(I, a[0]))
    pol[S + "broken"] = lambda I, f, a, e: broken(I, models.val(I, a[0]))
    return pol


def run(c):
    prog = c.prog
    keys = dict(nodes.op_keys(prog))
    keys.update(nodes.func_keys(prog))
    for k, f in sorted(prog.fns.items()):
        n = k[len(S) + 2:]
        if k.startswith(S + "i_") and re.match(r"(add|sub|mul|div)_|neg_|cos$|sin$", n):
            tested = set(callees(f["body"])) & set(keys)
            c.equiv(n, BUILD, k, S + "s_" + n, policy=operations(prog, tested), what=("ret",), where=next((c.where(t) for t in tested), None))
    ops = operations(prog)
    fns = [q for q in prog.fns if "::function::" in q and "numopt_spec" not in q]
    kinds = {q: "opaque" for q in fns if q.endswith(("::evaluate", "::partial", "::arguments", "::std_properties"))}

    same = {EQ: lambda I, f, a, e: eq(models.val(I, a[0]), models.val(I, a[1]))}

    def of(n, s, pol):
        c.equiv(n, RULE, S + "i_" + n, S + s, policy=pol, what=())
    of("evaluate", "s_any_m", kinds)
    of("evaluate_kinds", "s_any_m", {nodes.N_EVAL: "opaque"})
    of("arguments", "s_any", {})
    of("partial", "s_partial", ops)
    of("properties", "s_any", kinds)
    of("properties_kinds", "s_any", {N + "node_std::NodeStd>::std_properties": "opaque"})
    of("components", "s_any", diff_policy(dict(ops, **{q: "opaque" for q in prog.fns if q.endswith("::std_properties")})))
    of("paths", "s_vars", same)
    of("derivatives", "s_vars", dict(ops, **{N + "node_diff::NodeDiff>::all_simple_paths": paths, N + "node_base::NodeBase>::partial": "opaque"}))
    of("derivative", "s_var", {N + "node_diff::NodeDiff>::derivatives": derivatives})


def entries(name):
    """a map with one entry for each of the variables given"""
    def f(I, f, a, e):
        x, vs = models.val(I, a[0]), SQ.siter(SQ.mksset(SEMPTY, models.S(I, a[1], e, 1)))
        return SQ.mkmset(MEMPTY, SQ.seqmap(vs, lambda v: tup(v, app(name, x, v))))
    return f


paths, derivatives = entries("paths"), entries("derivatives")
