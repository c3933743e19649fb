from fw import *
import nodes

EXPLAIN = ("Every operator implementation on expressions (32 binary, 2 unary, cos, sin) is value-numbered together with "
           "evaluate() on symbolic operands and compared with the operation on the operands' values.")
FLOOR = 38
S = "numopt_spec::c01::"
RULE = "value of the built expression = operation on the operands' values"


def run(c):
    prog = c.prog
    keys = nodes.op_keys(prog)
    evp, ev = nodes.value_policy(prog)
    fk = nodes.func_keys(prog)
    for k, f in sorted(prog.fns.items()):
        if not k.startswith(S + "i_"):
            continue
        tested = set(callees(f["body"])) & (set(keys) | set(fk))
        if k[len(S) + 2:] in ("const", "var"):
            c.equiv(k[len(S) + 2:], "a constant has its value; a variable has the value bound to it (NaN when unbound)",
                    k, k.replace("::i_", "::s_"), policy={})
            continue
        pol = dict(nodes.vops_opaque(prog, tested))
        pol.update(evp)
        c.equiv(k[len(S) + 2:], RULE, k, k.replace("::i_", "::s_"), policy=pol,
                where=next((c.where(t) for t in tested), None))


def callees(o):
    if isinstance(o, dict):
        f = o.get("f")
        if isinstance(f, dict) and f.get("p"):
            yield f.get("r") or f["p"]
        for v in o.values():
            yield from callees(v)
    elif isinstance(o, list):
        for v in o:
            yield from callees(v)
