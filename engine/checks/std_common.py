import nodes


def std_policy(prog, model=True):
    """operators are the operations on values; standard components of
    expressions and constraints are decided by C04 and C07"""
    pol = nodes.algebra(prog)
    for q in prog.fns:
        if "std_properties" in q or (q.endswith("::std_components") and (model or "model::model" not in q)):
            pol[q] = "opaque"
    pol[nodes.N_EVAL] = "opaque"
    return pol
