from fw import *
from events import *
from interp import FXROOT

SOLVE = "<numopt::solver::ipopt::SolverIpopt as numopt::solver::base::Solver>::solve"
S = "numopt_spec::c24::"
CREATE, FREE, RUN = "CreateIpoptProblem", "FreeIpoptProblem", "IpoptSolve"

# dimensions and indices fit the C integers (a larger problem stops at to_i32)
FITS = {"__fits__": True}


def is_res(t, var):
    return t.op == "adt" and t.args[0] == "core::result::Result" and t.args[1] == var


def ffi(e, name=None):
    return e is not None and e.args[0] == "ffi" and (name is None or str(e.args[1]) == name)


def handle(e):
    return app("ffi", *e.args[1:])


def null_fact(facts, h):
    """True / False / None: is the handle null under these facts"""
    for k, v, p in facts:
        if k == "b" and v.op == "isnull" and v.args[0] is h:
            return p
    return None


class Solve:
    """solve of the Ipopt interface, per supported problem class"""

    def __init__(self, c):
        self.I = analyse(c.prog, SOLVE, FITS)
        c.ran(self.I)
        self.V = analyse(c.prog, S + "problem")
        self.p = sym("p1")

    def at(self, t, k):
        return restrict(t, "v", self.p, k)

    def problem(self, k):
        """the problem's data as seen by the callbacks"""
        r = self.at(self.V.result, k)
        if r.op != "adt" or r.args[1] != "Some":
            return UNIT
        v = r.args[3][0]
        return self.V.load(v) if v.op == "mref" else v

    def of(self, c, name, k, *more):
        """value of a spec function of the problem"""
        F = analyse(c.prog, S + name)
        m = {F.argterms[0]: self.problem(k)}
        for a, b in zip(F.argterms[1:], more):
            m[a] = b
        return subst(F.result, m)

    def frame(self, t, k):
        """The library reaches the problem through the callbacks only, and
        those change evaluation results, not the problem's data (C22)."""
        p = self.problem(k)
        m = {x: p for x in subterms(t) if isinstance(x, T) and x.op == "ffiout" and x.args[3] is p}
        return subst(t, m) if m else t

    def paths(self, k):
        yield from paths([self.frame(self.at(self.I.result, k), k), self.at(self.I.st[FXROOT], k)])
