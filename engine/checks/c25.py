from fw import *

EXPLAIN = ("set_param, get_param, the two parameter views and new() of each solver are value-numbered for an arbitrary parameter map, "
           "name and value and compared with the requirement; the resulting solver object is compared as a whole.")
S = "numopt_spec::c25::"
FLOOR = 12
RULES = {"set": "succeeds exactly for a known name and a value of the current type, and then changes exactly that parameter to that value",
         "get": "a parameter is reported by its name", "views": "both views show the same parameters",
         "new": "the documented parameters and defaults are present, and no others"}


def run(c):
    for n in ("cbc", "clp", "ipopt"):
        for o, r in RULES.items():
            c.equiv(o + "_" + n, r, S + "i_%s_%s" % (o, n), S + "s_%s_%s" % (o, n), panic="none")
