from checks.ipopt_common import *

EXPLAIN = ("Typestate of the native handle: on every combination of outcomes of solve the handle is checked for null before any use, "
           "freed exactly once after creation, never used after being freed or when creation failed; no panic is reachable between "
           "creation and freeing for a consistent problem.")
FLOOR = 6


def run(c):
    if SOLVE not in c.prog.fns:
        c.fail("solve", "solve", "?", "function %s not found (anchor missing)" % SOLVE)
        return
    c.guarded("solve", "typestate of the native problem", lambda: check(c))


def check(c):
    s = Solve(c)
    w = c.where(SOLVE)
    rule = "the native problem is freed exactly once and used only while it exists"
    for k in ("Nlp", "Lp", "Minlp", "Milp"):
        n = 0
        for facts, (ret, fx) in s.paths(k):
            n += 1
            evs = events(fx)
            when = "%s:exit %d" % (k, n)
            if None in evs:
                c.undec(when, rule, "effects in a loop")
                continue
            bad = typestate(evs, facts)
            if bad:
                c.fail("%s:%s" % (k, bad[0]), rule, w, "%s when %s" % (bad[1], told(facts)))
            else:
                c.ok(when, rule)
        c.expect(k + ":exits", "solve returns", n > 0, w, "no exit found")
    rule = "no panic between creating and freeing the native problem"
    for p in s.I.panics:
        for k in ("Nlp", "Lp"):
            if s.at(p.cond, k) is FALSE:
                continue
            cond = b_and(s.frame(s.at(p.cond, k), k), s.of(c, "consistent", k))
            if cond is FALSE or p.fx is None:
                c.ok("%s:%s" % (k, p.cls), rule)
                continue
            live = False
            for facts, (cc, fx) in paths([cond, s.at(p.fx, k)]):
                if cc is FALSE:
                    continue
                evs = events(fx)
                if any(ffi(e, CREATE) for e in evs) and not any(ffi(e, FREE) for e in evs) and \
                        null_fact(facts, handle([e for e in evs if ffi(e, CREATE)][0])) is not True:
                    live = (cc, facts)
                    break
            if not live:
                c.ok("%s:%s" % (k, p.cls), rule)
            elif weak(cond):
                c.undec("%s:%s" % (k, p.cls), rule, "panic condition not modelled: %s" % show(cond, 3)[:200])
            else:
                c.fail("%s:%s" % (k, p.cls), rule, "%s in %s" % (p.span, p.key), "panics (%s) when %s" % (p.cls, told(live[1])))


def typestate(evs, facts):
    created = None
    freed = 0
    for e in evs:
        if ffi(e, CREATE):
            if created is not None:
                return "created twice", "a second native problem is created"
            created = handle(e)
            continue
        if not ffi(e):
            continue
        uses = created is not None and any(x is created for x in e.args[2:] if isinstance(x, T))
        if ffi(e, FREE):
            if not uses:
                return "frees something else", "%s is freed" % show(e.args[2], 3)
            if null_fact(facts, created) is not False:
                return "frees null", "the native problem is freed although creation failed or was not checked"
            freed += 1
            if freed > 1:
                return "freed twice", "the native problem is freed twice"
            continue
        if uses or str(e.args[1]) != CREATE:
            if created is None or not uses:
                return "wrong handle", "%s is called on another handle" % e.args[1]
            if freed:
                return "used after free", "%s is called after the native problem is freed" % e.args[1]
            if null_fact(facts, created) is not False:
                return "used unchecked", "%s is called although creation failed or was not checked" % e.args[1]
    if created is not None and null_fact(facts, created) is not True and freed != 1:
        return "not freed", "the native problem is not freed"
    return None
