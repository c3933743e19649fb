#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Static check of one property of /repo: compile the current source with the
rustc driver, analyse the typed program, report."""
import os, sys, json, time, tempfile, shutil, traceback, importlib, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.dont_write_bytecode = True


def findings(prop):
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                known.append(l.split(" ", 2)[2])
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    work = os.environ.get("VERIF_DUMP")
    own = not work
    if own:
        work = tempfile.mkdtemp(prefix="verif_")
    try:
        import dump, fw
        files = dump.dump(work, prop.lower()) if own else [os.path.join(work, "dump", n + ".json") for n in ("numopt", "numopt_spec")]
        t1 = time.time()
        prog = fw.Program(files)
        chk = fw.Check(prop, prog, tier)
        mod = importlib.import_module("checks." + prop.lower())
        chk.END[0] = t0 + (780 if tier == "quick" else 3000)
        mod.run(chk)
    finally:
        if own:
            shutil.rmtree(work, ignore_errors=True)
    report(chk, mod, tier, t0, t1)


def report(chk, mod, tier, t0, t1):
    prop = chk.prop
    floor = getattr(mod, "FLOOR", 1)
    if len(chk.obl) < floor:
        chk.fail("floor", "at least %d obligations are generated" % floor, "/verif/engine/checks/%s.py" % prop.lower(),
                 "only %d obligations were generated: an anchor of the property is missing" % len(chk.obl))
    known = findings(prop)
    new, old = [], []
    for v in chk.viol:
        (old if v["obligation"] in known else new).append(v)
    n = len(chk.obl)
    dis = sum(1 for o in chk.obl if o[1] == "discharged")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": mod.EXPLAIN,
            "obligations": n, "discharged": dis,
            "undecided": [list(u) for u in chk.undecided][:50],
            "functions": sorted(chk.functions),
            "rules": sorted({o[2] for o in chk.obl}),
            "items": [list(o[:2]) for o in chk.obl][:400],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": getattr(mod, "ASSUMES", []),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d functions analysed, %d obligations: %d discharged, %d undecided, %d violated (%.1f s, compile %.1f s)" %
          (prop, len(chk.functions), n, dis, len(chk.undecided), len(chk.viol), time.time() - t0, t1 - t0))
    for nm, why in chk.undecided[:20]:
        print("  undecided %s: %s" % (nm, why[:300]))
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, v["obligation"]))
    if new:
        rd = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rd, "w") as f:
            for v in new:
                f.write("%s\n  rule: %s\n  at: %s\n  %s\n\n" % (v["obligation"], v["rule"], v["where"], v["detail"]))
        for v in new[:12]:
            print("  %s\n    rule: %s\n    at: %s\n    %s" % (v["obligation"], v["rule"], v["where"], v["detail"][:int(os.environ.get("VERIF_WIDTH", "1500"))]))
        print("VIOLATION property=%s replay=%s" % (prop, rd))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    code = [1]

    def go():
        try:
            main()
        except SystemExit as ex:
            code[0] = ex.code or 0
        except BaseException:
            traceback.print_exc()
            code[0] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code[0])
