#!/usr/bin/env python3
"""Engine self-test: see selftest/src/lib.rs. Usage: selftest.py [name...]"""
import os, sys, subprocess, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine"); sys.path.insert(0, V)
os.environ.setdefault("VERIF_WIDTH", "300")
out = os.environ.get("ST_OUT", "/tmp/w/st")
os.makedirs(out + "/dump", exist_ok=True)
lib = subprocess.run("rustc +nightly --print sysroot", shell=True, capture_output=True, text=True).stdout.strip() + "/lib"
subprocess.run("find %s/target/debug/.fingerprint -maxdepth 1 -name 'st-*' -exec /bin/rm -r {} + 2>/dev/null" % out, shell=True)
r = subprocess.run("cargo +nightly check --offline --target-dir %s/target" % out, shell=True, cwd=V + "/selftest", capture_output=True, text=True,
                   env=dict(os.environ, LD_LIBRARY_PATH=lib, RUSTC_WRAPPER=V + "/driver/target/release/thirdump", THIRDUMP_CRATES="st", THIRDUMP_OUT=out + "/dump"))
if r.returncode:
    sys.exit(r.stderr[-3000:])
import fw
from fw import *
prog = Program([out + "/dump/st.json"])
only = set(sys.argv[1:])
bad = n = 0
for k in sorted(prog.fns):
    nm = k.split("::")[-1]
    if nm[:2] not in ("a_", "x_") or k.count("::") != 1 or only and nm[2:] not in only:
        continue
    n += 1
    c = Check("ST", prog)
    o = k.replace("::" + nm, "::" + ("b_" if nm[0] == "a" else "y_") + nm[2:])
    t = time.time()
    c.equiv(nm, "equal", k, o)
    t = time.time() - t
    good = (not c.viol and not c.undecided) if nm[0] == "a" else bool(c.viol)
    word = "violated" if c.viol else "undecided" if c.undecided else "equal"
    if not good or only:
        bad += not good
        print("%s %s (%.1f s): %s" % (word, nm, t, str([v.get("detail", v) if isinstance(v, dict) else v for v in (c.viol or c.undecided)])[:int(os.environ["VERIF_WIDTH"])]))
print("%d pairs, %d unexpected" % (n, bad))
