#!/usr/bin/env python3
"""mkseed.py DEF.py ... : builds /verif/seeded/<id> from a definition file and
confirms it in a scratch copy of /repo: the patch builds, the 84 stable tests
pass, and the demonstration passes without and fails with the patch.

A definition is a python file with ID, PROP, NEEDS, BREAKS, EDITS (list of
(file, old, new[, nth])), DEMO (Rust source of a main.rs), FEATURES (list)."""
import os, shutil, subprocess, sys, tempfile, json, runpy, re

DEMO = r'''#!/bin/bash
# Builds and runs main.rs against the crate in the current directory, in a
# scratch directory that is removed afterwards.
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here" "$PWD" <<'P'
import os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1:]
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/src"); os.mkdir(d + "/work")
    shutil.copy(here + "/main.rs", d + "/src/main.rs")
    if os.path.exists(repo + "/Cargo.lock"):
        shutil.copy(repo + "/Cargo.lock", d + "/Cargo.lock")
    open(d + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2018"\n[workspace]\n'
        '[dependencies]\nnumopt = { path = "%s", features = [FEATURES] }\nDEPS' % repo)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/target", RUSTFLAGS="-Awarnings")
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env)
    if b.returncode:
        sys.exit(3)
    try:
        r = subprocess.run([d + "/target/debug/demo"], cwd=d + "/work", env=env, timeout=100)
    except subprocess.TimeoutExpired:
        sys.exit(4)
    sys.exit(0 if r.returncode == 0 else 1)
P
'''
VERS = {"simple-error": "0.2.1", "maplit": "1.0.2", "libc": "0.2.68"}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ok = True
    copy = "/tmp/sd/repo"
    if not os.path.isdir(copy):
        os.makedirs("/tmp/sd", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
    stable = len(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for f in sys.argv[1:]:
        d = runpy.run_path(f)
        sh(["git", "checkout", "-q", "--", "."], copy)
        sh(["git", "pull", "-q"], copy) if False else None
        sd = "/verif/seeded/" + d["ID"]
        os.makedirs(sd, exist_ok=True)
        open(sd + "/demo.sh", "w").write(DEMO.replace("DEPS", "".join('%s = "%s"\\n' % (x, VERS[x]) for x in d.get("DEPS", []))).replace("FEATURES", ", ".join('"%s"' % x for x in d.get("FEATURES", []))))
        os.chmod(sd + "/demo.sh", 0o755)
        open(sd + "/main.rs", "w").write(d["DEMO"].lstrip())
        json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(sd + "/meta.json", "w"), indent=1)
        a = sh(["bash", sd + "/demo.sh"], copy)
        for e in d["EDITS"]:
            p = copy + "/" + e[0]
            s = open(p).read()
            n = e[3] if len(e) > 3 else 1
            if s.count(e[1]) < n:
                print(d["ID"], "NO MATCH", e[1][:60]); ok = False
                continue
            i = -1
            for _ in range(n):
                i = s.index(e[1], i + 1)
            open(p, "w").write(s[:i] + e[2] + s[i + len(e[1]):])
            os.utime(p)
        diff = sh(["git", "diff"], copy).stdout
        open(sd + "/patch.diff", "w").write(diff)
        b = sh(["bash", sd + "/demo.sh"], copy)
        t = sh("cargo nextest run --workspace --features ipopt --offline --no-fail-fast --test-threads 1", copy, shell=True)
        m = re.search(r"tests run: (\d+) passed", t.stdout)
        sh(["git", "checkout", "-q", "--", "."], copy)
        good = a.returncode == 0 and b.returncode == 1 and m and int(m.group(1)) >= stable and "could not compile" not in t.stdout
        print(d["ID"], d["PROP"], "OK" if good else "BAD", "demo", a.returncode, b.returncode, "tests", m and m.group(1))
        if not good:
            ok = False
            print(a.stdout[-800:] if a.returncode else "", b.stdout[-600:] if b.returncode not in (0, 1) else "")
    return 0 if ok else 1


sys.exit(main())
