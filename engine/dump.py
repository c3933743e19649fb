"""Compile /repo (and the reference functions of /verif/spec) with the rustc
driver and load the typed program it writes.  Nothing of /repo is executed."""
import os, subprocess, sys, shutil, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_driver():
    exe = os.path.join(VERIF, "driver/target/release/thirdump")
    src = os.path.join(VERIF, "driver/src/main.rs")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--release"], cwd=os.path.join(VERIF, "driver"))
    if rc != 0 or not os.path.exists(exe):
        raise RuntimeError("driver build failed:\n" + out[-3000:])
    return exe


def dump(workdir, feature=None):
    """-> list of JSON files (numopt, numopt_spec)"""
    exe = build_driver()
    rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"])
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sysroot.strip() + "/lib:" + env.get("LD_LIBRARY_PATH", "")
    env["RUSTC_WRAPPER"] = exe
    env["THIRDUMP_CRATES"] = "numopt,numopt_spec"
    out = os.path.join(workdir, "dump")
    tgt = os.path.join(workdir, "target")
    os.makedirs(out, exist_ok=True)
    env["THIRDUMP_OUT"] = out
    env.pop("RUSTFLAGS", None)
    rc, log = sh(["cargo", "+nightly", "check", "--offline", "--target-dir", tgt] + (["--no-default-features", "--features", feature] if feature else []), env=env, cwd=os.path.join(VERIF, "spec"))
    if rc != 0:
        raise CompileError(log)
    fs = [os.path.join(out, n + ".json") for n in ("numopt", "numopt_spec")]
    for f in fs:
        if not os.path.exists(f):
            raise RuntimeError("no dump " + f + "\n" + log[-2000:])
    return fs


class CompileError(Exception):
    pass
