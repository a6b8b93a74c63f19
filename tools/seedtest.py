#!/usr/bin/env python3
"""Development tool: confirms planted bugs in scratch copies of /repo and runs the checks on them.
seedtest.py [--demo] [--all] ID...   (no ID: every seed)"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDS", V + "/seeded")


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def one(i, demo, allc):
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    w = "/tmp/w/sd-" + i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w + "/repo", symlinks=True)
    msg = []
    ben = {"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true"}
    try:
        if demo:
            rc, o = sh(["bash", d + "/demo.sh"], w + "/repo", ben)
            msg.append("demo clean %s" % ("ok" if rc == 0 else "FAILS ON CLEAN TREE: " + o[-600:]))
        rc, o = sh("git apply " + d + "/patch.diff", w + "/repo")
        if rc:
            return i, "patch does not apply " + o
        if demo:
            for f in ("", "--no-default-features"):
                rc, o = sh("cargo test --workspace --offline " + f, w + "/repo", ben)
                if rc:
                    msg.append("TESTS FAIL: " + o[-800:])
            rc, o = sh(["bash", d + "/demo.sh"], w + "/repo", ben)
            msg.append("demo patched %s" % ("ok" if rc else "PASSES WITH THE PATCH"))
        pids = [meta["property"]]
        if allc:
            pids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        for p in pids:
            rc, o = sh([V + "/check.py", p, "quick"], V, {"VERIF_REPO": w + "/repo", "VERIF_BUILD": w + "/build", "VERIF_EVID": w + "/evid"})
            if rc == 1 and "VIOLATION property=%s" % p in o:
                msg.append("%s CAUGHT" % p + (" :: " + o.strip().split("\n")[0][:220] if p == meta["property"] else ""))
            elif rc == 0:
                if p == meta["property"]:
                    msg.append("%s MISSED :: %s" % (p, o.strip().split("\n")[-1]))
            else:
                msg.append("%s ERROR %d %s" % (p, rc, o[-400:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, "; ".join(msg)


def main():
    a = sys.argv[1:]
    demo, allc = "--demo" in a, "--all" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(S))
    with cf.ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(lambda i: one(i, demo, allc), ids):
            print(i, "->", m, flush=True)


main()
