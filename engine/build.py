"""Builds the analysis driver and dumps the type-checked program of /repo and of the probe crates."""
import fcntl
import os
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")   # the override serves scratch copies while developing
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
DRV_TARGET = os.path.join(BUILD, "driver")
DRIVER = os.path.join(DRV_TARGET, "release", "thirdump")


class BuildError(Exception):
    pass


def env0():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_ICE"] = "0"
    return e


_sysroot = []


def sysroot():
    if not _sysroot:
        _sysroot.append(subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=env0(), check=True).stdout.strip())
    return _sysroot[0]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def ensure_driver():
    with Lock("driver"):
        src = os.path.join(VERIF, "driver", "src", "main.rs")
        if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
            return
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", DRV_TARGET],
                           cwd=os.path.join(VERIF, "driver"), env=env0(), capture_output=True, text=True)
        if r.returncode or not os.path.exists(DRIVER):
            raise BuildError("driver: " + r.stderr[-3000:])
        os.utime(DRIVER)


DEPS = ["vecmat", "num_complex", "num_traits", "num_integer", "approx", "rand"]


def dump(manifest_dir, features=None, no_default=False, tag="default", crates=(), target=None):
    """cargo check of the crate in manifest_dir with the driver; returns the directory of the dumps.
    Everything that depends on /repo's sources is analysed afresh."""
    ensure_driver()
    tdir = os.path.join(BUILD, "t-" + tag)
    with Lock("t-" + tag):
        out = os.path.join(BUILD, "dump-%s-%d" % (tag, os.getpid()))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        e = env0()
        e["THIRDUMP_CRATES"] = ",".join(list(crates) + DEPS)
        e["THIRDUMP_OUT"] = out
        e["RUSTC_WRAPPER"] = DRIVER
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        # a fresh target directory per run: nothing is taken from an earlier state of /repo
        shutil.rmtree(tdir, ignore_errors=True)
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", tdir]
        if no_default:
            cmd.append("--no-default-features")
        if features:
            cmd += ["--features", ",".join(features)]
        if target:
            cmd += ["--target", target]
        r = subprocess.run(cmd, cwd=manifest_dir, env=e, capture_output=True, text=True)
        shutil.rmtree(tdir, ignore_errors=True)
        if r.returncode:
            raise BuildError(r.stderr[-6000:])
        # what functions of core do (verif's own sources)
        e["THIRDUMP_CRATES"] = "vmodels"
        r = subprocess.run([DRIVER, os.path.join(sysroot(), "bin", "rustc"), "--crate-name", "vmodels", "--crate-type", "lib", "--edition", "2021", "--emit", "metadata",
                            "-A", "warnings", "-o", os.path.join(out, "vmodels.rmeta"), os.path.join(VERIF, "models", "src", "lib.rs")], env=e, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("models: " + r.stderr[-3000:])
    return out


def probe_dir(name, empty=False):
    """an assembled copy of the probe crate `name` in the build directory (sources stay in /verif/probes)"""
    probes = os.path.join(VERIF, "probes")
    dst = os.path.join(BUILD, "probe-%s-%d" % (name, os.getpid()))
    shutil.rmtree(dst, ignore_errors=True)
    if empty:
        os.makedirs(os.path.join(dst, "src"))
        with open(os.path.join(dst, "src", "lib.rs"), "w") as g:
            g.write("#![no_std]\n")
    else:
        shutil.copytree(os.path.join(probes, name), dst)
        shutil.copy(os.path.join(probes, "spec.rs"), os.path.join(dst, "src", "spec.rs"))
    with open(os.path.join(probes, "Cargo.toml.in")) as f, open(os.path.join(dst, "Cargo.toml"), "w") as g:
        g.write(f.read().replace('"/repo"', '"%s"' % REPO))
    shutil.copy(os.path.join(probes, "Cargo.lock"), os.path.join(dst, "Cargo.lock"))
    return dst
