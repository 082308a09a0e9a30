"""Builds the compiler driver and dumps the type-checked program (resolved MIR) of a crate."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, "build")
REPO = "/repo"


class FactsError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def driver():
    out = os.path.join(BUILD, "driver", "debug", "gbdump")
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(V, "driver", "Cargo.toml")],
                       env=e, capture_output=True, text=True, cwd=V)
    if not os.path.exists(out) or r.returncode:
        raise FactsError("driver does not build: " + r.stderr[-2000:])
    return out


def dump(crate_dir, out, features="--all-features", debug=False, drv=None):
    """resolved program of the library in crate_dir -> out (json)"""
    e = env()
    # no optimisation: every local, every check stays visible; overflow checks tell where they are
    e["RUSTFLAGS"] = "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on"
    e["GBDUMP_CRATE"] = "goban"
    e["GBDUMP_OUT"] = out
    e["GBDUMP_ARGS"] = "-Cdebug-assertions=on" if debug else ""
    tgt = os.path.join(BUILD, "facts")
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTC_WORKSPACE_WRAPPER"] = drv or driver()
    # cargo would skip the wrapper when it believes the crate is fresh
    shutil.rmtree(os.path.join(tgt, "debug", "build", "goban"), ignore_errors=True)
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("goban-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if os.path.exists(out):
        os.remove(out)
    lock = os.path.join(crate_dir, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)  # ignored by git, as build.sh does
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(crate_dir, "Cargo.toml")]
    cmd += features.split()
    r = subprocess.run(cmd, env=e, capture_output=True, text=True, cwd=V)
    if not os.path.exists(out):
        raise FactsError(f"{crate_dir} does not build: " + r.stderr[-3000:])
    return out


class Facts:
    """dumps on demand; the repository is dumped afresh on every run"""

    def __init__(self, repo=REPO):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.repo = repo
        self.drv = driver()
        self.got = {}

    def get(self, which):
        if which in self.got:
            return self.got[which]
        out = os.path.join(BUILD, f"{which}-{os.getpid()}.json")
        kind, _, mode = which.partition("-")
        src = os.path.join(V, "spec") if kind == "spec" else self.repo
        feats = {"": "--all-features", "default": "", "debug": "--all-features", "history": "--features history", "deadstones": "--features deadstones"}[mode]
        dump(src, out, feats, mode == "debug", self.drv)
        self.got[which] = out
        return out

    def close(self):
        for p in self.got.values():
            if os.path.exists(p):
                os.remove(p)
        self.lock.close()
