"""Development tool: builds and validates /verif/seeded from seeds.py + bugs.py.  mkseeds.py [name ...]"""
import sys, os, subprocess, json, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
from bench import load
V = os.path.dirname(HERE)
W = "/tmp/seedwork"
BUGS = {c[0]: c for f in ("bugs", "bugs2", "bugs3", "bugs4") for c in load(HERE + "/" + f + ".py")}
BASE = "ba78feb"

DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 9
trap 'rm -rf -- "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
goban = { path = "$R"%s }
[workspace]
EOF
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo run -q --offline
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def main():
    want = sys.argv[1:]
    if not os.path.exists(W + "/repo"):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
    R = W + "/repo"
    sh("git fetch -q && git reset -q --hard FETCH_HEAD" if False else "git checkout -q -- .", cwd=R)
    env = dict(os.environ, CARGO_TARGET_DIR=R + "/target", CARGO_NET_OFFLINE="true")
    for s in seeds.SEEDS:
        bug, prop, needs, breaks, body = s[:5]
        feats = s[5] if len(s) > 5 else ""
        if want and bug not in want:
            continue
        name, bprop, edits = BUGS[bug]
        sh("git checkout -q -- .", cwd=R)
        out = f"{W}/out/{bug}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/main.rs", "w").write(body)
        open(out + "/demo.sh", "w").write(DEMO % feats)
        os.chmod(out + "/demo.sh", 0o755)
        a = sh(["bash", out + "/demo.sh"], cwd=R)
        if a.returncode:
            print(bug, "BAD: demo fails on the unchanged tree:", " | ".join(l for l in a.stderr.splitlines() if l.startswith("error") or "panicked" in l or "left:" in l or "right:" in l or "-->" in l)[:400])
            continue
        bad = None
        for f, x, y in edits:
            p = R + "/" + f
            t = open(p).read()
            if t.count(x) != 1:
                bad = f"edit {t.count(x)} matches"
            # lines removed must come from the base
            open(p, "w").write(t.replace(x, y))
        if bad:
            print(bug, "BAD:", bad)
            continue
        diff = sh("git diff", cwd=R).stdout
        open(out + "/patch.diff", "w").write(diff)
        # which removed lines are not of the original repository
        mine = 0
        f = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                orig = sh(["git", "show", f"{BASE}:{f}"], cwd=R).stdout.splitlines()
            elif l.startswith("-") and not l.startswith("---"):
                if l[1:] not in orig:
                    mine += 1
        b = sh(["bash", out + "/demo.sh"], cwd=R)
        if b.returncode == 0:
            print(bug, "BAD: demo passes with the patch")
            continue
        if "error[E" in b.stderr or "could not compile" in b.stderr:
            print(bug, "BAD: does not compile", b.stderr[-500:])
            continue
        t = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --include-ignored --test-threads 8 2>&1", cwd=R, env=env)
        log = t.stdout + t.stderr
        open(W + "/log", "w").write(log)
        sh(["python3", "/opt/vp/results.py", W + "/res.json", "cargo:" + W + "/log"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(W + "/res.json"))
        stable = base.get("passed") or base.get("stable") or base.get("tests") or []
        got = set(res.get("passed", []))
        fail = [x for x in stable if x not in got]
        if fail:
            print(bug, "BAD: tests fail", fail[:4])
            continue
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        dst = f"{V}/seeded/{bug}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(bug, prop, "ok", f"({mine} changed lines are not of the original repository)" if mine else "")
    sh("git checkout -q -- .", cwd=R)


main()
