"""Development tool: applies edits to scratch copies of /repo and shows what the checks say about them.
   bench.py cases.py [-t] [-j N] [names...]     -t also builds and runs the existing tests
A case file defines CASES = [(name, property or None, [(file, old, new), ...]), ...]"""
import contextlib, importlib.util, io, json, os, shutil, subprocess, sys, threading, time, multiprocessing

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/bench" + ("" if V == "/verif" else "_" + os.path.basename(V))


def load(p):
    s = importlib.util.spec_from_file_location("cases", p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.CASES


def prepare(w):
    d = f"{W}/w{w}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/repo"):
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    if not os.path.exists(d + "/build"):
        os.makedirs(d + "/build")
        for x in ("driver", "facts"):
            if os.path.exists(f"{V}/build/{x}"):
                subprocess.check_call(["cp", "-a", f"{V}/build/{x}", d + "/build/" + x])
    return d


def reset(d):
    subprocess.check_call(["git", "-C", d + "/repo", "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", d + "/repo", "reset", "-q", "--hard", "FETCH_HEAD"])


def one(d, case, tests, ids, q):
    name, prop, edits = case
    reset(d)
    t0 = time.time()
    if isinstance(edits, str):
        r = subprocess.run(["git", "-C", d + "/repo", "apply", edits], capture_output=True, text=True)
        if r.returncode:
            return q.put((name, prop, "PATCH " + r.stderr, {}, 0))
        edits = []
    for f, a, b in edits:
        p = f"{d}/repo/{f}"
        s = open(p).read()
        if s.count(a) != 1:
            return q.put((name, prop, f"EDIT {s.count(a)} matches in {f}: {a[:50]!r}", {}, 0))
        open(p, "w").write(s.replace(a, b))
    tr = ""
    if tests:
        r = subprocess.run("cargo test --workspace --all-features --no-fail-fast --offline -- --include-ignored --test-threads 2 2>&1", shell=True, cwd=d + "/repo",
                           capture_output=True, text=True, timeout=300, env=dict(os.environ, CARGO_TARGET_DIR=d + "/repo/target"))
        ok = {l.split()[1].split("::")[-1] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("ok")}
        st = {x.split("::")[-1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x.startswith("general")}
        errs = [l for l in r.stdout.splitlines() if l.startswith("error[")]
        tr = "tests ok" if st <= ok else f"TESTS FAIL {sorted(st - ok)[:4]} {errs[:2] if not ok else ''}"
    sys.path.insert(0, V)
    sys.path.insert(0, V + "/vg")
    import facts, check
    facts.BUILD = d + "/build"
    check.EVID = d + "/evidence"
    res = {}
    st = {}

    def go():
        try:
            from facts import Facts
            from compare import Compare
            import rules, props
            f = Facts(d + "/repo")
            cmp = Compare(f.get("spec"), f.get("repo"), each=60, total=400)
            cx = rules.Ctx(f, cmp)
            for i in ids or [p["id"] for p in props.PROPS if p["id"] not in props.NA and p["id"] != "C31"]:
                o = io.StringIO()
                with contextlib.redirect_stdout(o):
                    rc = check.run(i, cx)
                txt = o.getvalue()
                if rc or "0 undecided" not in txt:
                    rep = open(check.EVID + f"/{i}.report.txt").read()
                    res[i] = (rc, rep)
            f.close()
        except BaseException as x:
            import traceback
            res["ERR"] = (2, traceback.format_exc()[-600:])

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    q.put((name, prop, tr, res, time.time() - t0))


def worker(w, jobs, tests, ids, q):
    d = prepare(w)
    while True:
        c = jobs.get()
        if c is None:
            return
        p = multiprocessing.Process(target=one, args=(d, c, tests, ids, q))
        p.start()
        p.join()
        if p.exitcode:
            q.put((c[0], c[1], f"died {p.exitcode}", {}, 0))


def main():
    a = sys.argv[1:]
    tests = "-t" in a
    verbose = "-v" in a
    j = 6
    if "-j" in a:
        j = int(a[a.index("-j") + 1])
        del a[a.index("-j") : a.index("-j") + 2]
    ids = None
    if "-p" in a:
        ids = a[a.index("-p") + 1].split(",")
        del a[a.index("-p") : a.index("-p") + 2]
    a = [x for x in a if x not in ("-t", "-v")]
    cases = load(a[0])
    if len(a) > 1:
        cases = [c for c in cases if any(c[0].startswith(x) for x in a[1:])]
    jobs, q = multiprocessing.Queue(), multiprocessing.Queue()
    for c in cases:
        jobs.put(c)
    ws = []
    for w in range(min(j, len(cases))):
        jobs.put(None)
        p = multiprocessing.Process(target=worker, args=(w, jobs, tests, ids, q))
        p.start()
        ws.append(p)
    n = {"caught": 0, "alarm": 0, "missed": 0, "quiet": 0}
    for _ in cases:
        name, prop, tr, res, t = q.get()
        v = [i for i, (rc, _) in res.items() if rc == 1]
        err = [i for i, (rc, _) in res.items() if rc not in (0, 1)]
        k = ("caught" if prop in v else "missed") if prop else ("alarm" if v else "quiet")
        n[k] += 1
        print(f"{name:28} {prop or '-':4} {k:7} violated {','.join(v) or '-'}; undecided {','.join(i for i in res if i not in v) or '-'}  {tr} {t:.0f}s", flush=True)
        shown = set()
        if err or verbose or k == "alarm" or k == "missed":
            for i, (rc, rep) in res.items():
                for l in rep.splitlines()[0 if rc == 2 else 1 :]:
                    if l not in shown and len(shown) < 12:
                        shown.add(l)
                        print("      ", i, l[:420], flush=True)
    for p in ws:
        p.join()
    print(n)


if __name__ == "__main__":
    main()
