"""Development tool: one.py cases.py NAME [function-substring]  shows the comparison of one case (with -s the value graphs)"""
import sys, os, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bench
V = bench.V
sys.path.insert(0, V); sys.path.insert(0, V + "/vg")
def main():
    a = [x for x in sys.argv[1:] if x[0] != "-"]
    bench.W = "/tmp/bench1"
    d = bench.prepare("x")
    case = [c for c in bench.load(a[0]) if c[0] == a[1]][0]
    bench.reset(d)
    for f, x, y in case[2]:
        p = f"{d}/repo/{f}"; s = open(p).read(); assert s.count(x) == 1, (s.count(x), x)
        open(p, "w").write(s.replace(x, y))
    import facts; facts.BUILD = d + "/build"
    from facts import Facts
    from compare import Compare
    import terms, sim
    f = Facts(d + "/repo")
    c = Compare(f.get("spec"), f.get("repo"), each=60, total=400)
    import shutil; shutil.copy(f.get("repo"), "/tmp/bench1/repo.json"); shutil.copy(f.get("spec"), "/tmp/bench1/spec.json")
    f.close()
    if "-f" in sys.argv: return
    c.run()
    for k, v in c.A.items():
        for q, r in v:
            print("A", k, q, str(r)[:1500])
    if "-s" in sys.argv:
        for k in c.A:
            if len(a) > 2 and a[2] in k:
                for lim in (60,):
                    s, r, e = c.pair(k, lim)
                    print(k, e)
                    if s:
                        for i, n in enumerate(("pc", "ret", None, None, "outs")):
                            if n: print(" ", n, "S:", terms.show(s[i], 0, 14)[:6000] if n != "outs" else [terms.show(x, 0, 12)[:3000] for x in s[i] if x]); print(" ", n, "R:", terms.show(r[i], 0, 14)[:6000] if n != "outs" else [terms.show(x, 0, 12)[:3000] for x in r[i] if x])
    for k, q, r, n in c.verdicts():
        print("DIFF", k, q, r.why[:1500], "|", n)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
