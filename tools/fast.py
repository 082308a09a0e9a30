"""Development tool: fast.py OUT cases.py...  compares every case (no rules), 8 at a time; prints the functions that differ"""
import os, sys, threading, time, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bench
V = bench.V
def one(d, case, out):
    name, prop, edits = case
    t0 = time.time()
    bench.reset(d)
    for f, a, b in edits:
        p = f"{d}/repo/{f}"
        s = open(p).read()
        open(p, "w").write(s.replace(a, b))
    sys.path.insert(0, V); sys.path.insert(0, V + "/vg")
    res = []
    def go():
        try:
            import facts
            facts.BUILD = d + "/build"
            from facts import Facts
            from compare import Compare
            f = Facts(d + "/repo")
            c = Compare(f.get("spec"), f.get("repo"), each=60, total=400)
            f.close()
            c.run()
            res.append(sorted({k.split("::")[-1] for k, q, r, n in c.verdicts()}))
        except BaseException as x:
            res.append("ERR " + str(x)[-200:].replace("\n", " "))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go); t.start(); t.join()
    with open(out, "a") as o:
        o.write(f"{name:24} {prop or '-':4} {'DIFF ' + str(res[0]) if res[0] else 'same'} {time.time() - t0:.0f}s\n")
def worker(w, q, out):
    d = bench.prepare("f%d" % w)
    while True:
        c = q.get()
        if c is None:
            return
        p = multiprocessing.Process(target=one, args=(d, c, out)); p.start(); p.join()
if __name__ == "__main__":
    q = multiprocessing.Queue()
    for f in sys.argv[2:]:
        for c in bench.load(f):
            q.put(c)
    ws = []
    for w in range(8):
        q.put(None)
        p = multiprocessing.Process(target=worker, args=(w, q, sys.argv[1])); p.start(); ws.append(p)
    for p in ws:
        p.join()
