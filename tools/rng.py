"""Development tool: rng.py facts.json  lists the range obligations that are open or broken"""
import sys, threading, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vg")
def main():
    from compare import Program
    import ranges
    from terms import show
    p = Program(sys.argv[1], "r")
    t0 = time.time()
    e, sk = ranges.analyse(p)
    print("analysed", time.time() - t0, len(e.obs), "skipped", sk[:3])
    res = ranges.decide_all(p, e)
    n = {True: 0, False: 0, None: 0}
    for k, o, v, d in res:
        n[v] += 1
        if v is False or (v is None and "-v" in sys.argv and (len(sys.argv) < 4 or sys.argv[-1] in o.fn["name"])):
            print(v, k[-60:], o.line[0]["name"][-40:] , o.line[1], o.what, o.ty, show(o.t)[:150], d, *([[show(x)[:300] for x in o.pcs], [(y.op, y.a[-1], y.op == 'fld' and ranges.leaf_ty(y.a[0])) for y in ranges.leafset(o.t)]] if '-p' in sys.argv else []))
    print(n, time.time() - t0)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
