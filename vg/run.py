import sys, time
sys.path.insert(0, "/verif/vg")
import threading
threading.stack_size(512 * 1024 * 1024)
from engine import *
import terms


def main():
    c = Crate(sys.argv[1], "r")
    eng = Engine(c)
    import seal, os
    lim = int(os.environ.get("LIM", "60"))
    if lim >= 0:
        eng.sealer = lambda e, i, s: seal.seal(i["name"].replace("goban::", ""), s, lim)
    pr = os.environ.get("PRE")
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    ok = bad = 0
    for it in c.items:
        if it["kind"] != "Fn" or it.get("inst") is None:
            continue
        inst = c.insts[it["inst"]]
        if pat and pat not in inst["name"]:
            continue
        if not inst.get("body"):
            continue
        t0 = time.time()
        terms.BUDGET[0] = 0
        try:
            eng.summary(inst)
            s = eng.raw.get(inst['id'])
            ok += 1
            tm = time.time() - t0
            if pat or tm > 1:
                print("OK ", inst["name"], f"{tm:.2f}")
            if pat and s:
                pc, ret, syms, roots, outs = s
                print("   pc", show(pc, 0, 9))
                print("   ret", show(ret, 0, 14))
                for r, o in zip(roots, outs):
                    if r is not None:
                        print("   out", show(o, 0, 14))
        except (Unsup, terms.TooBig) as e:
            bad += 1
            print("BAD", inst["name"], type(e).__name__, e, f"{time.time()-t0:.2f}")
        except Exception as e:
            bad += 1
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            print("ERR", inst["name"], type(e).__name__, str(e)[:200], tb.filename.split("/")[-1], tb.lineno, f"{time.time()-t0:.2f}")
            if len(sys.argv) > 3:
                traceback.print_exc()
        eng.stack.clear()
        eng.depth = 0
    print(ok, bad, sorted(eng.notes))


t = threading.Thread(target=main)
t.start()
t.join()
