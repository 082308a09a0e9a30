"""Development tool: prof.py FUNC [level] [-p]  time and size of the value graphs of a function (facts of the last one.py run)"""
import sys, threading, time, cProfile, pstats, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/vg")
def size(t, terms):
    seen=set(); st=[t]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); terms._walk(x.a, st)
    return len(seen)
def main():
    import terms, sim
    from compare import Compare
    print("facts",flush=True)
    c=Compare('/tmp/bench1/spec.json','/tmp/bench1/repo.json',ticks=int(os.environ.get("TICKS", 6_000_000)),each=300,total=900)
    a=[x for x in sys.argv[1:] if x[0]!='-']
    import faulthandler; faulthandler.dump_traceback_later(90, exit=True) if "-d" in sys.argv else 0
    lv=int(a[1]) if len(a)>1 else 60
    for k in sorted(c.common):
        if k.endswith(a[0]):
            t0=time.time()
            pr=cProfile.Profile()
            if '-p' in sys.argv: pr.enable()
            s,r,e=c.pair(k,lv)
            t1=time.time()
            if s:
                comps,fn=c.compare(s,r)
                print(k,lv,f"pair {t1-t0:.1f}s compare {time.time()-t1:.1f}s ticks {terms.BUDGET[0]}", "sizes", [size(x,terms) for x in (s[0],s[1],*[y for y in s[4] if y])], [size(x,terms) for x in (r[0],r[1],*[y for y in r[4] if y])])
                for x,v in comps: print("   ",x,str(v)[:600])
            else: print(k,lv,e,f"{t1-t0:.1f}s")
            pr.disable()
            if '-p' in sys.argv: pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
            if '-c' in sys.argv:
                se,re_=c.engines(lv,frozenset())
                for n,e in (("S",se),("R",re_)):
                    for i,x in sorted(e.tm.items(),key=lambda z:-z[1])[:12] if hasattr(e,'tm') else []:
                        print(n,i,f"{x:.1f}")
threading.stack_size(512*1024*1024)
t=threading.Thread(target=main);t.start();t.join()
