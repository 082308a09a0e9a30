"""Compares the value graph of every repository function with the reference semantics."""
import re, time, sys
from engine import *
import terms, seal
from sim import Sim, SAME, UNK, DEF, Res, dif, unk
from mir import Crate
from par import pmap

LEVELS = (60, 8, 400, -1)


def keyof(inst):
    n = inst["name"]
    if "{closure" in n or n.endswith(" as std::fmt::Debug>::fmt"):
        return None
    return n


class Program:
    """one crate: instances by key, local call graph, canonical MIR text"""

    def __init__(self, path, tag):
        self.c = Crate(path, tag)
        self.by = {}
        self.tycan = {}
        for i in self.c.insts:
            if i and i["local"] and i["kind"] == "Item" and i.get("body"):
                k = keyof(i)
                if k:
                    self.by.setdefault(k, i)
        self.ids = {i["id"]: k for k, i in self.by.items()}
        self.reach = set()
        for it in self.c.items:
            if it["reach"] and it.get("inst") is not None:
                self.reach.add(self.c.insts[it["inst"]]["name"])
        for g in self.c.d.get("generics", []):
            if g["reach"]:
                for n in g["insts"]:
                    self.reach.add(self.c.insts[n]["name"])
        for k in self.by:
            # implementations of another library's traits are handed to it
            m = re.search(r"(?: as |<impl )([a-z_0-9]+)::", k)
            if m and m.group(1) not in ("goban", "std", "core", "alloc"):
                self.reach.add(k)
        self.uses_memo = {}
        self.text_memo = {}

    def sig(self, k):
        b = self.by[k]["body"]
        return tuple(re.sub(r"closure:[sr]:\d+", "closure", self.c.ty(t).s) for t in b["locals"][: b["argc"] + 1])

    def hands_out_closure(self, k):
        """the result carries code of this crate: it is never exchanged for the reference's"""
        b = self.by[k]["body"]
        return "closure:" in self.c.ty(b["locals"][0]).s or "fn:" in self.c.ty(b["locals"][0]).s

    # -------------------------------------------------------- references made by a body
    def refs(self, inst):
        """instances mentioned by a body: callees, function values, closures"""
        r = self.uses_memo.get(inst["id"])
        if r is not None:
            return r
        out = {}
        ts = self.c.types

        def ty(n):
            if isinstance(n, int) and 0 <= n < len(ts):
                t = ts[n]
                if t["k"] in ("fndef", "closure") and t.get("inst") is not None:
                    out[t["inst"]] = 1

        def walk(x):
            if isinstance(x, dict):
                if "fty" in x:
                    ty(x["fty"])
                if x.get("k") == "closure" and "t" in x:
                    ty(x["t"])
                if x.get("o") == "c":
                    ty(x["c"]["t"])
                if x.get("k") == "fnptr" and x.get("inst") is not None:
                    out[x["inst"]] = 1
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)

        walk(inst["body"]["blocks"])
        # closures handed to generic library code are instantiated with the types of the arguments
        for t in inst["body"]["locals"]:
            ty(t)
        self.uses_memo[inst["id"]] = list(out)
        return self.uses_memo[inst["id"]]

    def callees(self, k):
        """keys of local functions called from the body of k, through closures and library code"""
        seen, out = set(), set()
        st = [self.by[k]["id"]]
        first = True
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            i = self.c.insts[n]
            if i is None:
                continue
            kk = self.ids.get(n)
            if kk is not None and not first:
                out.add(kk)
                continue
            first = False
            if i.get("body"):
                st += self.refs(i)
            # trait methods of local types reached through library code (sort, hash, clone ...)
            for a in i.get("args") or []:
                if isinstance(a, dict) and "t" in a:
                    t = self.c.types[a["t"]]
                    if t["k"] == "closure" and t.get("inst") is not None:
                        st.append(t["inst"])
                    if t["k"] == "fndef" and t.get("inst") is not None:
                        st.append(t["inst"])
        return out

    # -------------------------------------------------------- canonical text of a body
    def tname(self, n):
        if n is None:
            return "?"
        r = self.tycan.get(n)
        if r is None:
            t = self.c.types[n]
            if t["k"] == "closure":
                r = "closure:" + t["name"]
            elif t["k"] == "fndef":
                ins = self.c.insts[t["inst"]] if t.get("inst") is not None else None
                r = "fn:" + (ins["name"] if ins else t["s"])
            else:
                r = t["s"]
            r = self.tycan[n] = re.sub(r"\{closure@[^}]*\}", "{closure}", r)
        return r

    def text(self, inst):
        r = self.text_memo.get(inst["id"])
        if r is not None:
            return r
        b = inst["body"]
        clos = []

        def can(x):
            if isinstance(x, dict):
                o = []
                for k in sorted(x):
                    v = x[k]
                    if k in ("ln", "names", "sp", "file", "line"):
                        continue
                    if k in ("t", "fty") and isinstance(v, int) and not isinstance(v, bool):
                        td = self.c.types[v]
                        if td["k"] == "closure":
                            clos.append(td["inst"])
                        o.append(f"{k}:{self.tname(v)}")
                    elif k == "inst" and isinstance(v, int):
                        o.append(k + ":" + self.c.insts[v]["name"])
                    else:
                        o.append(f"{k}:{can(v)}")
                return "{" + ",".join(o) + "}"
            if isinstance(x, list):
                return "[" + ",".join(can(v) for v in x) + "]"
            return repr(x)

        o = [str(b["argc"]), repr(b["spread"]), "|".join(self.tname(t) for t in b["locals"])]
        for blk in b["blocks"]:
            o.append("[" + ",".join(can(s) for s in blk["st"]) + "]")
            t = blk["t"]
            tt = {k: v for k, v in t.items() if k != "t"}
            o.append(can(tt) + "->" + repr(t.get("t")))
        for t in b["locals"]:
            td = self.c.types[t]
            if td["k"] == "closure":
                clos.append(td["inst"])
        txt = "\n".join(o)
        for n in sorted(set(clos), key=lambda n: self.c.insts[n]["name"]):
            i = self.c.insts[n]
            if i and i.get("body") and n != inst["id"]:
                txt += "\n" + i["name"] + "\n" + self.text(i)
        txt = re.sub(r"\{closure@[^}]*\}", "{closure}", txt)
        self.text_memo[inst["id"]] = txt
        return txt


class SEngine(Engine):
    def __init__(self, prog, limit, unsealed=()):
        super().__init__(prog.c)
        self.prog = prog
        self.limit = limit
        self.unsealed = set(unsealed)
        self.sealer = self._seal
        self.want_items = True

    def _seal(self, e, inst, s):
        k = self.prog.ids.get(inst["id"])
        if self.limit < 0 or k is None or k in self.unsealed:
            return s
        return seal.seal(k.replace("goban::", ""), s, self.limit)


class REngine(Engine):
    """repository engine: callees assumed equal to the reference use the reference's summary"""

    def __init__(self, prog, seng, common, unsealed=()):
        super().__init__(prog.c)
        self.prog = prog
        self.seng = seng
        self.common = common
        self.unsealed = set(unsealed)
        self.own = None
        self.want_items = True

    def summary(self, inst, preset=None):
        k = self.prog.ids.get(inst["id"])
        if k is not None and k != self.own and k in self.common and not self.prog.hands_out_closure(k) and k not in self.unsealed and self.seng.limit >= 0:
            return self.seng.summary(self.seng.prog.by[k])
        return super().summary(inst, preset)

    def fresh_summary(self, k, preset):
        inst = self.prog.by[k]
        self.own = k
        self.sums.pop(inst["id"], None)
        self.raw.pop(inst["id"], None)
        try:
            Engine.summary(self, inst, preset)
            return self.raw.get(inst["id"])
        finally:
            self.own = None


class Compare:
    def __init__(self, spath, rpath, ticks=6_000_000, deep=False, each=60, total=150):
        self.S = Program(spath, "s")
        self.R = Program(rpath, "r")
        self.ticks = ticks
        self.deep = deep
        self.common = {k for k in self.S.by if k in self.R.by and self.S.sig(k) == self.R.sig(k)}
        self.missing = sorted(k for k in self.S.by if k not in self.common)
        self.cs = {k: self.S.callees(k) for k in self.S.by}
        self.cr = {k: self.R.callees(k) for k in self.R.by}
        self.A = {}
        self.engs = {}
        self.stats = {"identical": 0, "graph": 0, "undecided": 0, "different": 0}
        self.times = {}
        self.dmemo = {}
        self.ident = set()
        self.each = each
        self.deadline = time.time() + total

    # ------------------------------------------------------------ plumbing
    def engines(self, limit, unsealed=frozenset()):
        k = (limit, unsealed)
        if k not in self.engs:
            se = SEngine(self.S, limit, unsealed)
            self.engs[k] = (se, REngine(self.R, se, self.common, unsealed))
        return self.engs[k]

    def order(self, keys=None):
        keys = self.common if keys is None else keys
        seen, out = set(), []

        def go(k):
            st = [(k, iter(sorted(self.cs.get(k, set()) | self.cr.get(k, set()))))]
            seen.add(k)
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(sorted(self.cs.get(v, set()) | self.cr.get(v, set())))))
                        break
                else:
                    out.append(u)
                    st.pop()

        for k in sorted(keys):
            if k not in seen:
                go(k)
        return [k for k in out if k in self.common]

    def closure(self, roots):
        seen = set()
        st = [r for r in roots]
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            st += list(self.cs.get(k, ())) + list(self.cr.get(k, ()))
        return seen

    # ------------------------------------------------------------ one function
    def pair(self, k, limit, unsealed=frozenset()):
        """raw summaries of both sides with common parameters"""
        se, re_ = self.engines(limit, unsealed)
        terms.BUDGET[0] = 0
        terms.LIMIT[0] = self.ticks
        for e in (se, re_):
            e.stack.clear()
            e.depth = 0
        si = self.S.by[k]
        try:
            se.summary(si)
            s = se.raw.get(si["id"])
            if s is None:
                return None, None, "not summarised"
            terms.BUDGET[0] = 0
            r = re_.fresh_summary(k, (s[2], s[3]))
            if r is None:
                return None, None, "not summarised"
        except (Unsup, terms.TooBig, RecursionError) as x:
            return None, None, f"{type(x).__name__} {x}"
        except Exception as x:  # an idiom the models do not know
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            return None, None, f"{type(x).__name__} {x} at {tb.filename.split('/')[-1]}:{tb.lineno}"
        return s, r, None

    def components(self, sim, s, r):
        """[(component, verdict)]"""
        out = []
        names = {}

        def split(path, a, b, d):
            if a is b:
                return
            if d < 3 and a.op == "S" and b.op == "S" and a.a[0] == b.a[0] and not a.a[0].startswith("closure"):
                ty = REG.get(a.a[0])
                for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                    nm = ty.fields[i][0] if ty is not None and ty.fields and i < len(ty.fields) else str(i)
                    if nm.startswith("+"):
                        continue
                    split(path + "." + nm, x, y, d + 1)
                return
            if d < 3 and (a.op == "S") != (b.op == "S"):
                ref = a if a.op == "S" else b
                fa, fb = fields_of(a, ref), fields_of(b, ref)
                if fa is not None and fb is not None and len(fa) == len(fb):
                    ty = REG.get(ref.a[0])
                    for i, (x, y) in enumerate(zip(fa, fb)):
                        nm = ty.fields[i][0] if ty is not None and ty.fields and i < len(ty.fields) else str(i)
                        if not nm.startswith("+"):
                            split(path + "." + nm, x, y, d + 1)
                    return
            v = both(a, b)
            if v.v != SAME:
                out.append((path, v))

        def both(a, b):
            try:
                v = sim.value(a, b)
            except terms.TooBig:
                return unk("too big")
            if v.v != SAME and (s[0] is not TRUE or r[0] is not TRUE):
                # what a call that does not return leaves behind does not matter
                try:
                    v2 = sim.value(ite(nobot(s[0]), a, BOT), ite(nobot(r[0]), b, BOT))
                except terms.TooBig:
                    return v if v.v == UNK else unk("too big under the condition of return: " + v.why)
                if v2.v != v.v or v.v == DEF:
                    return v2
            return v

        split("ret", s[1], r[1], 0)
        for i, (x, y) in enumerate(zip(s[4], r[4])):
            if x is not None and y is not None:
                split(f"arg{i}", x, y, 0)
        # panics
        pa, pb = nobot(s[0]), nobot(r[0])
        if pa is not pb:
            try:
                v = sim.value(pa, pb)
            except terms.TooBig:
                v = unk("too big")
            if v.v == DEF and not (all(sim.interp(x) for x in list(atoms_(pa)) + list(atoms_(pb))) or v.path and all(sim.interp(p[0]) for p in v.path)):
                v = unk("panic condition: " + v.why)
            if v.v != SAME:
                out.append(("panics", v))
        return out

    def named(self, fn):
        """keys of the functions behind the names of opaque symbols"""
        out = set()
        for f in fn:
            best = max((k for k in self.common if f.startswith(k.replace("goban::", "")) and f[len(k.replace("goban::", "")):][:1] in ("", ".", "@", "#", "!")), key=len, default=None)
            if best:
                out.add(best)
        return out

    def rets(self, lim, unsealed):
        """what the functions behind opaque symbols return"""
        se = self.engines(lim, unsealed)[0]

        def get(f):
            ks = self.named({f})
            for k in ks:
                raw = se.raw.get(self.S.by[k]["id"])
                if raw is not None:
                    return raw[1], f[len(k.replace("goban::", "")):]
            return None, ""

        return get

    def compare(self, s, r, rets=None):
        terms.BUDGET[0] = 0
        sim = Sim(s[2])
        sim.rets = rets
        try:
            comps = self.components(sim, s, r)
        except terms.TooBig:
            comps = [("all", unk("too big"))]
        for _, v in comps:
            v.path = ()
        return comps, sim.fnames

    def decide(self, k, limits=LEVELS, unsealed=frozenset()):
        """components that differ: list of (component, Res); [] when equal"""
        best = None
        t0 = time.time()
        end = t0 + 0.8 * self.each
        for lim in limits:
            if best is not None and time.time() - t0 > 0.6 * self.each:
                break
            terms.UNTIL[0] = end
            s, r, err = self.pair(k, lim, unsealed)
            if err is not None:
                if best is None:
                    best = [("all", unk(err))]
                continue
            comps, fn = self.compare(s, r, self.rets(lim, unsealed))
            if not comps:
                return []
            more = unsealed
            n = 0
            terms.UNTIL[0] = min(end, time.time() + 0.35 * self.each)
            while any(c[1].v == DEF for c in comps) and not any(c[1].v == DEF and not c[1].soft for c in comps) and fn and lim >= 0:
                # a condition the callee decides: look into it before a difference is claimed
                m2 = more | self.named(fn)
                n += 1
                if m2 == more:
                    comps = [(c, unk("unconfirmed: " + v.why) if v.v == DEF and v.soft > 1 else v) for c, v in comps]
                    break
                err = "depth"
                if n < 5:
                    more = m2
                    s, r, err = self.pair(k, lim, more)
                    if err is None:
                        c2, fn = self.compare(s, r, self.rets(lim, more))
                        if any(c[1].v == UNK and "too big" in c[1].why for c in c2) and not any(c[1].v == DEF for c in c2):
                            err = "too big"
                        else:
                            comps = c2
                if err is not None:
                    comps = [(c, unk("unconfirmed: " + v.why) if v.v == DEF and v.soft else v) for c, v in comps]
                    break
            if not comps:
                return []
            d = [c for c in comps if c[1].v == DEF]
            if d:
                return comps
            if best is None or best[0][0] == "all":
                best = comps
        return best

    # ------------------------------------------------------------ whole program
    def many(self, tasks):
        """decide(*t) for every task, each in its own process"""
        def fb(t, why):
            return [("all", unk(why))]
        todo = [t for t in tasks if t not in self.dmemo]
        t0 = time.time()
        for t, r in zip(todo, pmap(todo, lambda t: self.decide(*t), self.each, self.deadline, fallback=fb)):
            self.dmemo[t] = r
        return [self.dmemo[t] for t in tasks]

    def run(self, roots=None):
        keys = self.common if roots is None else (self.closure(roots) & self.common)
        todo = []
        for k in self.order(keys):
            if k in self.A:
                continue
            if (
                not self.deep
                and self.S.text(self.S.by[k]) == self.R.text(self.R.by[k])
                and self.cs[k] == self.cr[k]
                and all(c in self.common for c in self.cs[k])
            ):
                self.A[k] = []
                self.ident.add(k)
                self.stats["identical"] += 1
                continue
            todo.append(k)
        if self.deep:
            for lim in LEVELS[:1]:
                se, _ = self.engines(lim, frozenset())
                for k in self.order(keys):
                    terms.BUDGET[0] = 0
                    terms.LIMIT[0] = self.ticks
                    try:
                        se.summary(self.S.by[k])
                    except Exception:
                        se.stack.clear()
                        se.depth = 0
        for k, r in zip(todo, self.many([(k,) for k in todo])):
            self.A[k] = r
            self.stats["graph"] += 1
            if r:
                self.stats["different" if any(c[1].v == DEF for c in r) else "undecided"] += 1
        return self.A

    def verdicts(self):
        """confirmed differences: [(function, component, Res, note)]"""
        D = {k: v for k, v in self.A.items() if v}
        out = []
        order = [k for k in self.order() if k in D]
        confirmed = {}
        pre = []
        for k in order:
            below = {c for c in self.closure(self.cs[k] | self.cr[k]) if c in D and c != k}
            if below:
                pre.append((k, (60, -1), frozenset(below)))
        self.many(pre)
        for k in order:
            defs = [c for c in D[k] if c[1].v == DEF]
            below = {c for c in self.closure(self.cs[k] | self.cr[k]) if c in D and c != k}
            if below:
                # callees differ as well: decide with their bodies inlined on both sides
                comps = self.many([(k, (60, -1), frozenset(below))])[0]
                if comps is None or comps and comps[0][0] == "all":
                    continue
                defs2 = [c for c in comps if c[1].v == DEF]
                if not comps:
                    confirmed[k] = []
                    continue
                if defs:
                    confirmed[k] = defs2
                elif defs2:
                    confirmed[k] = defs2
                continue
            if defs:
                confirmed[k] = defs
        for k, defs in confirmed.items():
            if not defs:
                continue
            if k in self.S.reach:
                for c, r in defs:
                    out.append((k, c, r, "public"))
                continue
            for pan in (False, True):
                ds = [d for d in defs if (d[0] == "panics") == pan]
                up = self.exposed(k, D, set(), pan) if ds else None
                if up is not None:
                    out += [(k, c, r, up) for c, r in ds]
        return out

    def callers(self, k):
        return sorted(c for c in self.common if k in self.cs[c] or k in self.cr[c])

    def exposed(self, k, D, seen, pan=False):
        """is the difference of private function k visible through the public interface?"""
        if k in seen:
            return None
        seen.add(k)
        cand = None
        for g in self.callers(k):
            if k in self.cs[g] and k not in self.cr[g]:
                continue  # the caller does not use it any more
            comps = self.many([(g, (60,), frozenset({k} | {c for c in self.closure(self.cs[g] | self.cr[g]) if c in D}))])[0]
            if not comps:
                continue  # the callers are not affected
            d = [c for c in comps if c[1].v == DEF and (c[0] == "panics") == pan]
            if pan and not d:
                continue
            und = not d
            if und and D.get(g):
                continue
            if g in self.S.reach:
                return f"reached from {g}"
            r = self.exposed(g, D, seen, pan)
            if r is not None:
                return r
        return None


def atoms_(t):
    from sim import atoms
    return atoms(t)


def main():
    import os
    t0 = time.time()
    cmp = Compare(sys.argv[1], sys.argv[2], deep=bool(os.environ.get("DEEP")))
    t1 = time.time()
    cmp.run()
    if cmp.missing:
        print("missing:", cmp.missing)
    for k, v in cmp.A.items():
        if v:
            for c, r in v:
                print("  A", k.replace("goban::", ""), c, r)
    vs = cmp.verdicts()
    for k, c, r, n in vs:
        print("DIFF", k.replace("goban::", ""), c, r.why[:300], "|", n)
    print(len(vs), "differences;", cmp.stats, f"load {t1-t0:.1f}s total {time.time()-t0:.1f}s")


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
