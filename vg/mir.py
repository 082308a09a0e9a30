"""Loads a gbdump JSON: canonical types, field-name normalised MIR."""
import json, re
from terms import *

SEQ_ADTS = {"Vec", "ArrayVec", "VecDeque", "SmallVec"}
INT_ADTS = {"NonMaxU16": "u16", "NonMaxU8": "u8", "NonMaxU32": "u32", "NonMaxUsize": "usize"}


def short(name):
    """last path segment of an ADT path, generics removed"""
    n = re.sub(r"<.*", "", name)
    return n.split("::")[-1]


class Crate:
    def __init__(self, path, tag, ref=None):
        d = json.load(open(path))
        self.tag = tag
        self.name = d["crate"]
        self.d = d
        self.types = d["types"]
        self.insts = d["insts"]
        self.statics = d["statics"]
        self.items = d["items"]
        self.canon_memo = {}
        self.perm = {}  # (tyidx) -> {variant: [spec index per own index]}
        self.ref = ref
        for i in range(len(self.types)):
            self.ty(i)
        self._fix_bodies()

    # ---- types
    def ty(self, i):
        if i is None:
            return REG["?"]
        r = self.canon_memo.get(i)
        if r is not None:
            return r
        t = self.types[i]
        k = t["k"]
        s = t["s"]
        if k in ("int", "uint", "float", "bool", "char", "str"):
            r = ty_simple(s, k)
        elif k == "ref" and not t["m"]:
            # a shared reference is the value it points to (no interior mutability)
            self.canon_memo[i] = REG["?"]
            r = self.ty(t["t"])
        elif k in ("ref", "ptr"):
            self.canon_memo[i] = REG["?"]
            inner = self.ty(t["t"])
            r = self._mk("&" + inner.s, "ref", (inner.s,))
            r.m = True
        elif k == "slice":
            inner = self.ty(t["t"])
            r = self._mk("[" + inner.s + "]", "seq", (inner.s,))
        elif k == "array":
            inner = self.ty(t["t"])
            r = self._mk(f"[{inner.s};{t['n']}]", "array", (inner.s,))
            r.n = t["n"]
        elif k == "tuple":
            ts = [self.ty(x) for x in t["ts"]]
            cs = "(" + ",".join(x.s for x in ts) + ")"
            r = self._mk(cs, "tuple", tuple(x.s for x in ts))
            r.fields = [(str(j), x.s) for j, x in enumerate(ts)]
        elif k == "fndef":
            r = self._mk(f"fn:{self.tag}:{i}", "fn", ())
            r.inst = (self.tag, t["inst"])
            r.name = t["name"]
        elif k == "closure":
            r = self._mk(f"closure:{self.tag}:{t['inst']}", "closure", ())
            r.inst = (self.tag, t["inst"])
            self.canon_memo[i] = r
            up = self.ty(t["upv"]) if t["upv"] is not None else None
            if up is not None and up.fields is not None:
                r.fields = list(up.fields)
        elif k == "adt":
            sn = short(t["name"])
            targs = [self.ty(a["t"]).s if "t" in a else str(a["n"]) for a in t["args"]]
            if sn in INT_ADTS:
                r = REG[INT_ADTS[sn]]
            elif sn in SEQ_ADTS:
                r = self._mk("[" + targs[0] + "]", "seq", (targs[0],))
            elif sn == "String":
                r = self._mk("String", "seq", ("char",))
            else:
                cr = t["crate"]
                pre = "" if cr == self.name or cr in ("core", "alloc", "std") else cr + "::"
                keep = [a for a in targs if not re.match(r"(alloc|Global|RandomState|BuildHasher)", a)]
                cs = pre + sn + ("<" + ",".join(keep) + ">" if keep else "")
                fresh_ = cs not in REG
                r = self._mk(cs, "adt", tuple(targs))
                r.name = pre + sn
                self.canon_memo[i] = r
                own = [(v["n"], v["d"], [(f["n"], self.ty(f["t"]).s) for f in v["fs"]]) for v in t["vs"]]
                if fresh_ or (r.vs is None and r.fields is None):
                    if t["ak"] == "enum":
                        r.vs = own
                    elif t["ak"] == "struct" and own:
                        r.fields = own[0][2]
                elif t["ak"] == "struct" and own and r.fields is not None and cr == self.name:
                    self._permute(i, r, own[0][2])
        else:
            r = self._mk("other:" + s[:60], "other", ())
        self.canon_memo[i] = r
        return r

    def _mk(self, cs, k, args):
        if cs not in REG:
            t = ty_simple(cs, k)
            t.args = args
            t.name = cs
        return REG[cs]

    def _permute(self, i, r, own):
        """map own field order onto the reference's (by name, then by unique type)"""
        ref = r.fields
        if [f[0] for f in own] == [f[0] for f in ref]:
            return
        names = {f[0]: j for j, f in enumerate(ref)}
        m = [None] * len(own)
        used = set()
        for j, f in enumerate(own):
            if f[0] in names:
                m[j] = names[f[0]]
                used.add(m[j])
        for j, f in enumerate(own):
            if m[j] is None:
                c = [x for x in range(len(ref)) if x not in used and ref[x][1] == f[1]]
                o = [x for x in range(len(own)) if m[x] is None and own[x][1] == f[1]]
                if len(c) == len(o) and c:
                    m[j] = c[o.index(j)]
                    used.add(m[j])
        nxt = len(ref)
        for j, f in enumerate(own):
            if m[j] is None:
                m[j] = nxt
                # extra field known only to this crate
                r.fields = list(r.fields) + [("+" + f[0], f[1])]
                nxt += 1
        self.perm[i] = m

    def base_ty(self, tidx, place):
        pass

    # ---- body normalisation
    def _fix_bodies(self):
        self.body = {}
        for ins in self.insts:
            if not ins or not ins.get("body"):
                continue
            b = ins["body"]
            for blk in b["blocks"]:
                self._boxes(blk)
            if self.perm:
                for blk in b["blocks"]:
                    self._fix(b, blk)

    def _boxes(self, blk):
        """`vec![..]` writes its elements through a transmuted box pointer: make it a plain assignment"""
        st = blk["st"]
        if not any(x["s"] == "=" and x["r"]["r"] == "cast" and x["r"]["k"] == "BoxDerefTransmute" for x in st):
            return
        ptr = {}
        out = []
        for x in st:
            if x["s"] == "=" and x["r"]["r"] == "cast" and x["r"]["k"] == "BoxDerefTransmute":
                ptr[x["p"]["l"]] = x["r"]["o"]["p"]["l"]
                continue
            if x["s"] == "=" and x["p"]["l"] in ptr and x["p"]["p"][:1] == ["*"]:
                x = dict(x, p={"l": ptr[x["p"]["l"]], "p": []})
            out.append(x)
        blk["st"] = out

    def _fix(self, b, x):
        if isinstance(x, dict):
            if "l" in x and "p" in x and isinstance(x["p"], list):
                self._fix_place(b, x)
                return
            if x.get("r") == "agg" and x["k"]["k"] == "adt" and x["k"]["t"] in self.perm and x["k"].get("af") is None:
                m = self.perm[x["k"]["t"]]
                n = max(m) + 1
                os_ = [None] * n
                for j, o in enumerate(x["os"]):
                    os_[m[j]] = o
                x["os"] = [o if o is not None else {"o": "bot"} for o in os_]
            if x.get("k") == "adt" and "vi" in x and x.get("t") in self.perm:
                m = self.perm[x["t"]]
                fs = [{"k": "?"}] * (max(m) + 1)
                for j, o in enumerate(x["fs"]):
                    fs[m[j]] = o
                x["fs"] = fs
            for v in x.values():
                self._fix(b, v)
        elif isinstance(x, list):
            for v in x:
                self._fix(b, v)

    def _fix_place(self, b, p):
        t = b["locals"][p["l"]]
        dc = None
        for e in p["p"]:
            td = self.types[t] if t is not None else {}
            if e == "*":
                t = td.get("t")
                dc = None
            elif "f" in e:
                if t in self.perm and dc is None:
                    e["f"] = self.perm[t][e["f"]]
                t = e["t"]
                dc = None
            elif "dc" in e:
                dc = e["dc"]
            elif "ix" in e or "ci" in e:
                a = td.get("args")
                t = td["t"] if td.get("k") in ("slice", "array") else (a[0]["t"] if a else None)
            elif "sub" in e:
                pass


def strip_generics(n):
    """remove turbofish arguments, keep `<impl ..>` and `<T as Trait>` segments"""
    out = []
    i = 0
    while i < len(n):
        if n.startswith("::<", i) and not n.startswith("::<impl ", i):
            d = 0
            j = i + 2
            while j < len(n):
                if n[j] == "<":
                    d += 1
                elif n[j] == ">" and n[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(n[i])
            i += 1
    return "".join(out)


_CN = {}


def canon_name(n):
    r = _CN.get(n)
    if r is None:
        m = n.replace("goban::bitflags::core::", "std::").replace("bitflags::core::", "std::")
        m = m.replace("core::", "std::") if m.startswith("core::") else m
        r = _CN[n] = strip_generics(m)
    return r
