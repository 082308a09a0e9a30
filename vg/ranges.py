"""C23: arithmetic and narrowing conversions against attained intervals.

Every integer operation and narrowing conversion of every library function is an obligation: its exact result lies in
the type it is computed in.  Two intervals are computed for the exact result from the value graph: one that encloses
all values (from the ranges of the types and fields it is made of) and one of values that are attained on a 19x19
board (sizes 19, coordinates 0..18, chains of up to 300 stones, ...).  The obligation is met when the enclosing
interval fits, broken when an attained value does not fit and no condition on the way excludes it, open otherwise."""
import re
from fractions import Fraction

import terms
from terms import *
from engine import Engine, Unsup
from compare import SEngine

BITS = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
        "i8": (-(2**7), 2**7 - 1), "i16": (-(2**15), 2**15 - 1), "i32": (-(2**31), 2**31 - 1), "i64": (-(2**63), 2**63 - 1),
        "isize": (-(2**63), 2**63 - 1)}
ENC = {("Group", "num_stones"): (1, 361), ("Group", "origin"): (0, 360), ("Group", "last"): (0, 360), ("Game", "passes"): (0, 255)}
ATT = {("Group", "num_stones"): (1, 300), ("Group", "origin"): (0, 360), ("Group", "last"): (0, 360)}
LENS = re.compile(r"^(plays|history|handicap_points|moves)$")
COUNTS = re.compile(r"number_of_stones|calculate_territories|get_empty_|get_territories|get_stones|get_points|get_coords")
XY = "(u8,u8)"


class Obl:
    __slots__ = ("fn", "line", "what", "ty", "t", "pcs", "pub", "rng")


class RangeEngine(SEngine):
    def __init__(self, prog, limit=60):
        super().__init__(prog, limit)
        self.obs = {}
        self.pcs = []
        self.here = None
        self.cur = []

    def block(self, fr, b, st, pc, header, hst):
        old = self.here
        self.here = (fr, b, pc)
        try:
            return super().block(fr, b, st, pc, header, hst)
        finally:
            self.here = old

    def eval_inst(self, inst, args, st):
        self.pcs.append(self.here[2] if self.here else TRUE)
        self.cur.append(inst)
        old = self.here
        try:
            return super().eval_inst(inst, args, st)
        finally:
            self.here = old
            self.pcs.pop()
            self.cur.pop()

    def summary(self, inst, preset=None):
        old = self.pcs, self.cur, self.here
        self.pcs, self.cur, self.here = [], [], None
        try:
            return super().summary(inst, preset)
        finally:
            self.pcs, self.cur, self.here = old

    def note(self, what, ty, t, ln=None):
        if ty not in BITS or self.here is None:
            return
        o = Obl()
        fr, b, pc = self.here
        o.fn = self.cur[0] if self.cur else fr.inst
        o.line = (fr.inst, ln)
        o.what, o.ty, o.t = what, ty, t
        o.pcs = tuple(p for p in self.pcs + [pc] if p is not TRUE)
        self.obs[(o.fn["id"], fr.inst["id"], b, ln, what, t, o.pcs)] = o

    def rvalue(self, fr, st, r, pty):
        k = r["r"]
        v = super().rvalue(fr, st, r, pty)
        try:
            if k in ("bin", "cbin") and r["op"].replace("Unchecked", "") in ("Add", "Sub", "Mul", "Shl"):
                x = v.a[1][0] if k == "cbin" else v
                self.note({"A": "+", "S": "-", "M": "*"}[r["op"][0]] if r["op"][:3] != "Shl" else "<<", self.optype(fr, r["a"]).s, x, self.ln)
            elif k == "cast" and r["k"] == "IntToInt":
                src, dst = self.optype(fr, r["o"]).s, self.c.ty(r["t"]).s
                if src in BITS and dst in BITS and not (BITS[dst][0] <= BITS[src][0] and BITS[src][1] <= BITS[dst][1]):
                    self.note("as", dst, self.operand(fr, st, r["o"]), self.ln)
        except Unsup:
            pass
        return v

    def call(self, inst, name, fty, args, st, dty):
        m = re.search(r"<impl (u8|u16)>::wrapping_mul$", name)
        if m and len(args) == 2:
            self.note("wrapping *", m.group(1), mul(args[0], args[1]), self.ln)
        return super().call(inst, name, fty, args, st, dty)

    ln = 0

    def run_loop(self, st0, body):
        outs = super().run_loop(st0, body)
        for l, c, s in outs:
            for r, v in s.items():
                if st0.get(r) is v or r.op != "loc":
                    continue
                ty = self.rty.get(r, "?")
                vs = [(ty, v)]
                if v.op == "S" and ty.startswith("("):
                    vs = [(a, x) for a, x in zip(REG[ty].args, v.a[1])] if REG.get(ty) is not None and REG[ty].args else []
                for ty, v in vs:
                    if ty in BITS and v.op in ("B", "poly"):
                        self.note("total", ty, v, self.ln)
        return outs


class Ranges:
    def __init__(self, names, pub):
        self.names = names  # parameter symbol -> source name
        self.pub = pub

    # enclosing interval
    def enc(self, t, tys=None, d=0):
        if t.op == "i":
            return t.a[0], t.a[0]
        if d > 40:
            return None
        if t.op == "poly":
            lo = hi = Fraction(0)
            for mono, c in t.a[0]:
                l = h = Fraction(1)
                for f in mono:
                    e = self.enc(f, None, d + 1)
                    if e is None or e[0] < 0:
                        return None
                    l, h = l * e[0], h * e[1]
                if c < 0:
                    l, h = h, l
                lo, hi = lo + c * l, hi + c * h
            return lo, hi
        if t.op == "D":
            es = [self.enc(x, None, d + 1) for x in set(leaves(t))]
            if not es or any(e is None for e in es):
                return None
            return min(e[0] for e in es), max(e[1] for e in es)
        if t.op == "fld":
            r = ENC.get(fieldname(t))
            if r:
                return r
            if sizeof(t):
                return 0, 19
        ty = leaf_ty(t)
        if t.op == "ap" and t.a[0] == "rem":
            a, b = self.enc(t.a[1][0], None, d + 1), self.enc(t.a[1][1], None, d + 1)
            if a is not None and a[0] >= 0 and b is not None and b[1] >= 1:
                return 0, min(a[1], b[1] - 1)
        if t.op == "ap" and t.a[0] == "div":
            a = self.enc(t.a[1][0], None, d + 1)
            if a is not None and a[0] >= 0:
                return 0, a[1]
        if t.op == "B" and t.a[0] == "sum" and all(o.op == "i" for o in t.a[3]):
            lvs, body = openb(t)
            e = self.enc(body[0], None, d + 1)
            n = t.a[3][1].a[0] - t.a[3][0].a[0] if len(t.a[3]) == 2 else None
            if e is not None and n is not None:
                return min(0, n * e[0]), max(0, n * e[1])
            return None
        if t.op in ("lv", "fld", "pay", "sel", "sym", "bv") and ty in BITS and ty not in ("u64", "usize", "i64", "isize"):
            return BITS[ty]
        if ty == "usize" and t.op in ("lv", "fld", "pay", "sel", "bv"):
            return 0, 2**48  # lengths, indexes and counts of what is in memory
        if t.op == "ap" and t.a[0] == "len":
            return 0, 2**48
        return None

    # attained values
    def att(self, t):
        """(lo, hi) attained for a leaf on a 19x19 board"""
        if t.op == "fld":
            r = ATT.get(fieldname(t))
            if r:
                return r
            if sizeof(t):
                return 19, 19
            b = t.a[0]
            if leaf_ty(b) == "GobanSizes":
                return 19, 19
            if leaf_ty(b) == XY:
                if b.op == "lv" or (b.op == "fld" and fieldname(b) == ("Point", "coord")) or b.op in ("pay", "sel"):
                    n = self.names.get(b, "")
                    if "size" in n or "dim" in n:
                        return 19, 19
                    if b.op == "lv" and not self.pub:
                        return None, 18
                    return 0, 18
        if t.op == "lv" and leaf_ty(t) == "usize" and re.search(r"idx|index|stone|origin|point", self.names.get(t, "")):
            return None, 276  # a point of the board or a chain: up to 277 chains fit on it
        x = t
        while x.op in ("fld", "pay", "sel") or x.op == "ap" and x.a[0] == "len":
            x = x.a[1][0] if x.op == "ap" else x.a[0]
        if x.op == "ap" and COUNTS.search(str(x.a[0])):
            return None, 300
        if t.op == "ap" and t.a[0] == "len":
            y = t.a[1][0]
            if y.op == "lv" and leaf_ty(y).startswith("[") or y.op == "fld" and LENS.search((fieldname(y) or ("", ""))[1]):
                return 0, 300
        return None

    def bound(self, t, hi, env):
        """value of t with its leaves at the corner that makes it large (hi) or small; fills env; None = unknown"""
        if t.op == "i":
            return t.a[0]
        if t.op == "poly":
            s = Fraction(0)
            for mono, c in t.a[0]:
                p = Fraction(1)
                for f in mono:
                    v = self.bound(f, hi == (c > 0), env)
                    if v is None:
                        return None
                    p *= v
                s += c * p
            return s
        if t.op == "D":
            best = None
            for path, x in dpaths(t):
                e2 = dict(env)
                v = self.bound(x, hi, e2)
                if v is None or not all(self.holds(p, e2, leafset(x) | leafset(t.a[0])) for p in path):
                    continue
                if best is None or (v > best[0]) == hi:
                    best = (v, e2)
            if best is None:
                return None
            env.update(best[1])
            return best[0]
        if t in env:
            return env[t]
        if t.op == "ap" and t.a[0] in ("div", "rem") and t.a[1][1].op == "i":
            return None
        if t.op == "B" and t.a[0] == "sum" and len(t.a[3]) == 2:
            a, b = self.bound(t.a[3][0], not hi, env), self.bound(t.a[3][1], hi, env)
            if a is None or b is None:
                return None
            lvs, body = openb(t)
            if body[0].op == "i":
                return max(0, b - a) * body[0].a[0]
            if body[0].op == "D":
                return None
            v = self.bound(body[0], hi, dict(env))
            if v is None or v < 0:
                return None
            # chains of a board share its points: one of them as large as can be
            return v
        if t.op == "lv" and t in self.names and self.names[t] == "<index>":
            return None
        r = self.att(t)
        if r is None or r[1 if hi else 0] is None:
            return None
        env[t] = r[1 if hi else 0]
        return env[t]

    def holds(self, p, env, mine):
        """the decision p = (atom, lo, hi) does not exclude the corner"""
        at, lo, hi = p
        if at.op == "disc" and at.a[0].op in ("lv", "fld", "pay", "sel", "bv"):
            return True
        ls = leafset(at)
        if not any(related(x, y) for x in ls for y in mine):
            return True
        v = self.value(at, env)
        if v is None:
            return False
        return v >= lo and (hi is None or v < hi)

    def value(self, t, env):
        if t in env:
            return env[t]
        if t.op == "i":
            return t.a[0]
        if t.op == "poly":
            s = Fraction(0)
            for mono, c in t.a[0]:
                p = Fraction(1)
                for f in mono:
                    v = self.value(f, env)
                    if v is None:
                        return None
                    p *= v
                s += c * p
            return s
        if t.op == "fld" and sizeof(t):
            return 19
        return None

    def decide(self, o):
        lo, hi = BITS[o.ty]
        e = self.enc(o.t)
        if e is not None and lo <= e[0] and e[1] <= hi:
            return True, ""
        for up in (True, False):
            env = {}
            v = self.bound(o.t, up, env)
            if v is None or (v <= hi if up else v >= lo):
                continue
            mine = leafset(o.t)
            ok = True
            for d in o.pcs:
                if not any(related(x, y) for x in leafset(d) for y in mine):
                    continue
                if not any(leaf is TRUE and all(self.holds(p, env, mine) for p in path) for path, leaf in dpaths(d)):
                    ok = False
                    break
            if ok:
                return False, f"{o.what} in {o.ty} gives {v} when " + ", ".join(f"{show(k)[:60]} = {x}" for k, x in list(env.items())[:3])
        return None, ""


def fieldname(t):
    ty = REG.get(leaf_ty(t.a[0]))
    if ty is None or not ty.fields or t.a[1] >= len(ty.fields):
        return None
    return ty.name, ty.fields[t.a[1]][0]


def sizeof(t):
    """one side of the size of a board"""
    b = t.a[0]
    return t.op == "fld" and b.op == "fld" and (fieldname(b) or ("", ""))[1] == "size"


def leaves(t):
    if t.op != "D":
        return [t]
    return [y for _, x in t.a[1] for y in leaves(x)]


def dpaths(t, path=(), n=None):
    n = n if n is not None else [0]
    if t.op != "D":
        n[0] += 1
        yield path, t
        return
    br = t.a[1]
    for i, (l, c) in enumerate(br):
        if n[0] > 200:
            return
        yield from dpaths(c, path + ((t.a[0], l, br[i + 1][0] if i + 1 < len(br) else None),), n)


LS = {}


def leafset(t):
    r = LS.get(t)
    if r is None:
        r = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("lv", "fld", "pay", "sel", "sym", "bv") or x.op == "ap" and x.a[0] == "len":
                r.add(x)
                continue
            terms._walk(x.a, st)
        LS[t] = r = frozenset(r)
    return r


def base(x):
    out = [x]
    while x.op in ("fld", "pay", "sel", "dr") and isinstance(x.a[0], T):
        x = x.a[0]
        out.append(x)
    return out


def related(x, y):
    """one is, or is read from, the other"""
    return x in base(y) or y in base(x)


def within(k, only):
    return only is None or k.split("::{closure")[0] in only


def analyse(prog, limit=60, only=None):
    """decided obligations of every function: (obligation, True / False / None, detail)"""
    e = RangeEngine(prog, limit)
    out, skipped = [], []
    for k, i in sorted(prog.by.items()):
        if not i.get("body") or "tests::" in k or not within(k, only):
            continue
        terms.BUDGET[0] = 0
        terms.LIMIT[0] = 6_000_000
        e.stack.clear()
        e.depth = 0
        e.pcs, e.cur, e.here = [], [], None
        n = set(e.obs)
        try:
            s = e.raw.get(i["id"]) if i["id"] in e.sums else None
            if s is None:
                e.summary(i)
                s = e.raw.get(i["id"])
        except (Unsup, terms.TooBig, RecursionError) as x:
            skipped.append((k, str(x)))
    return e, skipped


def decide_all(prog, e, only=None):
    res = []
    for o in e.obs.values():
        names = {}
        s = e.raw.get(o.fn["id"])
        if s is not None:
            nm = {l: n for l, n in o.fn["body"].get("names", [])}
            for n, y in enumerate(s[2]):
                names[y] = nm.get(n + 1, "")
        k = prog.ids.get(o.fn["id"]) or o.fn["name"]
        if not within(k, only):
            continue
        r = Ranges(names, k in prog.reach)
        terms.BUDGET[0] = 0
        try:
            v, d = r.decide(o)
        except (terms.TooBig, RecursionError):
            v, d = None, ""
        res.append((k, o, v, d))
    return res
