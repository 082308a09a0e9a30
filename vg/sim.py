"""Decides whether two value graphs are the same function, certainly different, or undecided.

SAME   the normal forms agree wherever the reference is defined
DEF    they differ at a place where the difference is expressible (a feasible set of decisions over
       values the caller controls leads to different scalars, a missing update, ...)
UNK    the two are built differently and nothing can be said
"""
import itertools, math, re
from fractions import Fraction
from terms import *
import terms

SAME, UNK, DEF = 0, 1, 2
MAXPATH = 4000
DBG = __import__('os').environ.get('SIMDBG')


class Res:
    __slots__ = ("v", "why", "kind", "soft", "path")

    def __init__(self, v, why="", kind="scalar", soft=0, path=()):
        self.path = path  # the decisions under which the difference shows
        self.v = v
        self.why = why
        self.kind = kind
        self.soft = soft  # depends on what opaque callees decide: claimed only after looking into them

    def re(self, why):
        return Res(self.v, why, self.kind, self.soft, self.path)

    def __repr__(self):
        return ("SAME", "UNK", "DEF")[self.v] + (" " + self.why if self.why else "")


OK = Res(SAME)


def unk(w):
    return Res(UNK, w)


def dif(w, kind="scalar"):
    return Res(DEF, w, kind)


def replace(t, m, memo=None):
    """replace arbitrary sub-terms (atoms included)"""
    if memo is None:
        memo = {}
    hold = {}

    def has(x):
        r = hold.get(x)
        if r is None:
            if x in m:
                r = True
            else:
                ch = []
                terms._walk(x.a, ch)
                r = any(has(y) for y in ch)
            hold[x] = r
        return r

    def rec(x):
        if x in m:
            return m[x]
        if not x.a or not has(x):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "D" and x.a[0] in m:
                v = m[x.a[0]]
                ch = [(lo, rec(c)) for lo, c in x.a[1]]
                res = ch[0][1]
                for lo, c in ch[1:]:
                    res = ite(cmpT("ge", v, I(lo)), c, res)
                r = res
            else:
                r = rebuild(x, rec)
            memo[x] = r
        return r

    return rec(t)


def atoms(t):
    out, seen = {}, set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == "D" and x not in seen:
            seen.add(x)
            out[x.a[0]] = 1
            for _, c in x.a[1]:
                st.append(c)
    return out


EFFECT = re.compile(r"^(insert|insert_full|insert_before|replace|push|push_back|append|extend|remove|swap_remove\w*|shift_remove\w*|shift_insert|take|pop|pop_first|pop_last|pop_front|pop_back|clear|truncate|init|drain|retain|split_off|reverse|rotate_left|rotate_right|fill|resize|shuffle|swap_indices|move_index)$")


def updbase(t):
    """(what a collection was before its last update, name of the update)"""
    if t.op != "ap" or not t.a[1]:
        return None
    n, i = t.a[0], 0
    m = re.match(r"upd(\d*):(.*)$", n)
    if m:
        n = re.sub(r"<.*", "", m.group(2)).rstrip(":").split("::")[-1]
        i = int(m.group(1) or 0)
    elif n not in ("insert", "truncate", "init"):
        return None
    if not EFFECT.match(n) or i >= len(t.a[1]):
        return None
    return t.a[1][i], n


def updchain(t):
    out = []
    while True:
        u = updbase(t)
        if u is None:
            return out
        t = u[0]
        out.append(u)


# what a foreign function may answer without restriction: any record may be given to the parser
FREE_CALLS = {"call:sgf_parser::parse", "elems"}
INTERP_AP = {"len", "card", "div", "rem", "streq", "haskey", "lookup", "fdiv", "not", "floor", "ceil", "round", "trunc"}
# declared invariants of the data types: (type, field) -> (lo, hi)
FIELD_RANGE = {
    ("Game", "passes"): (0, 2),
    ("Game", "handicap"): (0, 255),
    ("Group", "num_stones"): (1, 361),
    ("Group", "origin"): (0, 360),
    ("Group", "last"): (0, 360),
}


class Sim:
    def __init__(self, params, budget=60000):
        self.nest = self.unis = 0
        self.params = set(params)
        self.free = set(params)  # variables that range freely (parameters, loop indices)
        self.idx = set()  # loop indices
        self.pmemo = {}
        self.tmemo = {}
        self.amemo = {}
        self.state = set()  # loop-carried variables: they have invariants we do not know
        self.rng = {}  # loop index -> (lo, hi)
        self.memo = {}
        self.imemo = {}
        self.fmemo = {}
        self.dmemo = {}
        self.budget = budget
        self.depth = 0
        self.rets = None  # name -> value an opaque function returns, rest of the name
        self.fnames = set()  # opaque functions in the conditions of the differences found

    # ------------------------------------------------------------ interpretability
    def interp(self, t):
        r = self.imemo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "lv":
            r = t in self.free
        elif op in ("i", "q", "str", "ch", "bot", "table", "sym"):
            r = op != "sym"
        elif op in ("B", "bv", "inf", "ref", "IT", "st"):
            r = False
        elif op == "ap":
            n = t.a[0]
            r = (n in INTERP_AP or n in FREE_CALLS or n.startswith("cmp:")) and all(self.interp(x) for x in t.a[1])
        else:
            ch = []
            terms._walk(t.a, ch)
            r = all(self.interp(c) for c in ch)
        if op != "lv":
            self.imemo[t] = r
        return r

    def dataread(self, t, st=True):
        """made of values found in the caller's data, at whatever index"""
        r = self.dmemo.get((t, st))
        if r is None:
            r = self._dataread(t, st)
            if r or not t.fs:
                self.dmemo[t, st] = r
        return r

    def _dataread(self, t, st):
        if self.interp(t):
            return True
        if t.op == "sel":
            return self.dataread(t.a[0], st) or st and t.a[0] in self.state
        if t.op == "ap" and (t.a[0] in INTERP_AP or t.a[0] in FREE_CALLS) or t.op in ("fld", "pay", "disc", "bit", "fsg", "poly"):
            ch = []
            terms._walk(t.a, ch)
            return bool(ch) and all(self.dataread(c, st) for c in ch)
        return False

    def interpf(self, t):
        """interpretable but for results of program functions"""
        r = self.fmemo.get(t)
        if r is None:
            r = self.fmemo[t] = self._interpf(t)
        return r

    def _interpf(self, t):
        if t.op == "ap" and t.a[0].startswith("F:") or self.interp(t):
            return True
        if t.op in ("B", "bv", "inf", "ref", "IT", "st", "sym", "lv") or t.op == "ap" and not (t.a[0] in INTERP_AP or t.a[0].startswith("cmp:")):
            return False
        ch = []
        terms._walk(t.a, ch)
        return bool(ch) and all(self.interpf(c) for c in ch)

    # ------------------------------------------------------------ entry points
    def value(self, a, b):
        """a: reference, b: repository"""
        if a is b or a is BOT or b is BOT:
            return OK
        k = (a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.budget -= 1
        terms.tick()
        if self.budget < 0:
            return unk("budget")
        if self.depth > 200:
            return unk("depth")
        self.depth += 1
        try:
            r = self._value(a, b)
        finally:
            self.depth -= 1
        self.memo[k] = r
        return r

    def all(self, rs):
        """conjunction of component verdicts"""
        worst = OK
        for r in rs:
            if r.v == DEF:
                if worst.v != DEF or worst.soft > r.soft or worst.soft == r.soft and (worst.kind == "struct" and r.kind == "scalar"):
                    worst = r
            elif r.v == UNK and worst.v == SAME:
                worst = r
        return worst

    def _value(self, a, b):
        if a.op == "S" or b.op == "S":
            return self.struct(a, b)
        if a.op == "E" or b.op == "E":
            return self.enum(a, b)
        if a.op == "D" or b.op == "D":
            return self.dec(a, b)
        return self.leaf(a, b)

    def struct(self, a, b):
        ref = a if a.op == "S" else b
        fa, fb = fields_of(a, ref), fields_of(b, ref)
        if fa is None or fb is None:
            return unk("shape")
        if a.op == "S" and b.op == "S" and a.a[0] != b.a[0] and not (a.a[0].startswith("closure") and b.a[0].startswith("closure")):
            return unk("types")
        if len(fa) != len(fb):
            n = min(len(fa), len(fb))
            if a.a[0].startswith("closure"):
                return unk("closure captures")
            fa, fb = fa[:n], fb[:n]
        ty = REG.get(ref.a[0])
        out = []
        for i, (x, y) in enumerate(zip(fa, fb)):
            if x is y:
                continue
            r = self.value(x, y)
            if r.v != SAME:
                nm = ty.fields[i][0] if ty is not None and ty.fields and i < len(ty.fields) else str(i)
                if nm.startswith("+"):
                    continue
                r = r.re(f".{nm}: {r.why}")
            out.append(r)
        return self.all(out)

    def enum(self, a, b):
        tys = a.a[0] if a.op == "E" else b.a[0]
        da, pa = enum_parts(a, tys)
        db, pb = enum_parts(b, tys)
        if da is None or db is None:
            return unk("enum shape")
        out = []
        r = self.value(da, db)
        if r.v != SAME:
            out.append(r.re(f"variant of {tys}: {r.why}"))
        ty = REG.get(tys)
        for k in sorted(set(pa) & set(pb)):
            for i, (x, y) in enumerate(zip(pa[k], pb[k])):
                if x is y:
                    continue
                r = self.value(x, y)
                if r.v != SAME:
                    out.append(r.re(f"#{ty.vs[k][0] if ty and ty.vs else k}.{i}: {r.why}"))
                    if r.v == DEF:
                        break
        return self.all(out)

    # ------------------------------------------------------------ decisions
    def dec(self, a, b):
        A, B = atoms(a), atoms(b)
        oa = [x for x in A if x not in B]
        ob = [x for x in B if x not in A]
        ba = [x for x in oa if not self.interp(x)]
        bb = [x for x in ob if not self.interp(x)]
        if ba or bb:
            r = self.pairing(a, b, oa, ob)
            if r is not None:
                return r
        res = self.paths(a, b, set(ba), set(bb), ob, oa)
        if oa and ob and (res.v == UNK or res.v == DEF and res.soft):
            r = self.uniform(a, b)
            if r is not None:
                return r
        if res.v == DEF and res.soft and not ob and self.dropped(a, b, oa):
            # the reference tests nothing in vain: wherever its answer hangs on a condition, both outcomes occur
            return Res(DEF, "a condition is not looked at: " + res.why, res.kind, 0, res.path)
        return res

    def uniform(self, a, b):
        """one value was replaced by another one wherever the reference uses it"""
        if self.nest > 3 or self.unis > 60:
            return None
        self.unis += 1
        pairs = set()
        ok = antiunify(a, b, pairs, [1500])
        if DBG:
            print("UNI", ok, len(pairs), [(show(x, 0, 6)[:300], show(y, 0, 6)[:300]) for x, y in list(pairs)[:3]])
        if not ok or not 1 <= len(pairs) <= 2:
            return None
        m = dict(pairs)
        if a in m or len(m) != len(pairs) or replace(a, m) is not b:
            return None
        self.nest += 1
        rs = [self.value(x, y) for x, y in pairs]
        self.nest -= 1
        r = self.all(rs)
        return r.re("throughout: " + r.why) if r.v == DEF else None

    def dropped(self, a, b, oa):
        """plain values chosen by conditions of the reference, one of which is not tested at all"""
        # (not where another call is consulted as well: it may look at the same thing)
        calls = {c for p in self.allatoms(a) for c in fcalls(p)}
        return len(calls) == 1 and any(dom(p) == (0, 1) and fcalls(p) for p in oa) and all(x.op in ("i", "q") or x is BOT for t in (a, b) for x in dleaves(t))

    def pairing(self, a, b, oa, ob):
        """one atom of the reference was replaced by another one"""
        n = 0
        found = []
        cur = b
        for q in list(ob):
            near = []
            for p in list(oa):
                if p.op != q.op or dom(p) != dom(q):
                    continue
                n += 1
                if n > 40:
                    return None
                c2 = self.swap(cur, q, p)
                if c2 is a:
                    found.append(self.atom_in(p, q, a))
                    return self.all(found)
                # partial progress: the pair is the same up to undecided details
                if len(oa) == len(ob) == 1 and p.op == q.op == "B" and set(atoms(a)) == {p} and set(atoms(b)) == {q}:
                    r = self.atom(p, q)
                    if r.v == DEF and "shifted loop" in r.why:
                        return r
                if len(oa) > 1 and similar(p, q):
                    near.append((p, c2))
                    if len(near) > 3:
                        break
            best = None
            for p, c2 in near:
                r = self.atom_in(p, q, a)
                w = (2 if r.v == DEF and not r.soft else 1 if r.v == DEF else 0 if r.v == SAME else 0.5)
                if best is None or w < best[0]:
                    best = (w, p, c2, r)
            if best is not None and best[3].v == DEF and q.op == "ap" and (len(near) > 1 or sum(similar(x, q) for x in ob) > 1):
                return None  # several calls on either side: which belong together is not known
            if best is not None:
                found.append(best[3])
                cur = best[2]
                oa = [x for x in oa if x is not best[1]]
            if cur is a:
                return self.all(found)
        if found and cur is not b:
            r2 = self.value(a, cur) if cur is not a else OK
            return self.all(found + [r2])
        return None

    def swap(self, t, q, p):
        memo = {}

        def rec(x):
            if x.op != "D":
                return x
            r = memo.get(x)
            if r is None:
                ch = [(lo, rec(c)) for lo, c in x.a[1]]
                at = x.a[0]
                if at is q:
                    at = p
                res = ch[0][1]
                for lo, c in ch[1:]:
                    ind = mkD(at, [(dom(at)[0], FALSE), (lo, TRUE)])
                    res = ite(ind, c, res)
                r = memo[x] = res
            return r

        return rec(t)

    def atom_in(self, p, q, a):
        """two conditions compared, given what holds wherever the reference tests the first"""
        r = self.atom(p, q)
        if r.v == DEF:
            path = dominating(a, p)
            if path:
                p2, q2 = under(p, path), under(q, path)
                if p2 is not p or q2 is not q:
                    r = self.atom(p2, q2)
        return r

    def atom(self, p, q):
        if p is q:
            return OK
        if p.op == "disc" and q.op == "disc":
            return self.value(p.a[0], q.a[0])
        if p.op == q.op == "fsg":
            return self.value(p.a[0], q.a[0])
        if p.op == q.op == "bit":
            if p.a[1] != q.a[1]:
                return dif(f"tests bit {q.a[1]} instead of {p.a[1]}")
            return self.value(p.a[0], q.a[0])
        return self.leaf(p, q)

    def paths(self, a, b, ba, bb, ob=(), oa=()):
        """all pairs of leaves reachable under the same decisions"""
        out = []
        cnt = [0]
        unkn = [None]
        clean = set()
        dirty = [0]
        refined = [0]
        fcnt = [0]

        def rec(x, y, path, yo=(), xo=False):
            if x is y or x is BOT or y is BOT or (x, y) in clean:
                return False
            if cnt[0] > MAXPATH:
                unkn[0] = "too many paths"
                return False
            cnt[0] += 1
            terms.tick()
            if x.op != "D" and y.op != "D":
                r = self.value(x, y)
                if r.v == SAME:
                    return False
                refined[0] += 1
                if r.v == DEF or refined[0] <= 12:
                    # knowledge from the path
                    m = self.known(path)
                    xx, yy = (replace(x, m), replace(y, m)) if m else (x, y)
                    xx, yy = under(xx, path), under(yy, path)
                    if xx is not x or yy is not y:
                        dirty[0] += 1
                        if xx is yy or xx is BOT or yy is BOT:
                            return False
                        r = self.value(xx, yy)
                if r.v == SAME:
                    return False
                dirty[0] += 1
                if r.v == UNK:
                    unkn[0] = unkn[0] or r.why
                    return False
                if unread(a, b, path):
                    return False
                fcnt[0] += 1
                if fcnt[0] <= 150 and not self.feasible(path):
                    return False
                if ob and any(p[0] in ba and p[0] not in self.state and hasloop(p[0]) for p in path):
                    unkn[0] = "another condition instead of a loop"
                    return False
                # a board has up to 361 points: a collection of its points may hold that many
                bad = [p for p in path if p[0] in bb and not caplit(p)]
                # the repository tests less than the reference, of the data alone
                plain = 2 if not ob and all(self.dataread(z) for z in oa) else 0
                bad_ = bad
                if bad and not oa and all(self.dataread(p[0]) for p in bad) and not any(loopy(p[0]) for p in path):
                    bad = []
                if bad and not oa and x.op == "i" and y.op == "i" and all(freecount(p) and self.alone(p, path) and not p[0].fs & (self.state | self.idx) for p in bad):
                    bad = []
                if bad and DBG: print("BAD", [show(x,0,3) for x in oa], [(show(p[0],0,3), self.dataread(p[0])) for p in bad], [show(p[0],0,4) for p in path if loopy(p[0])], flush=True)
                byf = bool(bad) and all(self.interpf(p[0]) for p in bad)
                if (bad and not byf) or any(p[0] in self.stateatoms(p[0]) for p in path):
                    r2 = self.throughout(a, b, path)
                    if r2 is not None:
                        out.append(r2)
                        return True
                if bad:
                    r2 = self.samecall(bad, oa, path)
                    if r2 is not None:
                        out.append(r2)
                        return True
                if bad and not byf:
                    unkn[0] = "condition only in the repository: " + show(bad[0][0], 0, 4)
                    return False
                if any(p[0] in self.stateatoms(p[0]) and not (plain and (self.dataread(p[0]) or plain == 2 and p[0] not in bb)) for p in path) and (ba or bb):
                    if DBG: print("LC", plain, [show(z,0,4) for z in oa], [show(z,0,4) for z in bb], [(show(p[0],0,4), p[0] in bb, self.dataread(p[0])) for p in path if p[0] in self.stateatoms(p[0])])
                    unkn[0] = "loop-carried condition"
                    return False
                if fcnt[0] > 150 and not self.feasible(path):
                    return False
                path = self.relevant(a, b, path, x, y)
                w = " and ".join(lit(p) for p in path[:12])
                fa = 0
                any_ = None
                for p in path:
                    n = set()
                    fnames(p[0], n)
                    self.fnames |= n
                    fa += bool(n)
                    if n and p[0].op not in ("disc", "bit") and dom(p[0]) != (0, 1):
                        if caplit(p):
                            fa -= 1
                            yo = tuple(z for z in yo if z is not p[0])
                            continue
                        if p[0] not in bb and p[0] not in oa and p[1] >= 1 and p[2] is not None:
                            # both sides tell smaller and larger values of the count apart
                            fa -= 1
                            yo = tuple(z for z in yo if z is not p[0])
                            continue
                        if p[0] not in bb and self.alone(p, path) and self.decided(a, path, p):
                            fa -= 1  # values the reference itself tells from others here
                            continue
                        if any_ is None:
                            any_ = self.anyhow(path)
                        if any_:
                            fa -= 1
                            yo = tuple(z for z in yo if z is not p[0])
                            continue
                    if n and p[0].op not in ("disc", "bit") and dom(p[0]) != (0, 1):
                        yo = yo + (p[0],)  # which numbers an opaque function yields is not known
                # the reference is taken to have no dead paths: only what the repository tests in
                # addition, or several opaque conditions tested by both, has to be confirmed
                if byf and all(self.possible(p) for p in bad) and len({c for p in path for c in fcalls(p[0])}) == 1:
                    byf, fa = False, 0  # the one call consulted can answer this
                if byf and any_ and all(p[0].op not in ("disc", "bit") and dom(p[0]) != (0, 1) for p in bad):
                    byf = False
                if DBG: print("SOFT", byf, any_, fa, xo, len(yo), [lit(z)[:60] for z in path], flush=True)
                if byf or fa:
                    r2 = self.throughout(a, b, path)
                    if r2 is not None:
                        out.append(r2)
                        return True
                soft = 2 if byf else int(bool(fa) and (fa > 1 and not xo or len(yo) > 0))
                out.append(Res(DEF, f"when {w}: {r.why}", r.kind, max(r.soft, soft), tuple(path) + tuple(r.path)))
                return not out[-1].soft or len(out) > 40
            at = x.a[0] if x.op == "D" else None
            if y.op == "D" and (at is None or order(y.a[0]) < order(at)):
                at = y.a[0]
            los = sorted({l for z in (x, y) if z.op == "D" and z.a[0] is at for l, _ in z.a[1]})
            before = dirty[0]
            for i, lo in enumerate(los):
                hi = los[i + 1] if i + 1 < len(los) else None
                if rec(_cof(x, at, lo), _cof(y, at, lo), path + [(at, lo, hi)], yo if x.op == "D" and x.a[0] is at else yo + (at,), xo or not (y.op == "D" and y.a[0] is at)):
                    return True
            if dirty[0] == before and cnt[0] <= MAXPATH:
                clean.add((x, y))
            return False

        rec(a, b, [])
        if out:
            return min(out, key=lambda r: r.soft)
        if unkn[0]:
            return unk(unkn[0])
        return OK

    def samecall(self, bad, oa, path):
        """the repository hangs on the one call which the reference hangs on as well, with other arguments"""
        ours = {c for p in bad for c in fcalls(p[0])}
        if len(ours) != 1:
            return None
        q = ours.pop()
        theirs = {c for p in path for z in (p[0],) if z in oa for c in fcalls(z) if c.a[0] == q.a[0]} or {c for z in oa for c in fcalls(z) if c.a[0] == q.a[0]}
        if len(theirs) != 1:
            return None
        p = theirs.pop()
        key = (p, q, tuple(path))
        if key in self.tmemo:
            return self.tmemo[key]
        res = None
        if p is not q and len(p.a[1]) == len(q.a[1]):
            rs = [self.value(under(x, path), under(y, path)) for x, y in zip(p.a[1], q.a[1]) if x is not y]
            if DBG:
                print("SAMECALL", p.a[0], rs)
            hit = [r for r in rs if r.v == DEF and not r.soft]
            if hit:
                res = Res(DEF, f"{p.a[0]} is called with another argument: {hit[0].why}", "scalar", 0, tuple(path))
        self.tmemo[key] = res
        return res

    def throughout(self, a, b, path):
        """under the interpretable decisions of the path the two sides differ whatever the others are"""
        mine = [p for p in path if self.interp(p[0]) and not p[0].fs & (self.state | self.idx)]
        if not mine or len(mine) == len(path):
            return None
        dark = {y for x in self.allatoms(a) + self.allatoms(b) if not self.interp(x) for y in paths_of(x)}
        mine = [p for p in mine if not any(touch(x, y) for x in paths_of(p[0]) for y in dark)]
        if not mine:
            return None
        key = (a, b, tuple(mine))
        if key in self.tmemo:
            return self.tmemo[key]
        self.tmemo[key] = None
        u, v = a, b
        for p in mine:
            u, v = restrict(u, p[0], p[1]), restrict(v, p[0], p[1])
        n = [0]
        first = [None]
        seen = set()

        def rec(x, y, here):
            """every pair of values is different"""
            if x is BOT or y is BOT or (x, y) in seen:
                return True
            if x is y:
                return False
            seen.add((x, y))
            n[0] += 1
            if n[0] > 300:
                return False
            at = x.a[0] if x.op == "D" else None
            if y.op == "D" and (at is None or order(y.a[0]) < order(at)):
                at = y.a[0]
            if at is None:
                r = self.value(x, y)
                if r.v != DEF or r.soft:
                    return False
                if first[0] is None and self.feasible(here):
                    first[0] = r
                return True
            los = sorted({l for z in (x, y) if z.op == "D" and z.a[0] is at for l, _ in z.a[1]})
            ip = self.interp(at)
            return all(rec(_cof(x, at, lo), _cof(y, at, lo), here + [(at, lo, los[i + 1] if i + 1 < len(los) else None)] if ip else here)
                       for i, lo in enumerate(los))

        if u.op == "D" or v.op == "D":
            if rec(u, v, mine) and first[0] is not None:
                r = first[0]
                self.tmemo[key] = Res(DEF, f"when {' and '.join(lit(p) for p in mine)}, whatever the rest: {r.why}", r.kind, 0, tuple(mine) + tuple(r.path))
        return self.tmemo[key]

    def allatoms(self, t):
        r = self.amemo.get(t)
        if r is None:
            r = self.amemo[t] = list(atoms(t))
        return r

    def relevant(self, a, b, path, x, y):
        """the decisions of a path without which the two sides would not be known to yield x and y"""
        for p in list(path):
            rest = [q for q in path if q is not p]
            u, v = a, b
            for at, lo, _ in rest:
                u, v = restrict(u, at, lo), restrict(v, at, lo)
            if u is x and v is y:
                path = rest
        return path

    def alone(self, p, path):
        """nothing else on the path is about what the call in p reads"""
        mine = paths_of(p[0])
        return all(q is p or not any(touch(x, y) for x in paths_of(q[0]) for y in mine) for q in path)

    def decided(self, a, path, p):
        """the reference, under the other decisions of the path, has a branch for values all asked for by p"""
        for q in path:
            if q is not p:
                a = restrict(a, q[0], q[1])
        cs = sorted(cuts(a, p[0]))
        if not cs:
            return False
        lo = p[1] if p[1] is not None else -math.inf
        hi = p[2] if p[2] is not None else math.inf
        d = dom(p[0])
        lows = [d[0] if d and d[0] is not None else -math.inf] + cs
        return any(lo <= l and h <= hi for l, h in zip(lows, cs + [math.inf]))

    def possible(self, p, depth=0):
        """the answer asked of an opaque function is among those it can give"""
        at, lo, hi = p
        if at.op != "disc" or self.rets is None or depth > 3:
            return False
        acc = []
        x = at.a[0]
        while x.op in ("fld", "pay"):
            acc.append(x)
            x = x.a[0]
        if x.op != "ap" or not x.a[0].startswith("F:"):
            return False
        t, rest = self.rets(x.a[0][2:].partition("|")[0])
        if t is None:
            return False
        for kind, k, i in re.findall(r"(\.|#)(\d+)(?:\.(\d+))?", rest) if rest else ():
            if kind == "." and not i:
                t = getfield(t, int(k), "?")
            elif kind == "#":
                t = getpay(t, int(k), int(i), "?")
            else:
                return False
        for y in reversed(acc):
            t = getfield(t, y.a[1], y.a[2]) if y.op == "fld" else getpay(t, y.a[1], y.a[2], y.a[3])
        t = getdisc(t, at.a[1])

        def leafs(t, path):
            if t.op == "i":
                return lo <= t.a[0] and (hi is None or t.a[0] < hi) and self.feasible(path)
            if t.op != "D":
                return False
            for i, (l, c) in enumerate(t.a[1]):
                q = (t.a[0], l, t.a[1][i + 1][0] if i + 1 < len(t.a[1]) else None)
                if fcalls(t.a[0]) and not (t.a[0].op == "disc" and self.possible(q, depth + 1)) and t.a[0].op == "disc":
                    continue
                if leafs(c, path + [q]):
                    return True
            return False

        return leafs(t, [])

    def stateatoms(self, at):
        return (at,) if at.fs & self.state or self.prefix(at) else ()

    def prefix(self, at):
        """what a loop has computed before the iteration looked at: loop-carried as well"""
        r = self.pmemo.get(at)
        if r is None:
            r = False
            seen = set()
            st = [at] if at.fs & self.idx else []
            while st and not r:
                x = st.pop()
                if x in seen or not x.fs & self.idx:
                    continue
                seen.add(x)
                r = x.op == "B" and any(o.op == "lv" and o in self.idx for o in x.a[3][:1])
                terms._walk(x.a, st)
            self.pmemo[at] = r
        return r

    def known(self, path):
        """equalities implied by the decisions taken: leaf -> constant"""
        m = {}
        for at, lo, hi in path:
            if at.op in ("disc", "fsg", "bit"):
                continue
            d = dom(at)
            l = max(lo, d[0])
            h = hi if hi is not None else (d[1] + 1 if d[1] is not None else None)
            if h is not None and l == h - 1 and l > NEG // 2 and at.op != "poly":
                if leaf_ty(at) in ("bool", "str"):
                    continue
                m[at] = I(l)
        return m

    # ------------------------------------------------------------ feasibility
    def anyhow(self, path):
        """feasible whatever numbers the opaque parts of its conditions yield"""
        return all(self.feasible(path, v) for v in (0, 1, 7))

    def feasible(self, path, fix=None):
        cons = []
        vs = set()

        def lin(t):
            p = topoly(t)
            r = {}
            for mono, c in p.items():
                k = mono if len(mono) != 1 else mono[0]
                if fix is not None and mono != () and any(fcalls(f) for f in mono):
                    k, c = (), c * fix
                r[k] = r.get(k, 0) + Fraction(c)
                if k != ():
                    vs.add(k)
            return r

        def addge(p, c):  # p >= c
            p = dict(p)
            p[()] = p.get((), 0) - c
            cons.append((p, False))

        for at, lo, hi in path:
            if at.op == "fsg":
                p = lin(at.a[0])
                h = hi if hi is not None else 2
                if (lo, h) == (0, 1):
                    cons.append((p, False))
                    cons.append(({k: -v for k, v in p.items()}, False))
                elif lo >= 1:
                    cons.append((p, True))
                elif h <= 0:
                    cons.append(({k: -v for k, v in p.items()}, True))
                elif lo >= 0:
                    cons.append((p, False))
                elif h <= 1:
                    cons.append(({k: -v for k, v in p.items()}, False))
                continue
            p = lin(at) if at.op not in ("disc", "bit") else {at: Fraction(1)}
            if at.op in ("disc", "bit"):
                vs.add(at)
            if lo > NEG // 2:
                addge(p, lo)
            if hi is not None:
                addge({k: -v for k, v in p.items()}, -(hi - 1))
        done = set()
        for v in list(vs):
            self.domain(v, cons, done)
        return fm(cons)

    def domain(self, v, cons, done):
        if v in done or v == ():
            return
        done.add(v)
        if isinstance(v, tuple):
            if all(nonneg(f) for f in v):
                cons.append(({v: Fraction(1)}, False))
            return
        lo, hi = dom(v) if v.op in ("disc", "bit") else ((0 if nonneg(v) else None), None)
        if v.op == "fld":
            ty = REG.get(leaf_ty(v.a[0]))
            if ty is not None and ty.fields and v.a[1] < len(ty.fields):
                r = FIELD_RANGE.get((ty.name, ty.fields[v.a[1]][0]))
                if r:
                    lo, hi = r
            if leaf_ty(v) == "u8":
                hi = 255 if hi is None else hi
        elif v.op not in ("disc", "bit") and leaf_ty(v) == "u8":
            hi = 255
        if v.op == "ap" and v.a[0] == "rem" and v.a[1][1].op == "i":
            hi = v.a[1][1].a[0] - 1
        if v in self.rng:
            l, h = self.rng[v]
            for t, s in ((l, 1), (h, -1)):
                if t.op in ("i", "poly", "lv", "fld", "pay", "sel", "ap", "len"):
                    p = topoly(t)
                    q = {}
                    for mono, c in p.items():
                        k = mono if len(mono) != 1 else mono[0]
                        q[k] = q.get(k, 0) - s * Fraction(c)
                    q[v] = q.get(v, 0) + s
                    if s == -1:
                        q[()] = q.get((), 0) - 1
                    cons.append((q, False))
                    for k in list(q):
                        if k != ():
                            self.domain(k, cons, done)
        if lo is not None and lo > NEG // 2:
            cons.append(({v: Fraction(1), (): Fraction(-lo)}, False))
        if hi is not None:
            cons.append(({v: Fraction(-1), (): Fraction(hi)}, False))

    # ------------------------------------------------------------ leaves
    def leaf(self, a, b):
        if a is b or a is BOT or b is BOT:
            return OK
        ao, bo = a.op, b.op
        if ao == "D" or bo == "D" or ao in ("S", "E") or bo in ("S", "E"):
            return self.value(a, b)
        if ao in ("i", "q", "ch", "poly") or bo in ("i", "q", "ch", "poly"):
            return self.num(a, b)
        if ao == "str" and bo == "str":
            return unk("text")
        if ao == "ty" or bo == "ty":
            return OK
        if ao == "table" and bo == "table":
            return OK if a.a[1] == b.a[1] else dif(f"table of {b.a[1]} entries instead of {a.a[1]}")
        if seqlike_(a) or seqlike_(b):
            return self.seq(a, b)
        if ao == "B" and bo == "B":
            return self.binder(a, b)
        if ao == "ref" and bo == "ref":
            return OK if a is b else unk("reference")
        if ao in ("xor", "bor", "band") or bo in ("xor", "bor", "band"):
            return self.acop(a, b)
        for x, y, w in ((a, b, "extra"), (b, a, "missing")):
            u = updchain(y)
            k = [i for i, (t, _) in enumerate(u) if t is x]
            if k and (self.interp(x) or x in self.state):
                return dif(f"{w} update: " + ", ".join(n for _, n in u[: k[0] + 1][::-1]), "struct")
        if ao == "ap" and bo == "ap":
            if a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
                args = enumerate(zip(a.a[1], b.a[1]))
            elif a.a[0].startswith("F:") and a.a[0].partition("|")[0] == b.a[0].partition("|")[0]:
                # both functions were found to agree: what only one of them reads does not matter
                m = dict(zip(a.a[0].partition("|")[2].split(";"), a.a[1]))
                args = [(i, (m[k], y)) for i, (k, y) in enumerate(zip(b.a[0].partition("|")[2].split(";"), b.a[1])) if k in m]
            else:
                args = None
            if args is not None:
                out = []
                for i, (x, y) in args:
                    if x is y:
                        continue
                    r = self.value(x, y)
                    if r.v != SAME:
                        r = r.re(f"{a.a[0].partition('|')[0]} argument {i}: {r.why}")
                    out.append(r)
                if not out:
                    return OK
                return self.all(out)
        if ao == bo and ao in ("pay", "fld") and a.a[0] is b.a[0] and a.a[1:] != b.a[1:] and not a.fs & (self.state | self.idx):
            return dif(f"{show(b, 0, 4)} instead of {show(a, 0, 4)}")  # another component of one value
        if ao == "fld" and bo == "fld" and a.a[1] == b.a[1] and not (self.interp(a) and self.interp(b)):
            return self.value(a.a[0], b.a[0])
        if ao == "pay" and bo == "pay" and a.a[1:] == b.a[1:] and not (self.interp(a) and self.interp(b)):
            return self.value(a.a[0], b.a[0])
        if ao == "sel" and bo == "sel" and not (self.interp(a) and self.interp(b)):
            return self.all([self.value(a.a[0], b.a[0]), self.value(a.a[1], b.a[1])])
        if self.interp(a) and self.interp(b):
            if ao == "ap" or bo == "ap":
                if ao == bo and a.a[0] != b.a[0]:
                    return dif(f"{show(b, 0, 4)} instead of {show(a, 0, 4)}")
            return dif(f"{show(b, 0, 4)} instead of {show(a, 0, 4)}")
        if ao == bo == "lv":
            if a in self.state and b in self.state or a in self.free and b in self.state or a in self.state and b in self.free:
                return dif(f"another loop variable") if leaf_ty(a) == leaf_ty(b) else unk("loop variable")
        if ao == bo == "fnv":
            return unk("function value")
        if ao == bo == "sym":
            return dif(f"{show(b)} instead of {show(a)}")
        return unk(f"{show(a, 0, 3)} / {show(b, 0, 3)}")

    def num(self, a, b):
        for x in (a, b):
            if x.op not in ("i", "q", "ch", "poly", "lv", "fld", "pay", "sel", "ap", "B", "xor", "bor", "band", "disc", "bit"):
                return unk("number / " + x.op)
        pa = topoly(I(a.a[0]) if a.op == "ch" else a)
        pb = topoly(I(b.a[0]) if b.op == "ch" else b)
        d = dict(pb)
        for m, c in pa.items():
            d[m] = d.get(m, 0) - c
        d = {m: c for m, c in d.items() if c}
        if not d:
            return OK
        leaves = {f for m in d for f in m}
        w = f"{show(b, 0, 4)} instead of {show(a, 0, 4)}"
        bad = [f for f in leaves if not self.interp(f)]
        if not bad:
            return dif(w)
        # a rounded number jumps where its fractional argument does not, whatever the opaque parts are
        for k in {k for f in leaves if f.op == "ap" and f.a[0] in ROUND for m in topoly(f.a[1][0]) if len(m) == 1 for k in m}:
            if self.interp(k) and leaf_ty(k) in ("f32", "f64") and sum(1 for f in leaves if f is not k and occurs(k, f)) == 1:
                return dif(w)
        # opaque parts: pair them
        la = {f for m in pa for f in m if f in leaves and f not in {g for n in pb for g in n}}
        lb = {f for m in pb for f in m if f in leaves and f not in {g for n in pa for g in n}}
        if not la and not lb:
            # same operands combined differently
            return dif(w)
        if len(la) == 1 and len(lb) == 1:
            (x,), (y,) = la, lb
            pb2 = {}
            for m, c in pb.items():
                m2 = tuple(sorted((x if f is y else f for f in m), key=lambda f: f.dg))
                pb2[m2] = pb2.get(m2, 0) + c
            if frompoly(pb2) is frompoly(dict(pa)):
                if a is x and b is y:
                    return self.leaf2(x, y)
                return self.value(x, y)
        if len(la) == len(lb) and len(la) <= 4:
            ms = self.match(list(la), list(lb))
            if ms is not None:
                mp = {y: x for x, y, _ in ms}
                pb2 = {}
                for m, c in pb.items():
                    m2 = tuple(sorted((mp.get(f, f) for f in m), key=lambda f: f.dg))
                    pb2[m2] = pb2.get(m2, 0) + c
                if frompoly(pb2) is frompoly(dict(pa)):
                    return self.all([r for _, _, r in ms])
        # a term of the reference disappeared
        if not lb and la:
            return dif("missing: " + w, "struct")
        return unk("number: " + w)

    def leaf2(self, x, y):
        if x.op == y.op == "B":
            return self.binder(x, y)
        if x.op in ("poly",) or y.op in ("poly",):
            return unk("number")
        if x.op in ("xor", "bor", "band") or y.op in ("xor", "bor", "band"):
            return self.acop(x, y)
        if x.op == y.op:
            return self.leaf(x, y)
        return unk(f"{show(x, 0, 3)} / {show(y, 0, 3)}")

    def match(self, la, lb):
        """best pairing of two small lists"""
        best = None
        for perm in itertools.permutations(lb):
            rs = [(x, y, self.value(x, y)) for x, y in zip(la, perm)]
            sc = sum(1 for r in rs if r[2].v == SAME) * 10 - sum(1 for r in rs if r[2].v == UNK)
            if best is None or sc > best[0]:
                best = (sc, rs)
        return best[1] if best else None

    def acop(self, a, b):
        op = a.op if a.op in ("xor", "bor", "band") else b.op
        xa = set(a.a[0]) if a.op == op else {a}
        xb = set(b.a[0]) if b.op == op else {b}
        la, lb = list(xa - xb), list(xb - xa)
        if not la and not lb:
            return OK
        if all(self.interp(x) for x in la + lb):
            return dif(f"{op} with {[show(x, 0, 4) for x in lb]} instead of {[show(x, 0, 4) for x in la]}")
        if not lb:
            return dif(f"{op} misses {show(la[0], 0, 4)}", "struct")
        if not la:
            return dif(f"extra {op} with {show(lb[0], 0, 4)}", "struct") if all(self.interp(x) for x in lb) else unk("extra " + op)
        if len(la) == len(lb) <= 3:
            ms = self.match(la, lb)
            return self.all([r for _, _, r in ms])
        return unk(op)

    # ------------------------------------------------------------ sequences
    def seq(self, a, b):
        if a.op == "sel" or b.op == "sel" or a.op in ("fld", "pay", "lv", "ap") or b.op in ("fld", "pay", "lv", "ap"):
            pass
        if a.op == "st" or b.op == "st":
            return self.stores(a, b)
        pa, pb = parts(a), parts(b)
        if len(pa) == 1 and len(pb) == 1:
            return self.seq1(pa[0], pb[0])
        # strip common prefix / suffix
        while pa and pb and pa[0] is pb[0]:
            pa, pb = pa[1:], pb[1:]
        while pa and pb and pa[-1] is pb[-1]:
            pa, pb = pa[:-1], pb[:-1]
        if not pa and not pb:
            return OK
        if not pb:
            return dif("missing elements " + show(pa[0], 0, 4), "struct")
        if not pa:
            if all(x.op == "sq" or self.interp(x) or x.op in ("sel", "fld", "pay") or x.op == "ap" and x.a[0] == "elems" or x.op == "B" and x.a[0] == "cm" and x.a[4][0][0] is TRUE for x in pb):
                return dif("extra elements " + show(pb[0], 0, 4), "struct")
            return unk("extra elements " + show(pb[0], 0, 3))
        if len(pa) == len(pb):
            return self.all([self.seq1(x, y) for x, y in zip(pa, pb)])
        return unk("sequence")

    def seq1(self, x, y):
        if x is y:
            return OK
        if x.op in ("sq", "gs") and y.op in ("sq", "gs"):
            gx, gy = gitems(x), gitems(y)
            if len(gx) != len(gy):
                if x.op == "sq" and y.op == "sq":
                    return dif(f"{len(gy)} elements instead of {len(gx)}", "struct")
                sx, sy = {v for _, v in gx}, {v for _, v in gy}
                if sy < sx and all(g is TRUE or True for g, _ in gx):
                    return dif("missing element " + show(next(iter(sx - sy)), 0, 4), "struct")
                return unk("elements")
            if sorted(v.dg for _, v in gx) == sorted(v.dg for _, v in gy) and [v for _, v in gx] != [v for _, v in gy]:
                return unk("order of elements")
            out = []
            for (g1, v1), (g2, v2) in zip(gx, gy):
                out.append(self.value(g1, g2))
                out.append(self.value(v1, v2))
            return self.all(out)
        if x.op == "B" and y.op == "B":
            return self.binder(x, y)
        if x.op == "rep" and y.op == "rep":
            return self.all([self.value(x.a[0], y.a[0]), self.value(x.a[1], y.a[1])])
        if x.op == "sub" and y.op == "sub":
            return self.all([self.value(p, q) for p, q in zip(x.a, y.a)])
        if x.op == "D" or y.op == "D":
            return self.dec(x, y)
        if x.op == y.op and x.op in ("ap", "fld", "pay", "sel", "lv"):
            return self.leaf(x, y)
        if self.interp(x) and self.interp(y):
            return dif(f"{show(y, 0, 4)} instead of {show(x, 0, 4)}")
        return unk(f"sequence {show(x, 0, 3)} / {show(y, 0, 3)}")

    def stores(self, a, b):
        sa, ra = chain(a)
        sb, rb = chain(b)
        out = []
        if ra is not rb:
            r = self.value(ra, rb)
            if r.v != SAME:
                if ra.op == "D" or rb.op == "D":
                    return unk("stores below a decision")
                return r
        if sa == sb:
            return OK
        if sorted((i.dg, v.dg) for i, v in sa) == sorted((i.dg, v.dg) for i, v in sb):
            return unk("order of stores")
        la = [s for s in sa if s not in sb]
        lb = [s for s in sb if s not in sa]
        if not lb:
            return dif(f"missing write at [{show(la[0][0], 0, 4)}]", "struct")
        if not la:
            return dif(f"extra write at [{show(lb[0][0], 0, 4)}]", "struct") if all(self.interp(i) for i, _ in lb) else unk("extra write")
        if len(la) == len(lb):
            ia = {i: v for i, v in la}
            ib = {i: v for i, v in lb}
            if set(ia) == set(ib) and len(ia) == len(la):
                return self.all([self.value(ia[i], ib[i]) for i in ia])
            if len(la) <= 3:
                rs = []
                for (i, v), (j, w) in zip(la, lb):
                    rs += [self.value(i, j), self.value(v, w)]
                return self.all(rs)
        return unk("stores")

    # ------------------------------------------------------------ loops
    def binder(self, a, b):
        if a.a[0] != b.a[0]:
            return unk(f"loop {a.a[0]} / {b.a[0]}")
        kind = a.a[0]
        if kind == "fold":
            return self.fold(a, b)
        if len(a.a[2]) != len(b.a[2]) or len(a.a[4]) != len(b.a[4]) or len(a.a[3]) != len(b.a[3]):
            if kind == "cm" and len(a.a[3]) == len(b.a[3]) and all(x is y for x, y in zip(a.a[3], b.a[3])):
                if len(b.a[4]) < len(a.a[4]):
                    return dif("loop yields fewer elements per round", "struct")
            return unk("loop arity")
        lvs, ba, bb = self.open2(a, b)
        out = []
        for i, (x, y) in enumerate(zip(a.a[3], b.a[3])):
            r = self.value(x, y)
            if r.v != SAME:
                r = r.re(f"loop bound: {r.why}")
            out.append(r)
        for lv in lvs:
            self.free.add(lv)
            self.idx.add(lv)
        if len(a.a[3]) == 2 and len(lvs) == 1:
            self.rng[lvs[0]] = a.a[3]
        for x, y in zip(flat(ba), flat(bb)):
            r = self.value(x, y)
            if r.v != SAME:
                r = r.re(f"in loop: {r.why}")
            out.append(r)
        # bounds and body changed together: the loop may be re-indexed
        nb = sum(1 for r in out[: len(a.a[3])] if r.v != SAME)
        nn = sum(1 for r in out[len(a.a[3]):] if r.v != SAME)
        if nb and nn:
            if kind == "cm" and len(ba) == len(bb) == 1 and ba[0][0] is TRUE and bb[0][0] is TRUE:
                # one element per round on both sides: the number of rounds is the length
                r = self.value(sub(a.a[3][1], a.a[3][0]), sub(b.a[3][1], b.a[3][0]))
                if r.v == DEF:
                    return r.re("number of elements: " + r.why)
            if len(a.a[3]) == 2 and len(lvs) == 1:
                for c in (1, -1):
                    m = {lvs[0]: add(lvs[0], I(c))}
                    if all(self.value(x, subst(y, m)).v == SAME for x, y in zip(flat(ba), flat(bb))):
                        r = self.all([self.value(x, sub(y, I(c))) for x, y in zip(a.a[3], b.a[3])])
                        return r.re("bound of the shifted loop: " + r.why) if r.v != SAME else r
            return self.uniform(a, b) or unk("loop re-indexed")
        return self.all(out)

    def open2(self, a, b):
        lvs, ba = openb(a)
        lvl = b.a[1]
        m = {mk("bv", lvl, k, ty): lv for k, (ty, lv) in enumerate(zip(b.a[2], lvs))}
        if any(lv.a[-1] != ty for lv, ty in zip(lvs, b.a[2])):
            m = {mk("bv", lvl, k, ty): lv for k, (ty, lv) in enumerate(zip(b.a[2], lvs))}
        bb = terms._map(b.a[4], lambda x: subst(x, m))
        return lvs, ba, bb

    def fold(self, a, b):
        ta, tb = a.a[2], b.a[2]
        n = len(ta)
        if len(tb) != n or sorted(ta) != sorted(tb):
            return unk("loop state")
        ja, jb = a.a[5][0], b.a[5][0]
        lva, bodya = openb(a)
        inita, initb = a.a[3][1:], b.a[3][1:]
        self.free.add(lva[0])
        self.idx.add(lva[0])
        self.rng[lva[0]] = (I(0), a.a[3][0])
        for lv in lva[1:]:
            self.state.add(lv)
        hi = self.value(a.a[3][0], b.a[3][0])
        if hi.v != SAME:
            hi = hi.re("loop end: " + hi.why)
        best = None
        idx = list(range(n - 1))
        cnt = 0
        for perm in itertools.permutations(idx):  # component i of a <-> perm[i] of b
            if perm[ja] != jb or any(ta[1 + i] != tb[1 + perm[i]] for i in idx):
                continue
            cnt += 1
            if cnt > 24:
                break
            m = {mk("bv", b.a[1], 0, tb[0]): lva[0]}
            for i in idx:
                m[mk("bv", b.a[1], 1 + perm[i], tb[1 + perm[i]])] = lva[1 + i]
            bodyb = [subst(x, m) for x in b.a[4]]
            ri = [self.value(inita[i], initb[perm[i]]) for i in idx]
            rb = [self.value(bodya[i], bodyb[perm[i]]) for i in idx]
            if hi.v != SAME and any(r.v != SAME for r in rb) and all(r.v == SAME for r in ri):
                for c in (1, -1):
                    ms = {lva[0]: add(lva[0], I(c))}
                    if all(self.value(bodya[i], subst(bodyb[perm[i]], ms)).v == SAME for i in idx):
                        r = self.all([self.value(I(0), I(-c)), self.value(a.a[3][0], sub(b.a[3][0], I(c)))])
                        return r.re("bound of the shifted loop: " + r.why)
            sc = sum(3 for r in ri if r.v == SAME) + sum(3 for r in rb if r.v == SAME) - sum(1 for r in ri + rb if r.v == UNK)
            if best is None or sc > best[0]:
                best = (sc, ri, rb)
        if best is None:
            return unk("loop state")
        _, ri, rb = best
        di = [r for r in ri if r.v != SAME]
        db = [r for r in rb if r.v != SAME]
        groups = (hi.v != SAME) + bool(di) + bool(db)
        if groups == 0:
            return OK
        if groups > 1:
            r = self.uniform(a, b)
            if r is not None:
                return r
            if DBG: print("FOLD", hi, [str(r)[:300] for r in di], [str(r)[:300] for r in db], flush=True)
            return unk("loop start, end and step changed together")
        r = self.all([hi] + di + db)
        if r.v == DEF and db and n - 1 > 1 and r.kind != "scalar":
            return unk("loop step: " + r.why)
        return r.re("in loop: " + r.why if r.v != SAME and not r.why.startswith("loop end") else r.why)


def dominating(t, at):
    """decisions [(atom, lo, hi)] outside of which t does not depend on the atom"""
    ks = [k for k in atoms(t) if k is not at]
    if len(ks) > 80:
        return []
    out = []
    n = 0
    for k in ks:
        los = set()
        st, seen = [t], {t}
        while st:
            x = st.pop()
            if x.op != "D":
                continue
            for lo, c in x.a[1]:
                if x.a[0] is k:
                    los.add(lo)
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        n += len(seen) * len(los)
        if n > 60000:
            return out
        los = sorted(los)
        dep = [at in atoms(restrict(t, k, lo)) for lo in los]
        if all(dep) or not any(dep):
            continue
        i, j = dep.index(True), len(dep) - dep[::-1].index(True)
        out.append((k, los[i], los[j] if j < len(los) else None))
        t = restrict(t, k, los[i]) if j == i + 1 else t
    return out


def restrict(t, k, lo):
    memo = {}
    ok = order(k)

    def rec(x):
        if x.op != "D" or order(x.a[0]) > ok:
            return x
        r = memo.get(x)
        if r is None:
            terms.tick()
            if x.a[0] is k:
                r = rec(_cof(x, k, lo))
            else:
                ch = [(l, rec(c)) for l, c in x.a[1]]
                r = x if all(c is o for (_, c), (_, o) in zip(ch, x.a[1])) else mkD(x.a[0], ch)
            memo[x] = r
        return r

    return rec(t)


def loopy(t):
    """depends on a loop other than by the index something is read at"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "B" and not (x.a[0] in ("sum", "first") and all(isconst(o) for o in x.a[3])):
            return True
        if x.op == "ap" and x.a[0].startswith("F:"):
            continue
        terms._walk(x.a[0] if x.op == "sel" else x.a, st)
    return False


def freecount(p):
    """a number of places of the caller's data asked to be none, or some"""
    at, lo, hi = p
    if at.op != "B" or at.a[0] not in ("sum", "first"):
        return False
    if not (lo <= 0 and (hi is None or hi >= 1) or lo <= 1 and (hi is None or hi > 1)):
        return False
    seen, st = set(), [at]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ap" and x.a[0].startswith("F:") or x.op == "B" and x is not at or x.op in ("inf", "ref", "IT", "st", "sym"):
            return False
        terms._walk(x.a, st)
    return True


def paths_of(t):
    """access paths into variables"""
    out, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or not x.fs:
            continue
        seen.add(x)
        p = []
        y = x
        while y.op in ("fld", "pay"):
            p.append(tuple(y.a[1:-1]))
            y = y.a[0]
        if y.op == "lv":
            out.add((y,) + tuple(reversed(p)))
            continue
        terms._walk(x.a, st)
    return out


def touch(p, q):
    n = min(len(p), len(q))
    return p[:n] == q[:n]


def hasloop(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "B":
            return True
        terms._walk(x.a, st)
    return False


def fnames(t, out):
    """opaque functions mentioned in a term"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ap" and x.a[0].startswith("F:"):
            out.add(x.a[0][2:].partition("|")[0])
        terms._walk(x.a, st)


def cuts(t, at):
    """values at which t decides about an atom"""
    out, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == "D" and x not in seen:
            seen.add(x)
            if x.a[0] is at:
                out |= {lo for lo, _ in x.a[1][1:]}
            st += [c for _, c in x.a[1]]
    return out


def caplit(p):
    return p[0].op == "ap" and p[0].a[0] == "len" and 9 <= p[1] <= 361 and p[2] is None


def antiunify(x, y, out, fuel, memo=None):
    """the smallest closed sub-terms in which two terms of one shape disagree; False if there are none such"""
    if x is y:
        return True
    if memo is None:
        memo = {}
    r = memo.get((x, y))
    if r is None:
        got = set()
        r = memo[x, y] = (antiunify1(x, y, got, fuel, memo), got)
    out |= r[1]
    return r[0]


def antiunify1(x, y, out, fuel, memo):
    fuel[0] -= 1
    if fuel[0] < 0 or not isinstance(x, T) or not isinstance(y, T):
        return False
    got = set()
    if x.op == y.op and x.op not in ("poly", "i", "q") and shape(x.a) == shape(y.a):
        cx, cy = [], []
        terms._walk(x.a, cx)
        terms._walk(y.a, cy)
        if len(cx) == len(cy) and all(antiunify(p, q, got, fuel, memo) for p, q in zip(cx, cy)):
            out |= got
            return True
    if bvs(x) or bvs(y) or x.op in ("i", "q", "str", "ch"):
        return False
    out.add((x, y))
    return True


def shape(x):
    if isinstance(x, T):
        return "T"
    if isinstance(x, tuple):
        return tuple(shape(y) for y in x)
    return x


ROUND = ("floor", "ceil", "round", "trunc")


def occurs(k, t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x is k:
            return True
        if x not in seen:
            seen.add(x)
            terms._walk(x.a, st)
    return False


def dleaves(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "D":
            st += [c for _, c in x.a[1]]
        else:
            out.add(x)
    return out


def fcalls(t):
    """applications of opaque functions in a term, outermost ones, results of one call counted once"""
    out, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ap" and x.a[0].startswith("F:"):
            out.add(mk("ap", re.sub(r"[.#@!][\d.#pc]*$", "", x.a[0].partition("|")[0]), x.a[1], "?"))
            continue
        terms._walk(x.a, st)
    return out


def unread(a, b, path):
    """a payload is only ever read where its variant is held: a region in which one side decides by the payload of a
    variant that is not held is not reached"""
    held = {at.a[0]: (lo, hi, at.a[1]) for at, lo, hi in path if at.op == "disc"}
    dead = set()
    for at, lo, hi in path:
        x = at.a[0] if at.op in ("disc", "bit") else at
        while isinstance(x, T) and x.op in ("fld", "pay", "sel"):
            if x.op == "pay" and x.a[0] in held:
                l, h, tys = held[x.a[0]]
                ty = REG.get(tys)
                if ty is not None and ty.vs and x.a[1] < len(ty.vs):
                    dv = ty.vs[x.a[1]][1]
                    if dv < l or h is not None and dv >= h:
                        dead.add(at)
            x = x.a[0]
    if not dead:
        return False
    taken = {at: (lo, hi) for at, lo, hi in path if at not in dead}
    memo = {}

    def rec(t):
        if t.op != "D":
            return t
        r = memo.get(t)
        if r is None:
            lo, hi = taken.get(t.a[0], (None, None))
            cs = t.a[1]
            ch = []
            for i, (l, c) in enumerate(cs):
                h = cs[i + 1][0] if i + 1 < len(cs) else None
                if lo is None or ((h is None or h > lo) and (hi is None or l < hi)):
                    ch.append((l, rec(c)))
            if len({c for _, c in ch}) == 1:
                r = ch[0][1]
            else:
                ch[0] = (cs[0][0], ch[0][1])
                r = mkD(t.a[0], ch)
            memo[t] = r
        return r

    def has(t, seen):
        if t.op != "D" or t in seen:
            return False
        seen.add(t)
        return t.a[0] in dead or any(has(c, seen) for _, c in t.a[1])

    return has(rec(a), set()) or has(rec(b), set())


def under(t, path):
    """t with the decisions already taken on the path resolved in its inner decisions"""
    if t.op in ("i", "lv", "str", "ch", "D"):
        return t
    taken = {at: (lo, hi) for at, lo, hi in path}
    memo = {}

    def rec(x):
        if not x.a or x.op in ("lv", "i"):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = x
        if x.op == "D" and x.a[0] in taken:
            lo, hi = taken[x.a[0]]
            cs = x.a[1]
            sel = []
            for i, (l, c) in enumerate(cs):
                h = cs[i + 1][0] if i + 1 < len(cs) else None
                if (h is None or h > lo) and (hi is None or l < hi):
                    sel.append(c)
            if len(sel) == 1:
                r = rec(sel[0])
        elif x.op == "D" and has_taken(x.a[0]):
            r = rebuild(x, rec)
        elif x.op == "D":
            ch = [(lo, rec(c)) for lo, c in x.a[1]]
            if any(c is not o for (_, c), (_, o) in zip(ch, x.a[1])):
                r = mkD(x.a[0], ch)
        elif has_taken(x):
            r = rebuild(x, rec)
        memo[x] = r
        return r

    hm = {}

    def has_taken(x):
        r = hm.get(x)
        if r is None:
            if x.op == "D" and x.a[0] in taken:
                r = True
            else:
                ch = []
                terms._walk(x.a, ch)
                r = any(has_taken(c) for c in ch)
            hm[x] = r
        return r

    return rec(t) if has_taken(t) else t


def lit(p):
    at, lo, hi = p
    s = show(at, 0, 4)
    if at.op == "disc":
        ty = REG.get(at.a[1])
        if ty is not None and ty.vs and (hi is None or hi == lo + 1):
            for v in ty.vs:
                if v[1] == lo:
                    return f"{show(at.a[0], 0, 4)} is {v[0]}"
    if at.op == "fsg":
        s = show(at.a[0], 0, 4)
        return s + {-1: "<0", 0: "=0", 1: ">0"}.get(lo, "?")
    d = dom(at)
    if d == (0, 1):
        return s if lo == 1 else "not " + s
    lo_ = None if lo <= NEG // 2 else lo
    if hi is not None and lo_ is not None and hi == lo_ + 1:
        return f"{s} = {lo_}"
    if hi is None:
        return f"{s} >= {lo_}"
    if lo_ is None or lo_ == d[0]:
        return f"{s} < {hi}"
    return f"{lo_} <= {s} < {hi}"


_cof = terms._cof


def similar(p, q):
    """same outermost operation"""
    while p.op == q.op and p.op in ("disc", "fsg", "bit"):
        p, q = p.a[0], q.a[0]
    if p.op != q.op:
        return False
    if p.op == "ap":
        return p.a[0] == q.a[0]
    if p.op == "B":
        return p.a[0] == q.a[0] and len(p.a[2]) == len(q.a[2])
    return p.op in ("sel",)


def flat(x):
    if isinstance(x, T):
        return [x]
    out = []
    for y in x:
        out += flat(y)
    return out


def parts(t):
    return list(t.a[0]) if t.op == "cat" else ([] if t.op == "sq" and not t.a[0] else [t])


def seqlike_(t):
    return t.op in ("sq", "cat", "gs", "rep", "st", "sub") or (t.op == "B" and t.a[0] in ("cm", "flat"))


def chain(t):
    out = []
    while t.op == "st":
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    return out, t


def intleaf(k):
    if isinstance(k, tuple):
        return all(intleaf(f) for f in k)
    if k.op in ("disc", "bit", "xor", "bor", "band"):
        return True
    ty = REG.get(leaf_ty(k))
    return ty is not None and ty.k in ("int", "uint", "char", "bool")


def tighten(p, s):
    """p >= 0 (> 0) between integers: the constant rounded"""
    ks = [k for k in p if k != ()]
    if not ks or not all(intleaf(k) for k in ks):
        return p, s
    d = 1
    for k in ks:
        d = d * p[k].denominator // math.gcd(d, p[k].denominator)
    g = 0
    for k in ks:
        g = math.gcd(g, int(p[k] * d))
    r = {k: p[k] * d / g for k in ks}
    c = Fraction(p.get((), 0)) * d / g
    f = math.floor(c)
    if s and f == c:
        f -= 1
    r[()] = Fraction(f)
    return r, False


FM = {}


def fm(cons):
    """satisfiability of linear constraints  p >= 0 (or > 0) over the rationals, integers rounded"""
    up = {}

    def find(k):
        while up.setdefault(k, k) != k:
            up[k] = up[up[k]]
            k = up[k]
        return k

    cs = []
    for p, s in cons:
        ks = [k for k, v in p.items() if v and k != ()]
        if not ks:
            c = p.get((), 0)
            if c < 0 or s and c <= 0:
                return False
            continue
        for k in ks:
            find(k)
        for k in ks[1:]:
            up[find(k)] = find(ks[0])
        cs.append((ks[0], p, s))
    parts_ = {}
    for k, p, s in cs:
        parts_.setdefault(find(k), {})[frozenset((x, v) for x, v in p.items() if v), s] = (p, s)
    for part in parts_.values():  # constraints without a common variable are independent
        key = frozenset(part)
        r = FM.get(key)
        if r is None:
            r = FM[key] = fm1(list(part.values()))
        if not r:
            return False
    return True


def fm1(cons, cap=400):
    cons = [(dict((k, Fraction(v)) for k, v in p.items() if v), s) for p, s in cons]
    while True:
        nxt = []
        cons = [tighten(p, s) for p, s in cons]
        for p, s in cons:
            vars_ = [k for k in p if k != ()]
            if not vars_:
                c = p.get((), 0)
                if c < 0 or (s and c <= 0):
                    return False
                continue
            nxt.append((p, s))
        cons = nxt
        if not cons:
            return True
        occ = {}
        for p, _ in cons:
            for k in p:
                if k != ():
                    o = occ.setdefault(k, [0, 0])
                    o[p[k] > 0] += 1
        v = min(occ, key=lambda k: (occ[k][0] * occ[k][1]))
        pos = [(p, s) for p, s in cons if p.get(v, 0) > 0]
        neg = [(p, s) for p, s in cons if p.get(v, 0) < 0]
        rest = [(p, s) for p, s in cons if not p.get(v, 0)]
        new = {}
        for p, s in pos:
            for q, z in neg:
                r = {}
                for k, c in p.items():
                    r[k] = r.get(k, 0) + c / p[v]
                for k, c in q.items():
                    r[k] = r.get(k, 0) + c / -q[v]
                r = {k: c for k, c in r.items() if c and k != v}
                key = tuple(sorted(((k.dg if isinstance(k, T) else repr([f.dg for f in k])), c) for k, c in r.items()))
                new[(key, s or z)] = (r, s or z)
        cons = rest + list(new.values())
        if len(cons) > cap:
            return True
