"""Hash-consed value-graph terms.

Every value computed by the analysed program is represented by one canonical term.  Decisions are
kept in multi-way decision diagrams over canonical atoms (enum discriminants, booleans, integer
linear forms), so that two pieces of code computing the same function of the same inputs get the
same term however their branches are nested.
"""
import hashlib, time
from fractions import Fraction

NEG = -(10 ** 30)
EMPTY = frozenset()


class T:
    __slots__ = ("op", "a", "dg", "h", "fs", "sd", "od", "cl")

    def __repr__(self):
        return show(self)

    def __getattr__(self, n):  # digests, computed where an order is asked for
        op, a = self.op, self.a
        if n == "dg":
            r = self.dg = hashlib.blake2b((op + _enc(a)).encode(), digest_size=10).hexdigest()
        elif n == "cl":  # mentions no variable
            if op == "lv" or op == "bv":
                r = False
            else:
                ch = []
                _walk(a, ch)
                r = all(c.cl for c in ch)
            self.cl = r
        elif n == "sd":
            # shape: the digest with bound and free variables forgotten, so that renaming a variable
            # does not reorder the decisions of a term
            if op == "lv" or op == "bv":
                r = "v" + _enc(a[-1:])
            elif self.cl:
                r = self.dg
            elif op in ("xor", "bor", "band", "poly"):
                r = hashlib.blake2b((op + ",".join(sorted(_encs(x) for x in a[0]))).encode(), digest_size=8).hexdigest()
            else:
                r = hashlib.blake2b((op + _encs((a[0],) + a[2:] if op == "B" else a)).encode(), digest_size=8).hexdigest()
            self.sd = r
        elif n == "od":
            r = self.od = (op != "disc", self.sd, self.dg)
        else:
            raise AttributeError(n)
        return r


INTERN = {}


def _walk(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _walk(y, out)


def _enc(x):
    if isinstance(x, T):
        return x.dg
    if isinstance(x, tuple):
        return "(" + ",".join(_enc(y) for y in x) + ")"
    return repr(x)


def _encs(x):
    if isinstance(x, T):
        return x.sd
    if isinstance(x, tuple):
        if x and isinstance(x[0], tuple) and len(x) == 2 and isinstance(x[0], tuple) and all(isinstance(y, T) for y in x[0]) and not isinstance(x[1], (T, tuple)):
            return "(" + ",".join(sorted(_encs(y) for y in x[0])) + ":" + repr(x[1]) + ")"  # monomial
        return "(" + ",".join(_encs(y) for y in x) + ")"
    return repr(x)


def mk(op, *a):
    key = (op, a)
    t = INTERN.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    ch = []
    _walk(a, ch)
    h = 0
    fs = EMPTY
    for c in ch:
        if c.h > h:
            h = c.h
        if c.fs:
            fs = fs | c.fs if fs else c.fs
    if op == "bv" or op == "B":
        h = max(h, a[0] if op == "bv" else a[1])
    elif op == "lv":
        fs = frozenset((t,))
    t.h = h
    t.fs = fs
    INTERN[key] = t
    return t


# ------------------------------------------------------------------ types
class Ty:
    """Canonical type: k in int/uint/bool/char/float/str/ref/seq/array/tuple/adt/closure/fn/other."""

    __slots__ = ("s", "k", "args", "n", "name", "vs", "fields", "inst", "m")

    def __repr__(self):
        return self.s


REG = {}  # canonical string -> Ty


def tyof(s):
    return REG.get(s)


def ty_simple(s, k):
    if s not in REG:
        t = Ty()
        t.s = s
        t.k = k
        t.args = ()
        t.n = None
        t.name = s
        t.vs = None
        t.fields = None
        t.inst = None
        t.m = False
        REG[s] = t
    return REG[s]


for _s in ("u8", "u16", "u32", "u64", "u128", "usize"):
    ty_simple(_s, "uint")
for _s in ("i8", "i16", "i32", "i64", "i128", "isize"):
    ty_simple(_s, "int")
for _s in ("f32", "f64"):
    ty_simple(_s, "float")
ty_simple("bool", "bool")
ty_simple("char", "char")
ty_simple("str", "str")
ty_simple("?", "other")

# ------------------------------------------------------------------ basic terms
BOT = mk("bot")


def I(n):
    if isinstance(n, Fraction):
        if n.denominator == 1:
            n = int(n)
        else:
            return mk("q", n.numerator, n.denominator)
    return mk("i", int(n))


FALSE = I(0)
TRUE = I(1)
UNIT = mk("S", "()", ())


def isconst(t):
    return t.op in ("i", "q", "str", "ch")


def cval(t):
    return t.a[0] if t.op == "i" else Fraction(t.a[0], t.a[1])


def leaf_ty(t):
    """canonical type string of a leaf"""
    op = t.op
    if op in ("sym", "lv", "bv", "ap", "fld", "pay", "sel", "dr"):
        return t.a[-1]
    if op in ("S", "E"):
        return t.a[0]
    if op == "i":
        return "usize"
    if op == "B":
        return t.a[5][0] if t.a[5] else ("usize" if t.a[0] in ("sum", "first") else "?")
    return "?"


def disc_vals(tys):
    ty = REG.get(tys)
    if ty is None or not ty.vs:
        return None
    return [v[1] for v in ty.vs]


def dom(atom):
    """(lo, hi or None) of an integer-valued atom"""
    if atom.op == "disc":
        v = disc_vals(atom.a[1])
        if v:
            return min(v), max(v)
        return 0, None
    if atom.op == "fsg":
        return -1, 1
    if atom.op == "bit":
        return 0, 1
    if atom.op == "poly":
        return (0, None) if all(c > 0 and all(nonneg(f) for f in m) for m, c in atom.a[0]) else (NEG, None)
    ty = leaf_ty(atom)
    if ty == "bool":
        return 0, 1
    if ty == "u8":
        return 0, 255
    return (0, None) if nonneg(atom) else (NEG, None)


def nonneg(t):
    if t.op in ("ap", "sym", "lv", "bv", "fld", "pay", "sel", "dr"):
        ty = t.a[-1]
        return ty[:1] == "u" or ty in ("char",) or "NonMax" in ty
    if t.op in ("xor", "bor", "band", "disc", "bit"):
        return True
    if t.op == "B":
        if t.a[0] == "sum":
            return _nnsum(t)
        return t.a[0] == "first"
    return False


NN = {}


def _nnsum(t):
    """no summand is negative"""
    r = NN.get(t)
    if r is None:
        st, r = [t.a[4][0]], True
        seen = set()
        while st and r:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "D":
                st.extend(c for _, c in x.a[1])
            elif x.op in ("i", "q"):
                r = cval(x) >= 0
            elif x.op == "poly":
                r = all(c > 0 for _, c in x.a[0])
        NN[t] = r
    return r


def _neg(t):
    """a decision between numbers none of which is positive"""
    if t.op == "D":
        return all(_neg(c) for _, c in t.a[1])
    return t.op in ("i", "q") and cval(t) <= 0


def mkD(atom, cuts):
    """cuts: list of (lo, child) ascending, first lo = domain lo."""
    out = []
    for lo, c in cuts:
        if out and out[-1][1] is c:
            continue
        out.append((lo, c))
    if len(out) == 1:
        return out[0][1]
    return mk("D", atom, tuple(out))


def boolval(atom):
    """value form of a boolean-domain atom"""
    return mk("D", atom, ((0, FALSE), (1, TRUE)))


def discval(x, tys):
    vals = disc_vals(tys)
    if not vals:
        return mk("disc", x, tys)
    vals = sorted(vals)
    if len(vals) == 1:
        return I(vals[0])
    at = mk("disc", x, tys)
    return mk("D", at, tuple((v, I(v)) for v in vals))


def wrap(leaf):
    """value form of a freshly built leaf"""
    if leaf_ty(leaf) == "bool":
        return boolval(leaf)
    return leaf


def order(atom):
    return atom.od


def _cof(t, atom, lo):
    if t.op == "D" and t.a[0] is atom:
        r = None
        for l, c in t.a[1]:
            if l <= lo:
                r = c
            else:
                break
        return r if r is not None else t.a[1][0][1]
    return t


BUDGET = [0]
LIMIT = [6_000_000]
UNTIL = [float("inf")]


class TooBig(Exception):
    pass


def tick():
    n = BUDGET[0] = BUDGET[0] + 1
    if n > LIMIT[0]:
        raise TooBig()
    if not n & 255 and time.time() > UNTIL[0]:
        raise TooBig("time")


def apply(fn, *args):
    memo = {}

    def rec(args):
        k = args
        r = memo.get(k)
        if r is not None:
            return r
        tick()
        at = None
        for x in args:
            if x.op == "D":
                if at is None or order(x.a[0]) < order(at):
                    at = x.a[0]
        if at is None:
            r = fn(*args)
        else:
            los = sorted({l for x in args if x.op == "D" and x.a[0] is at for l, _ in x.a[1]})
            r = mk_switch_atom(at, [(lo, rec(tuple(_cof(x, at, lo) for x in args))) for lo in los])
        memo[k] = r
        return r

    return rec(tuple(args))


def mk_switch_atom(at, cuts):
    """cuts' children may contain decisions on atoms ordered before `at` (fn may create some)"""
    ok = True
    oa = order(at)
    for _, c in cuts:
        if c.op == "D" and not (oa < order(c.a[0])):
            ok = False
        elif c.op in ("S", "E", "IT"):
            return switch_struct(at, cuts)
    if ok:
        return mkD(at, cuts)
    # general: build by ite over indicator functions
    res = cuts[0][1]
    for i in range(1, len(cuts)):
        ind = mkD(at, [(dom(at)[0], FALSE), (cuts[i][0], TRUE)])
        res = ite(ind, cuts[i][1], res)
    return res


def switch_struct(at, cuts):
    res = cuts[0][1]
    for i in range(1, len(cuts)):
        ind = mkD(at, [(dom(at)[0], FALSE), (cuts[i][0], TRUE)])
        res = ite(ind, cuts[i][1], res)
    return res


ITE_MEMO = {}


def is_true(t):
    return t is TRUE


def is_false(t):
    return t is FALSE


def seqlike(t):
    return t.op in ("sq", "cat", "gs", "rep", "st") or (t.op == "B" and t.a[0] == "cm")


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    k = (c, a, b)
    r = ITE_MEMO.get(k)
    if r is not None:
        return r
    tick()
    if a.op in ("S", "E", "IT") or b.op in ("S", "E", "IT"):
        r = ite_struct(c, a, b)
    elif c.op != "D":
        # an unresolved boolean
        r = mkD(c, [(0, b), (1, a)]) if (a.op != "D" and b.op != "D") else apply(lambda x, y, z: mkD(c, [(0, z), (1, y)]), c, a, b)
    elif (seqlike(a) or seqlike(b)) and a.op != "D" and b.op != "D":
        r = ite_seq(c, a, b)
    else:
        at = None
        for x in (c, a, b):
            if x.op == "D" and (at is None or order(x.a[0]) < order(at)):
                at = x.a[0]
        los = sorted({l for x in (c, a, b) if x.op == "D" and x.a[0] is at for l, _ in x.a[1]})
        cuts = [(lo, ite(_cof(c, at, lo), _cof(a, at, lo), _cof(b, at, lo))) for lo in los]
        if any(x.op in ("S", "E", "IT") for _, x in cuts):
            r = switch_struct(at, cuts)
        elif any(x.op == "D" and not (order(at) < order(x.a[0])) for _, x in cuts):
            r = mk_switch_atom(at, cuts)
        else:
            r = mkD(at, cuts)
    ITE_MEMO[k] = r
    return r


def ite_plain(c, a, b):
    """ite that keeps sequences as decision leaves"""
    return apply(lambda x, y, z: y if x is TRUE else z if x is FALSE else BOT, c, a, b)


def seq_parts(t):
    return t.a[0] if t.op == "cat" else (t,)


def ite_seq(c, a, b):
    pa = list(seq_parts(a)) if not (a.op == "sq" and not a.a[0]) else []
    pb = list(seq_parts(b)) if not (b.op == "sq" and not b.a[0]) else []
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    # element-wise common prefix of a literal part
    pre = list(pa[:i])
    ra, rb = pa[i:], pb[i:]
    if ra and rb and ra[0].op in ("sq", "gs") and rb[0].op in ("sq", "gs"):
        ga, gb = gitems(ra[0]), gitems(rb[0])
        j = 0
        while j < len(ga) and j < len(gb) and ga[j] == gb[j]:
            j += 1
        if j:
            pre.append(mkgs(ga[:j]))
            ra = ([mkgs(ga[j:])] if ga[j:] else []) + ra[1:]
            rb = ([mkgs(gb[j:])] if gb[j:] else []) + rb[1:]
    if all(x.op in ("sq", "gs") for x in ra + rb) and (not ra or not rb):
        its = []
        for x in ra:
            its += [(band(c, g), v) for g, v in gitems(x)]
        for x in rb:
            its += [(band(bnot(c), g), v) for g, v in gitems(x)]
        return mkcat(pre + [mkgs(its)])
    if pre and (ra or rb):
        return mkcat(pre + [ite_plain(c, mkcat(ra), mkcat(rb))])
    return ite_plain(c, a, b)


def gitems(t):
    return [(TRUE, x) for x in t.a[0]] if t.op == "sq" else list(t.a[0])


def mkgs(items):
    items = [(g, x) for g, x in items if g is not FALSE]
    if all(g is TRUE for g, _ in items):
        return mk("sq", tuple(x for _, x in items))
    return mk("gs", tuple(items))


def mkcat(parts):
    out = []
    for p in parts:
        for q in seq_parts(p):
            if q.op == "sq" and not q.a[0]:
                continue
            if out and out[-1].op in ("sq", "gs") and q.op in ("sq", "gs"):
                out[-1] = mkgs(gitems(out[-1]) + gitems(q))
            else:
                out.append(q)
    if not out:
        return mk("sq", ())
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def ite_struct(c, a, b):
    if a.op == "IT" or b.op == "IT":
        if a.op == "IT" and b.op == "IT" and a.a[0] == b.a[0] and a.a[4] == b.a[4] and a.a[1] is b.a[1]:
            return mk("IT", a.a[0], a.a[1], ite(c, a.a[2], b.a[2]), ite(c, a.a[3], b.a[3]), a.a[4])
        if a is BOT:
            return b
        if b is BOT:
            return a
        return mk("ap", "ite", (c, a, b), "?")
    if a.op == "S" or b.op == "S":
        ref = a if a.op == "S" else b
        n = len(ref.a[1])
        fa = fields_of(a, ref)
        fb = fields_of(b, ref)
        if fa is None or fb is None or len(fa) != n or len(fb) != n:
            return mk("ap", "ite", (c, a, b), ref.a[0])
        return mkS(ref.a[0], tuple(ite(c, x, y) for x, y in zip(fa, fb)))
    # enums
    tys = a.a[0] if a.op == "E" else b.a[0]
    da, pa = enum_parts(a, tys)
    db, pb = enum_parts(b, tys)
    if da is None or db is None:
        return mk("ap", "ite", (c, a, b), tys)
    d = ite(c, da, db)
    pays = []
    for k in sorted(set(pa) | set(pb)):
        xa, xb = pa.get(k), pb.get(k)
        n = len(xa or xb)
        xa = xa or (BOT,) * n
        xb = xb or (BOT,) * n
        pays.append((k, tuple(ite(c, x, y) for x, y in zip(xa, xb))))
    return mkE(tys, d, pays)


def fields_of(t, like):
    if t.op == "S":
        return t.a[1]
    if t is BOT:
        return tuple(BOT for _ in like.a[1])
    if t.op in ("E", "IT", "i"):
        return None
    tys = like.a[0]
    ty = REG.get(tys)
    if ty is None or ty.fields is None:
        return tuple(getfield(t, i, leaf_ty(x)) for i, x in enumerate(like.a[1]))
    return tuple(getfield(t, i, f[1]) for i, f in enumerate(ty.fields))


def enum_parts(t, tys):
    """(disc, {variant: fields}) with strict BOT outside the variant"""
    if t.op == "E":
        return t.a[1], dict(t.a[2])
    if t is BOT:
        return BOT, {}
    if t.op in ("S", "IT", "i"):
        return None, {}
    ty = REG.get(tys)
    if ty is None or not ty.vs:
        return None, {}
    if t.op == "D":
        d = apply(lambda x: getdisc(x, tys), t)
        pays = {}
        for vi, (vn, dv, fs) in enumerate(ty.vs):
            if fs:
                pays[vi] = tuple(apply(lambda x: BOT if x is BOT else ite(cmp_eq_const(getdisc(x, tys), dv), getpay(x, vi, i, f[1]), BOT), t) for i, f in enumerate(fs))
        return d, pays
    d = discval(t, tys)
    pays = {}
    for vi, (vn, dv, fs) in enumerate(ty.vs):
        if fs:
            is_k = cmp_eq_const(d, dv)
            pays[vi] = tuple(ite(is_k, mkpay(t, vi, i, f[1]), BOT) for i, f in enumerate(fs))
    return d, pays


def mkpay(x, vi, i, tys):
    return wrap(mk("pay", x, vi, i, tys))


def mkE(tys, d, pays):
    """normalises strictness; contracts eta-expanded leaves"""
    ty = REG.get(tys)
    pays = [(k, fs) for k, fs in pays if any(f is not BOT for f in fs)]
    # eta contraction
    if d.op == "D" and d.a[0].op == "disc" and d is discval(d.a[0].a[0], tys):
        x = d.a[0].a[0]
        d2, p2 = enum_parts(x, tys)
        if d2 is d and tuple(sorted(p2.items())) == tuple(sorted((k, tuple(f)) for k, f in pays)):
            return x
    return mk("E", tys, d, tuple(sorted((k, tuple(f)) for k, f in pays)))


def mkS(tys, fields):
    fields = tuple(fields)
    f0 = fields[0] if fields else None
    if f0 is not None:
        if f0.op == "D" and f0.a[0].op == "fld" and f0 is boolval(f0.a[0]):
            f0 = f0.a[0]
        if f0.op == "fld" and f0.a[1] == 0 and leaf_ty(f0.a[0]) == tys:
            x = f0.a[0]
            ty = REG.get(tys)
            if ty is not None and ty.fields and len(ty.fields) == len(fields):
                if all(getfield(x, i, ty.fields[i][1]) is f for i, f in enumerate(fields)):
                    return x
    return mk("S", tys, fields)


def expand(t, tys):
    """eta-expanded struct"""
    if t.op == "S":
        return t
    ty = REG.get(tys)
    if ty is None or ty.fields is None:
        return None
    return mk("S", tys, tuple(getfield(t, i, f[1]) for i, f in enumerate(ty.fields)))


def variant(tys, vi, fields=()):
    ty = REG[tys]
    return mkE(tys, I(ty.vs[vi][1]), [(vi, tuple(fields))] if fields else [])


def cmp_eq_const(d, n):
    if n is None:
        return FALSE

    def f(x):
        if x.op == "i":
            return TRUE if x.a[0] == n else FALSE
        if x is BOT:
            return BOT
        return cmp2("eq", x, I(n))

    return apply(f, d)


def getfield(t, i, tys):
    """field i of a struct value"""
    if t.op == "S":
        return t.a[1][i] if i < len(t.a[1]) else BOT
    if t.op == "D":
        return apply(lambda x: getfield(x, i, tys), t)
    if t is BOT:
        return BOT
    return wrap(mk("fld", t, i, tys))


def dropbot(t):
    """remove don't-care leaves"""
    if t.op == "S":
        return mkS(t.a[0], tuple(dropbot(x) for x in t.a[1]))
    if t.op == "E":
        return mkE(t.a[0], dropbot(t.a[1]), t.a[2])
    if t.op != "D":
        return t
    return _dropbot(t, {})


def _dropbot(t, memo):
    if t.op != "D":
        return t
    r = memo.get(t)
    if r is not None:
        return r
    ch = [(lo, _dropbot(c, memo)) for lo, c in t.a[1]]
    good = [c for _, c in ch if c is not BOT]
    if not good:
        r = BOT
    else:
        out = []
        pend = None
        lo0 = ch[0][0]
        for lo, c in ch:
            if c is BOT:
                continue
            out.append((lo if out else lo0, c))
        r = mkD(t.a[0], out)
    memo[t] = r
    return r


def getpay(t, vi, i, tys):
    """field i of variant vi of an enum value, assuming it is that variant"""
    if t.op == "E":
        for k, fs in t.a[2]:
            if k == vi:
                return dropbot(fs[i]) if i < len(fs) else BOT
        return BOT
    if t.op == "D":
        return dropbot(apply(lambda x: getpay(x, vi, i, tys), t))
    if t is BOT:
        return BOT
    return mkpay(t, vi, i, tys)


def getdisc(t, tys):
    if t.op == "E":
        return t.a[1]
    if t.op == "D":
        return apply(lambda x: getdisc(x, tys), t)
    if t is BOT:
        return BOT
    if t.op == "S":
        return I(0)
    return discval(t, tys)


# ------------------------------------------------------------------ booleans
def bnot(a):
    return apply(lambda x: BOT if x is BOT else (I(1 - x.a[0]) if x.op == "i" else mk("ap", "not", (x,), "bool")), a)


def band(a, b):
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def bor(a, b):
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


def restrict(f, care):
    """simplify decision term f under the assumption `care`"""
    if care is TRUE or care is FALSE or f.op not in ("D", "S", "E", "IT", "gs", "cat"):
        return f
    if f.op == "gs":
        return mkgs([(restrict(g, care), restrict(x, care)) for g, x in f.a[0]])
    if f.op == "cat":
        return mkcat([restrict(x, care) for x in f.a[0]])
    if f.op == "S":
        return mkS(f.a[0], tuple(restrict(x, care) for x in f.a[1]))
    if f.op == "E":
        d = restrict(f.a[1], care)
        return mkE(f.a[0], d, [(k, tuple(restrict(x, care) for x in fs)) for k, fs in f.a[2]])
    if f.op == "IT":
        return mk("IT", f.a[0], f.a[1], restrict(f.a[2], care), restrict(f.a[3], care), f.a[4])
    r = _restrict(f, care, {})
    return f if r is None else r


def _restrict(f, care, memo):
    """None when care is false everywhere"""
    if care is FALSE or care is BOT:
        return None
    if care is TRUE or f.op != "D":
        return f
    if care.op != "D":
        return f
    k = (f, care)
    if k in memo:
        return memo[k]
    tick()
    fa, ca = f.a[0], care.a[0]
    if fa is not ca and order(ca) < order(fa):
        c2 = FALSE
        for _, c in care.a[1]:
            c2 = bor(c2, c if c is not BOT else FALSE)
        r = _restrict(f, c2, memo)
    else:
        los = sorted({l for x in (f, care) if x.op == "D" and x.a[0] is fa for l, _ in x.a[1]})
        ch = [(lo, _restrict(_cof(f, fa, lo), _cof(care, fa, lo), memo)) for lo in los]
        good = [(lo, c) for lo, c in ch if c is not None]
        if not good:
            r = None
        else:
            out = []
            for lo, c in good:
                out.append((lo if out else los[0], c))
            r = mkD(fa, out)
    memo[k] = r
    return r


# ------------------------------------------------------------------ arithmetic
def topoly(t):
    """dict mono->coef ; mono = sorted tuple of leaf terms"""
    if t.op == "i" or t.op == "q":
        c = cval(t)
        return {(): c} if c else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {(t,): 1}


def _undiv(p):
    """y*div(x,y) is x - rem(x,y)"""
    for m, c in p.items():
        for f in m:
            if f.op == "ap" and f.a[0] == "div":
                x, y = f.a[1]
                rest = list(m)
                rest.remove(f)
                if y.op == "i":
                    if not y.a[0] or c % y.a[0]:
                        continue
                    c = c // y.a[0]
                elif y in m:
                    rest.remove(y)
                else:
                    continue
                q = dict(p)
                del q[m]
                t = topoly(mk("ap", "rem", (x, y), "usize"))
                for s, z in ((1, topoly(x)), (-1, t)):
                    for m2, c2 in z.items():
                        k = tuple(sorted(tuple(rest) + m2, key=lambda g: g.dg))
                        q[k] = q.get(k, 0) + s * c * c2
                return q
    return None


def frompoly(p):
    while True:
        q = _undiv(p)
        if q is None:
            break
        p = q
    p = {m: c for m, c in p.items() if c}
    if not p:
        return I(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return I(c)
        if len(m) == 1 and c == 1:
            return m[0]
    its = tuple(sorted(((m, (int(c) if c == int(c) else c)) for m, c in p.items()), key=lambda mc: [f.dg for f in mc[0]]))
    return mk("poly", its)


def _arith(op, x, y):
    if x is BOT or y is BOT:
        return BOT
    a, b = topoly(x), topoly(y)
    if op == "mul":
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2, key=lambda f: f.dg))
                r[m] = r.get(m, 0) + c1 * c2
        return frompoly(r)
    s = 1 if op == "add" else -1
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return frompoly(r)


def add(a, b):
    return apply(lambda x, y: _arith("add", x, y), a, b)


def sub(a, b):
    return apply(lambda x, y: _arith("sub", x, y), a, b)


def mul(a, b):
    return apply(lambda x, y: _arith("mul", x, y), a, b)


def _divrem(op, x, y):
    if x is BOT or y is BOT:
        return BOT
    if x.op == "i" and y.op == "i" and y.a[0]:
        return I(x.a[0] // y.a[0] if op == "div" else x.a[0] % y.a[0])
    if y is TRUE:
        return x if op == "div" else I(0)
    if x is FALSE:
        return x  # a division by zero panics
    # (q*y + r) / y with a syntactic multiple
    p = topoly(x)
    if y.op != "poly":
        yy = topoly(y)
        q, r = {}, {}
        ylf = [m for m in yy if m]
        if y.op == "i":
            for m, c in p.items():
                if c % y.a[0] == 0 and m != ():
                    q[m] = c // y.a[0]
                else:
                    r[m] = c
        else:
            for m, c in p.items():
                if y in m:
                    mm = list(m)
                    mm.remove(y)
                    q[tuple(mm)] = c
                else:
                    r[m] = c
        if q:
            rest = frompoly(r)
            if op == "rem":
                return _divrem("rem", rest, y)
            return _arith("add", frompoly(q), _divrem("div", rest, y))
    return mk("ap", op, (x, y), "usize")


def div(a, b):
    return apply(lambda x, y: _divrem("div", x, y), a, b)


def rem(a, b):
    return apply(lambda x, y: _divrem("rem", x, y), a, b)


def fdiv(a, b):
    return apply(lambda x, y: mk("ap", "fdiv", (x, y), "f32") if not (isconst(x) and isconst(y)) else I(Fraction(cval(x)) / Fraction(cval(y))), a, b)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def _kind(t):
    """canonical type of a structured value, when it is known"""
    if t.op in ("S", "E"):
        return REG.get(t.a[0])
    if t.op == "D":
        for _, c in t.a[1]:
            r = _kind(c)
            if r is not None:
                return r
        return None
    if t.op in ("ap", "sym", "lv", "bv", "fld", "pay", "sel", "dr"):
        return REG.get(t.a[-1])
    return None


def same_parts(x, y, ty, d=0):
    """structural equality, part by part where the type is known"""
    if x is y:
        return TRUE
    if x is BOT or y is BOT:
        return BOT
    if ty is None or d > 4:
        return same_leaf(x, y)
    if ty.k in ("uint", "int", "float", "char", "bool", "str") or ty.s == "String":
        return cmpT("eq", x, y, ty.k == "float")
    if ty.vs:
        d1, p1 = enum_parts(x, ty.s)
        d2, p2 = enum_parts(y, ty.s)
        if d1 is None or d2 is None:
            return same_leaf(x, y)
        r = FALSE
        for vi, (vn, dv, fs) in enumerate(ty.vs):
            c = nobot_(band(cmp_eq_const(d1, dv), cmp_eq_const(d2, dv)))
            for i, f in enumerate(fs):
                a, b = p1.get(vi), p2.get(vi)
                if a is None or b is None:
                    c = FALSE  # that variant is impossible on one side
                    break
                c = nobot_(ite(c, same_parts(a[i], b[i], REG.get(f[1]), d + 1), FALSE))
            r = bor(r, c)
        return r
    if ty.k == "tuple" and ty.fields and len(ty.fields) <= 4:
        r = TRUE
        for i, f in enumerate(ty.fields):
            r = band(r, nobot_(same_parts(getfield(x, i, f[1]), getfield(y, i, f[1]), REG.get(f[1]), d + 1)))
        return r
    return same_leaf(x, y)


def same_leaf(x, y):
    if x is y:
        return TRUE
    if x.op == "D" or y.op == "D":
        n = leafcount(x) * leafcount(y)
        if n <= 64:
            return apply(same_leaf, x, y)
    if x is BOT or y is BOT:
        return BOT
    for u, v in ((x, y), (y, x)):
        # an array compared with a constant one
        if u.op == "sq" and len(u.a[0]) > 8 and all(z is u.a[0][0] and z.op == "i" for z in u.a[0]) and v.op not in ("sq", "S", "E", "D"):
            e = fresh("usize")
            return bnot(mk_any(I(0), I(len(u.a[0])), cmpT("ne", seq_get(v, e, elem_ty(leaf_ty(v))), u.a[0][0]), e))
    if x.dg > y.dg:
        x, y = y, x
    return boolval(mk("ap", "same", (x, y), "bool"))


def same(x, y):
    """equality of two structured values"""
    if x is y:
        return TRUE
    if x is BOT or y is BOT:
        return BOT
    return same_parts(x, y, _kind(x) or _kind(y))


def cmp2(op, x, y, flt=False):
    """comparison of two leaves"""
    if x is BOT or y is BOT:
        return BOT
    if x.op in ("str", "ch", "sq") or y.op in ("str", "ch", "sq"):
        if x.op == y.op and x.op in ("str", "ch"):
            r = {"eq": x is y, "ne": x is not y}.get(op)
            if r is None:
                a, b = x.a[0], y.a[0]
                r = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
            return I(r)
        if x.op in ("str",) or y.op in ("str",):
            if x.op == "str":
                x, y = y, x
            v = boolval(mk("ap", "streq", (x, y), "bool"))
            return v if op == "eq" else bnot(v)
        if x.op == "ch":
            x = I(x.a[0])
        if y.op == "ch":
            y = I(y.a[0])
    if x.op in ("S", "E", "sq", "cat", "cm", "gs", "ref", "clo", "IT") or y.op in ("S", "E", "sq", "cat", "cm", "gs", "ref", "clo", "IT"):
        if op in ("eq", "ne"):
            v = same(x, y)
            return v if op == "eq" else bnot(v)
        if op in ("gt", "ge"):
            x, y = y, x
            op = {"gt": "lt", "ge": "le"}[op]
        return boolval(mk("ap", "cmp:" + op, (x, y), "bool"))
    d = topoly(_arith("sub", x, y))
    c = d.pop((), 0)
    if not d:
        r = {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
        return I(r)
    if flt:
        items = sorted(d.items(), key=lambda mc: [f.dg for f in mc[0]])
        lead = items[0][1]
        s = 1 if lead > 0 else -1
        p = {m: Fraction(v) / abs(lead) * s for m, v in d.items()}
        if c:
            p[()] = Fraction(c) / abs(lead) * s
        at = mk("fsg", frompoly(p))
        # value sets for sign -1,0,1 of s*(x-y)
        res = []
        for sg in (-1, 0, 1):
            q = sg * s
            res.append((sg, I({"eq": q == 0, "ne": q != 0, "lt": q < 0, "le": q <= 0, "gt": q > 0, "ge": q >= 0}[op])))
        return mkD(at, res)
    items = sorted(d.items(), key=lambda mc: [f.dg for f in mc[0]])
    g = 0
    for _, v in items:
        if v != int(v):
            if op in ("eq", "ne"):
                v = same(x, y)
                return v if op == "eq" else bnot(v)
            return boolval(mk("ap", "cmp:" + op, (x, y), "bool"))
        g = _gcd(g, int(v))
    s = 1 if items[0][1] > 0 else -1
    # prefer a sign that makes the form non-negative
    if all(v < 0 for _, v in items):
        s = -1
    elif all(v > 0 for _, v in items):
        s = 1
    p = frompoly({m: int(v) // g * s for m, v in items})
    # s*g*p + c (op) 0   i.e.  value z = p ; cond on  s*g*z + c
    if p.op == "D":
        raise AssertionError
    lo, hi = dom(p)
    # small finite atoms -> expand
    def sat(z):
        q = s * g * z + c
        return {"eq": q == 0, "ne": q != 0, "lt": q < 0, "le": q <= 0, "gt": q > 0, "ge": q >= 0}[op]

    # critical z around -c/(s*g)
    z0 = Fraction(-c, s * g)
    f = z0.numerator // z0.denominator
    pts = sorted({z for z in (lo, f, f + 1, f + 2) if z >= lo and (hi is None or z <= hi)})
    if not pts or pts[0] != lo:
        pts = [lo] + pts
    return mkD(p, [(z, I(sat(z if z > NEG else f - 5))) for z in pts])


def cmpT(op, a, b, flt=False):
    return apply(lambda x, y: cmp2(op, x, y, flt), a, b)


# bit operations -----------------------------------------------------------
def _ac(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out += list(x.a[0])
        else:
            out.append(x)
    return out


def _xor(x, y):
    if x is BOT or y is BOT:
        return BOT
    if x.op == "i" and y.op == "i":
        return I(x.a[0] ^ y.a[0])
    cnt = {}
    k = 0
    for t in _ac("xor", [x, y]):
        if t.op == "i":
            k ^= t.a[0]
        else:
            cnt[t] = cnt.get(t, 0) ^ 1
    its = sorted([t for t, n in cnt.items() if n], key=lambda t: t.dg)
    if k:
        its.append(I(k))
    if not its:
        return I(0)
    if len(its) == 1:
        return its[0]
    return mk("xor", tuple(its))


def _bor(x, y):
    if x is BOT or y is BOT:
        return BOT
    if x.op == "i" and y.op == "i":
        return I(x.a[0] | y.a[0])
    s = set()
    k = 0
    for t in _ac("bor", [x, y]):
        if t.op == "i":
            k |= t.a[0]
        else:
            s.add(t)
    its = sorted(s, key=lambda t: t.dg)
    if k:
        its.append(I(k))
    if len(its) == 1:
        return its[0]
    return mk("bor", tuple(its))


def _band(x, y):
    if x is BOT or y is BOT:
        return BOT
    if x.op == "i" and y.op == "i":
        return I(x.a[0] & y.a[0])
    if x.op == "i":
        x, y = y, x
    if y.op == "i":
        k = y.a[0]
        if k == 0:
            return I(0)
        if x.op == "bor":
            r = I(0)
            for t in x.a[0]:
                r2 = apply(_band, t, y)
                r = apply(_bor, r, r2)
            return r
        if k > 0 and k & (k + 1) == 0 and k > 1 and x.op != "flags":
            return _divrem("rem", x, I(k + 1)) if k < 64 and not _isflags(x) else _bits(x, k)
        if 0 < k < 64:
            return _bits(x, k)
    s = set(_ac("band", [x, y]))
    its = sorted(s, key=lambda t: t.dg)
    if len(its) == 1:
        return its[0]
    return mk("band", tuple(its))


def _isflags(x):
    return x.op == "fld" or x.op == "sym"


def _bits(x, k):
    r = I(0)
    b = 0
    while k:
        if k & 1:
            r = add(r, mkD(mk("bit", x, b), [(0, I(0)), (1, I(1 << b))]))
        k >>= 1
        b += 1
    return r


def bitop(op, a, b):
    f = {"xor": _xor, "or": _bor, "and": _band}[op]
    return apply(f, a, b)


def ap(name, args, tys):
    """uninterpreted application; decisions in scalar arguments are lifted"""
    args = tuple(args)
    if any(x.op == "D" for x in args):
        n = 1
        for x in args:
            if x.op == "D":
                n *= leafcount(x)
        if n <= 64:
            return apply(lambda *xs: wrap(mk("ap", name, tuple(xs), tys)) if BOT not in xs else BOT, *args)
    return wrap(mk("ap", name, args, tys))


def leafcount(t):
    if t.op != "D":
        return 1
    seen = set()

    def rec(x):
        if x.op != "D":
            seen.add(x)
            return
        if ("v", x) in seen:
            return
        seen.add(("v", x))
        for _, c in x.a[1]:
            rec(c)

    rec(t)
    return len([x for x in seen if isinstance(x, T)])


# ------------------------------------------------------------------ sequences
def elem_ty(tys):
    ty = REG.get(tys)
    if ty is not None and ty.args:
        return ty.args[0]
    return "?"


def seq_len(s):
    if s.op == "D":
        return apply(seq_len, s)
    if s is BOT:
        return BOT
    if s.op == "sq":
        return I(len(s.a[0]))
    if s.op == "rep":
        return s.a[1]
    if s.op == "st":
        return seq_len(s.a[0])
    if s.op == "gs":
        r = I(0)
        for g, _ in s.a[0]:
            r = add(r, ite(g, I(1), I(0)))
        return r
    if s.op == "cat":
        r = I(0)
        for p in s.a[0]:
            r = add(r, seq_len(p))
        return r
    if s.op == "B" and s.a[0] == "cm":
        (e,), items = openb(s)
        t = I(0)
        for g, _ in items:
            t = add(t, ite(g, I(1), I(0)))
        return mk_sum(s.a[3][0], s.a[3][1], t, e)
    if s.op == "sub":
        return s.a[2]
    if s.op == "fst":
        return seq_len(s.a[0])
    tys = leaf_ty(s)
    ty = REG.get(tys)
    if ty is not None and ty.k == "array" and ty.n is not None:
        return I(ty.n)
    return mk("ap", "len", (s,), "usize")


def seq_get(s, i, ety="?"):
    if s.op == "D" or i.op == "D":
        return dropbot(apply(lambda x, y: seq_get(x, y, ety), s, i))
    if s is BOT or i is BOT:
        return BOT
    if s.op == "sq":
        if i.op == "i" and 0 <= i.a[0] < len(s.a[0]):
            return s.a[0][i.a[0]]
        if s.a[0] and all(x is s.a[0][0] for x in s.a[0]):
            return s.a[0][0]
        return selleaf(s, i, ety)
    if s.op == "rep":
        return s.a[0]
    if s.op == "st":
        b, j, v = s.a
        e = cmp2("eq", i, j)
        if e is TRUE:
            return v
        if e is FALSE:
            return seq_get(b, i, ety)
        return ite(e, v, seq_get(b, i, ety))
    if s.op == "sub":
        return seq_get(s.a[0], add(s.a[1], i), ety)
    if s.op == "B" and s.a[0] == "cm" and len(s.a[4]) == 1 and s.a[4][0][0] is TRUE:
        (e,), items = openb(s)
        return subst(items[0][1], {e: add(s.a[3][0], i)})
    return selleaf(s, i, ety)


def selleaf(s, i, ety):
    return wrap(mk("sel", s, i, ety))


def seq_set(s, i, v):
    if s.op == "D" or i.op == "D":
        return apply(lambda x, y: seq_set(x, y, v) if not (v.op == "D") else mk("st", x, y, v), s, i)
    if s is BOT or i is BOT:
        return BOT
    if s.op == "sq" and i.op == "i" and 0 <= i.a[0] < len(s.a[0]):
        l = list(s.a[0])
        l[i.a[0]] = v
        return mk("sq", tuple(l))
    if s.op == "st":
        b, j, w = s.a
        if j is i:
            return seq_set(b, i, v)
        e = cmp2("eq", i, j)
        if e is FALSE and j.dg > i.dg:  # commute independent stores into a fixed order
            return mk("st", seq_set(b, i, v), j, w)
    if v.op == "sel" and v.a[0] is s and v.a[1] is i:
        return s
    return mk("st", s, i, v)


def seq_push(s, x):
    if s.op == "D":
        return apply(lambda y: seq_push(y, x), s)
    return mkcat([s, mk("sq", (x,))])


# ------------------------------------------------------------------ maps
def _keyeq(k, j):
    if k is j:
        return TRUE
    if k.op in ("S", "E") or j.op in ("S", "E") or not (leaf_ty(k) in REG and REG[leaf_ty(k)].k in ("uint", "int", "char", "bool") or k.op in ("i", "poly")):
        return same(k, j)
    return cmpT("eq", k, j)


def lookup(m, k, ty):
    if m.op == "D":
        return dropbot(apply(lambda x: lookup(x, k, ty), m))
    if m is BOT:
        return BOT
    if m.op == "ap" and m.a[0] == "mapset":
        b, j, v = m.a[1]
        return ite(nobot_(_keyeq(k, j)), v, lookup(b, k, ty))
    return wrap(mk("ap", "lookup", (m, k), ty))


def nobot_(c):
    return apply(lambda x: FALSE if x is BOT else x, c) if c.op != "i" else c


def haskey(m, k):
    if m.op == "D":
        return apply(lambda x: haskey(x, k), m)
    if m is BOT:
        return BOT
    if m.op == "ap" and m.a[0] == "mapset":
        return bor(nobot_(_keyeq(k, m.a[1][1])), haskey(m.a[1][0], k))
    if m.op == "sym" and m.a[0] == "empty":
        return FALSE
    return boolval(mk("ap", "haskey", (m, k), "bool"))


def mapset(m, k, v):
    if m.op == "D":
        return apply(lambda x: mapset(x, k, v) if x is not BOT else BOT, m)
    if m.op == "ap" and m.a[0] == "mapset" and m.a[1][1] is k:
        return mapset(m.a[1][0], k, v)
    if v.op == "D" and v.a[0].op not in ("sum",):
        pass
    return mk("ap", "mapset", (m, k, v), leaf_ty(m))


LVN = [0]


def fresh(tys="usize"):
    """temporary symbol for a loop variable while the loop body is analysed"""
    LVN[0] += 1
    return mk("lv", LVN[0], tys)


def hmax(*xs):
    ch = []
    _walk(xs, ch)
    return max([c.h for c in ch], default=0)


def inrange(lo, hi, body, e):
    """what the body decides about the range of its own variable is settled"""
    if hi.op == "D" or lo.op == "D" or e in hi.fs or e in lo.fs:
        return body
    care = cmpT("lt", e, hi)
    if lo is not FALSE:
        care = band(care, cmpT("ge", e, lo))
    if care.op != "D":
        return body

    def one(x):
        if isinstance(x, tuple):
            return tuple(one(y) for y in x)
        if e not in x.fs:
            return x
        return apply(leaf, restrict(x, care))

    def leaf(x):
        if x.op == "gs":
            return mkgs([(restrict(g, care), restrict(v, care)) for g, v in x.a[0]])
        if x.op == "cat":
            return mkcat([apply(leaf, restrict(q, care)) if e in q.fs else q for q in x.a[0]])
        return x

    return one(tuple(body))


def close(kind, outer, body, lvs, extra=()):
    """binder term: `body` under bound variables lvs (replaced by canonical names)"""
    if len(outer) == 2 and len(lvs) == 1:
        body = inrange(outer[0], outer[1], body, lvs[0])
    elif kind == "fold":
        body = inrange(FALSE, outer[0], body, lvs[0])
    lvl = 1 + hmax(outer, body)
    m = {lv: mk("bv", lvl, k, lv.a[-1]) for k, lv in enumerate(lvs)}
    nb = _map(body, lambda x: subst(x, m))
    return mk("B", kind, lvl, tuple(lv.a[-1] for lv in lvs), tuple(outer), nb, tuple(extra))


def openb(t):
    """fresh symbols and body of a binder term"""
    kind, lvl, tys, outer, body, extra = t.a
    lvs = [fresh(ty) for ty in tys]
    m = {mk("bv", lvl, k, ty): lv for k, (ty, lv) in enumerate(zip(tys, lvs))}
    return lvs, _map(body, lambda x: subst(x, m))


UNROLL = 600


def const_range(lo, hi, n=8, body=()):
    """a range short enough to be written out; large bodies stay comprehensions"""
    if lo.op != "i" or hi.op != "i" or hi.a[0] - lo.a[0] > n:
        return False
    if hi.a[0] - lo.a[0] <= 1:
        return True
    seen = set()
    st = [x for x in body]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > UNROLL:
            return False
        _walk(x.a, st)
    return True


def mk_sum(lo, hi, t, e):
    """sum over e in [lo,hi) of t(e)"""
    if t is FALSE:
        return FALSE
    if const_range(lo, hi, body=(t,)):
        r = I(0)
        for k in range(lo.a[0], hi.a[0]):
            r = add(r, subst(t, {e: I(k)}))
        return r
    if e not in t.fs:
        if t.op in ("i", "q", "poly") or (t.op != "D" and t.op != "S"):
            return mul(t, sub(hi, lo))
    # linearity: constants times indicator
    n = sub(I(0), t) if t.op == "D" and _neg(t) else None
    if n is not None:
        return sub(I(0), close("sum", (lo, hi), (n,), (e,)))
    return close("sum", (lo, hi), (t,), (e,))


def mk_any(lo, hi, g, e):
    if g is FALSE:
        return FALSE
    if const_range(lo, hi, body=(g,)):
        r = FALSE
        for k in range(lo.a[0], hi.a[0]):
            r = bor(r, subst(g, {e: I(k)}))
        return r
    if g is TRUE:
        return cmpT("lt", lo, hi)
    if e not in g.fs:
        return band(g, cmpT("lt", lo, hi))
    return cmpT("ge", mk_sum(lo, hi, ite(g, I(1), I(0)), e), I(1))


def mk_first(lo, hi, g, e):
    """least e in [lo,hi) with g(e); meaningful only when there is one"""
    if g is TRUE:
        return lo
    if const_range(lo, hi, body=(g,)) and lo.a[0] < hi.a[0]:
        r = I(hi.a[0] - 1)
        for k in range(hi.a[0] - 2, lo.a[0] - 1, -1):
            r = ite(subst(g, {e: I(k)}), I(k), r)
        return r
    return close("first", (lo, hi), (g,), (e,))


def mk_cm(lo, hi, items, e):
    items = [(g, x) for g, x in items if g is not FALSE]
    if not items:
        return mk("sq", ())
    if const_range(lo, hi, body=[y for z in items for y in z]):
        out = []
        for k in range(lo.a[0], hi.a[0]):
            for g, x in items:
                out.append((subst(g, {e: I(k)}), subst(x, {e: I(k)})))
        return mkgs(out)
    # identity comprehension over a whole sequence
    if len(items) == 1 and items[0][0] is TRUE and lo is FALSE:
        x = items[0][1]
        if x.op == "sel" and x.a[1] is e and e not in x.a[0].fs and seq_len(x.a[0]) is hi:
            return x.a[0]
    return close("cm", (lo, hi), tuple(items), (e,))


_BVS = {}


def bvs(t):
    """free canonical bound variables"""
    r = _BVS.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t,))
        elif t.h == 0:
            r = EMPTY
        else:
            ch = []
            _walk(t.a, ch)
            r = EMPTY
            for c in ch:
                r = r | bvs(c)
            if t.op == "B":
                r = frozenset(x for x in r if x.a[0] != t.a[1])
        _BVS[t] = r
    return r


# ------------------------------------------------------------------ substitution
def subst(t, m):
    memo = {}
    hs = any(k.op == "bv" for k in m)
    keys = set(m)

    def rec(x):
        if x in m:
            return m[x]
        if not x.a:
            return x
        if not hs:
            if not x.fs or not (x.fs & keys):
                return x
        else:
            if not (bvs(x) & keys) and not (x.fs and x.fs & keys):
                return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, rec)
        return r

    return rec(t)


def _map(x, rec):
    if isinstance(x, T):
        return rec(x)
    if isinstance(x, tuple):
        return tuple(_map(y, rec) for y in x)
    return x


def rebuild(x, rec):
    op = x.op
    a = x.a
    if op == "D":
        at = a[0]
        v = atomval(at, rec)
        ch = [(lo, rec(c)) for lo, c in a[1]]
        res = ch[0][1]
        for lo, c in ch[1:]:
            res = ite(cmpT("ge", v, I(lo)), c, res)
        return res
    if op == "poly":
        r = I(0)
        for m, c in a[0]:
            t = I(c)
            for f in m:
                t = mul(t, rec(f))
            r = add(r, t)
        return r
    if op == "S":
        return mkS(a[0], tuple(rec(f) for f in a[1]))
    if op == "E":
        return mkE(a[0], rec(a[1]), [(k, tuple(rec(f) for f in fs)) for k, fs in a[2]])
    if op == "IT":
        return mk("IT", a[0], rec(a[1]), rec(a[2]), rec(a[3]), _map(a[4], rec))
    if op == "fld":
        return getfield(rec(a[0]), a[1], a[2])
    if op == "pay":
        return getpay(rec(a[0]), a[1], a[2], a[3])
    if op == "disc":
        return getdisc(rec(a[0]), a[1])
    if op == "sel":
        return seq_get(rec(a[0]), rec(a[1]), a[2])
    if op == "st":
        return seq_set(rec(a[0]), rec(a[1]), rec(a[2]))
    if op == "cat":
        return mkcat([rec(p) for p in a[0]])
    if op == "gs":
        return mkgs([(rec(g), rec(v)) for g, v in a[0]])
    if op == "xor":
        r = I(0)
        for f in a[0]:
            r = bitop("xor", r, rec(f))
        return r
    if op == "bor":
        r = I(0)
        for f in a[0]:
            r = bitop("or", r, rec(f))
        return r
    if op == "band":
        r = rec(a[0][0])
        for f in a[0][1:]:
            r = bitop("and", r, rec(f))
        return r
    if op == "ap":
        n, args, ty = a
        args = [rec(z) for z in args]
        if n == "div":
            return div(*args)
        if n == "rem":
            return rem(*args)
        if n == "len":
            return seq_len(args[0])
        if n == "same":
            return eq_again(*args)
        if n == "lookup":
            return lookup(args[0], args[1], ty)
        if n == "haskey":
            return haskey(*args)
        if n == "mapset":
            return mapset(*args)
        return ap(n, args, ty)
    if op == "B":
        return rebuild_binder(x, rec)
    if op == "bit":
        v = rec(a[0])
        return boolval(mk("bit", v, a[1])) if v.op != "i" else I((v.a[0] >> a[1]) & 1)
    if op == "ref":
        r = rec(a[0])
        return addpath(r, _map(a[1], rec))
    return mk(op, *_map(a, rec))


def eq_again(x, y):
    """equality after substitution: scalars become arithmetic comparisons"""
    for t in (x, y):
        if t.op in ("S", "E", "sq", "cat", "gs", "ref", "IT"):
            return same(x, y)
        ty = REG.get(leaf_ty(t)) if t.op != "D" else None
        if t.op == "D" or ty is None or ty.k not in ("uint", "int", "char"):
            return same(x, y)
    return cmpT("eq", x, y)


def addpath(r, path):
    if r.op == "ref":
        return mk("ref", r.a[0], r.a[1] + tuple(path))
    if r.op == "D":
        return apply(lambda q: addpath(q, path), r)
    if r is BOT:
        return r
    return mk("ref", r, tuple(path))


def rebuild_binder(x, rec):
    kind, lvl, tys, outer, body, extra = x.a
    lvs, body = openb(x)
    outer = tuple(rec(o) for o in outer)
    body = _map(body, rec)
    return BINDERS[kind](outer, body, lvs, extra)


BINDERS = {
    "sum": lambda o, b, l, ex: mk_sum(o[0], o[1], b[0], l[0]),
    "cm": lambda o, b, l, ex: mk_cm(o[0], o[1], list(b), l[0]),
    "first": lambda o, b, l, ex: mk_first(o[0], o[1], b[0], l[0]),
}


def atomval(at, rec):
    """value of an atom after substitution, as an integer-domain term"""
    if at.op == "fsg":
        p = rec(at.a[0])
        return apply(lambda q: sgn(q), p)
    if at.op == "bit":
        v = rec(at.a[0])
        return apply(lambda q: I((q.a[0] >> at.a[1]) & 1) if q.op == "i" else boolval(mk("bit", q, at.a[1])), v)
    if at.op == "disc":
        return getdisc(rec(at.a[0]), at.a[1])
    r = rec(at) if at.op != "ap" else rebuild(at, rec)
    return r


def sgn(q):
    if isconst(q):
        c = cval(q)
        return I((c > 0) - (c < 0))
    lt = cmp2("lt", q, I(0), True)
    eq = cmp2("eq", q, I(0), True)
    return ite(lt, I(-1), ite(eq, I(0), I(1)))


# ------------------------------------------------------------------ printing
def show(t, d=0, maxd=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d, maxd) for x in t) + ")"
        return str(t)
    if d > maxd:
        return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1, maxd)
    if op == "i":
        return str(a[0])
    if op == "q":
        return f"{a[0]}/{a[1]}"
    if op == "str":
        return repr(a[0])
    if op == "ch":
        return f"ch{a[0]}"
    if op == "bot":
        return "⊥"
    if op in ("sym",):
        return a[0]
    if op == "lv":
        return f"%{a[0]}"
    if op == "bv":
        return f"β{a[0]}.{a[1]}"
    if op == "S":
        ty = REG.get(a[0])
        if ty is not None and ty.fields and ty.k == "adt":
            return ty.name + "{" + ", ".join(f"{f[0]}:{s(x)}" for f, x in zip(ty.fields, a[1])) + "}"
        return "(" + ", ".join(s(x) for x in a[1]) + ")"
    if op == "E":
        ty = REG.get(a[0])
        if a[1].op == "i" and ty is not None:
            for vi, v in enumerate(ty.vs):
                if v[1] == a[1].a[0]:
                    fs = dict(a[2]).get(vi, ())
                    return v[0] + ("(" + ", ".join(s(x) for x in fs) + ")" if fs else "")
        return f"enum {a[0]}[{s(a[1])}; " + "; ".join(f"{k}:{s(fs)}" for k, fs in a[2]) + "]"
    if op == "D":
        at = a[0]
        if len(a[1]) == 2 and a[1][0][1] is FALSE and a[1][1][1] is TRUE:
            return f"[{s(at)}≥{a[1][1][0]}]" if dom(at) != (0, 1) else f"[{s(at)}]"
        return "case " + s(at) + " {" + "; ".join(("<" if i == 0 else str(lo)) + "→" + s(c) for i, (lo, c) in enumerate(a[1])) + "}"
    if op == "disc":
        return f"disc({s(a[0])})"
    if op == "fld":
        return f"{s(a[0])}.{fieldname(a[0], a[1])}"
    if op == "pay":
        return f"{s(a[0])}#{a[1]}.{a[2]}"
    if op == "sel":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "st":
        return f"{s(a[0])}[{s(a[1])}:={s(a[2])}]"
    if op == "poly":
        out = []
        for m, c in a[0]:
            out.append((("" if c == 1 and m else str(c)) + ("*" if c != 1 and m else "") + "*".join(s(f) for f in m)))
        return "(" + " + ".join(out) + ")"
    if op == "ap":
        return f"{a[0].partition('|')[0]}(" + ", ".join(s(x) for x in a[1]) + ")"
    if op == "B":
        return f"{a[0]}{list(a[5]) if a[5] else ''}⟦{s(a[4])} | {s(a[3])}⟧β{a[1]}"
    if op in ("sq",):
        if len(a[0]) > 12:
            return f"[{len(a[0])} items]"
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if op == "gs":
        return "[" + ", ".join(f"{s(x)} if {s(g)}" for g, x in a[0]) + "]"
    if op == "ref":
        return "&" + show(a[0], d + 1, maxd) + "".join("." + show(p, d + 1, maxd) for p in a[1])
    return f"{op}(" + ", ".join(s(x) for x in a) + ")"


def fieldname(x, i):
    ty = REG.get(leaf_ty(x))
    if ty is not None and ty.fields and i < len(ty.fields):
        return ty.fields[i][0]
    return str(i)
