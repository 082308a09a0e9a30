"""Structural rules over the resolved program of the repository."""
import re, time
from compare import *
from engine import Engine, Unsup
from terms import *
import terms
from sim import Sim, SAME, UNK, DEF

RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


class Ob:
    """one obligation: ok True / False / None (undecided)"""

    def __init__(self, what, ok, detail="", where=""):
        self.what = what
        self.ok = ok
        self.detail = detail
        self.where = where


class Ctx:
    def __init__(self, facts, cmp):
        self.facts = facts
        self.cmp = cmp
        self.S = cmp.S
        self.R = cmp.R
        self.engs = {}

    def eng(self, limit, unsealed=()):
        """value graphs of the repository alone"""
        k = (limit, frozenset(unsealed))
        if k not in self.engs:
            self.engs[k] = SEngine(self.R, limit, unsealed)
        return self.engs[k]

    def raw(self, key, limit=60, unsealed=()):
        e = self.eng(limit, unsealed)
        i = self.R.by.get(key)
        if i is None:
            return None
        terms.BUDGET[0] = 0
        terms.LIMIT[0] = 6_000_000
        e.stack.clear()
        e.depth = 0
        e.summary(i)
        return e.raw.get(i["id"])


def loc(prog, k):
    i = prog.by.get(k)
    return f"{i['file']}:{i['line']} {k}" if i else k


# ---------------------------------------------------------------- effects and types
SHARED_CELLS = re.compile(r"^(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Atomic\w*)$")
NOT_SEND = re.compile(r"^(Rc|Weak|MutexGuard|RwLockReadGuard|RwLockWriteGuard)$")


def walk_types(prog, root):
    """every type mentioned in a type, through the fields of local types and generic arguments"""
    c = prog.c
    seen, out = set(), []
    st = [(root, c.types[root]["s"])]
    while st:
        n, path = st.pop()
        if n is None or n in seen:
            continue
        seen.add(n)
        t = c.types[n]
        out.append((n, t, path))
        k = t["k"]
        if k in ("ref", "ptr", "slice", "array"):
            st.append((t["t"], path))
        elif k == "tuple":
            st += [(x, path) for x in t["ts"]]
        elif k == "adt":
            for a in t["args"]:
                if isinstance(a, dict) and "t" in a:
                    st.append((a["t"], path + " -> " + t["s"]))
            if t["crate"] == c.name:
                for v in t["vs"]:
                    for f in v["fs"]:
                        st.append((f["t"], path + "." + f["n"]))
    return out


@rule
def freeze(cx):
    """no interior mutability and nothing unsendable inside the public data types"""
    out = []
    c = cx.R.c
    for a in c.d["adts"]:
        bad = [p for n, t, p in walk_types(cx.R, a["t"]) if t["k"] == "adt" and SHARED_CELLS.match(t["name"].split("::")[-1].split("<")[0])]
        ns = [p + ": " + t["s"] for n, t, p in walk_types(cx.R, a["t"])
              if (t["k"] == "adt" and NOT_SEND.match(t["name"].split("::")[-1].split("<")[0])) or t["k"] == "ptr"]
        out.append(Ob(f"{a['name']} has no interior mutability", a["freeze"] and not bad, "; ".join(bad) or "the compiler says the type is not Freeze", a["name"]))
        out.append(Ob(f"{a['name']} can be sent and shared", not ns, "; ".join(ns), a["name"]))
    return out


def mir_walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            mir_walk(v, f)
    elif isinstance(x, list):
        for v in x:
            mir_walk(v, f)


@rule
def no_unsafe(cx):
    """no mutable pointer or reference is made out of a shared one"""
    out = []
    c = cx.R.c
    n = 0
    for i in c.insts:
        if not i or not i["local"] or not i.get("body"):
            continue
        n += 1
        bad = []

        def f(x):
            if x.get("r") == "cast":
                ty = x["t"]
                if isinstance(ty, int) and c.types[ty]["k"] in ("ptr", "ref") and c.types[ty].get("m"):
                    src = opty(c, i, x)
                    if src is not None and c.types[src]["k"] in ("ptr", "ref") and not c.types[src].get("m"):
                        bad.append(f"{c.types[src]['s']} becomes {c.types[ty]['s']}")

        mir_walk(i["body"]["blocks"], f)
        out.append(Ob(f"{i['name']} makes no mutable pointer out of a shared one", not bad, "; ".join(bad), f"{i['file']} {i['name']}"))
    return out


def opty(c, i, x):
    o = x.get("o")
    if isinstance(o, dict):
        if o.get("o") == "c":
            return o["c"]["t"]
        p = o.get("p")
        if isinstance(p, dict) and not p.get("pj"):
            return i["body"]["locals"][p["l"]]
    return None


@rule
def query_sigs(cx):
    """what took a shared reference still does"""
    out = []
    byname = {}
    for k in cx.R.by:
        byname.setdefault(k, cx.R.by[k])
    for k in sorted(cx.S.reach):
        si = cx.S.by.get(k)
        ri = byname.get(k)
        if si is None or ri is None or not si["body"]["argc"] or not ri["body"]["argc"]:
            continue
        a = cx.S.c.types[si["body"]["locals"][1]]
        b = cx.R.c.types[ri["body"]["locals"][1]]
        if a["k"] == "ref" and not a["m"]:
            out.append(Ob(f"{k} takes a shared reference", not (b["k"] == "ref" and b["m"]), "takes a mutable reference", loc(cx.R, k)))
    return out


AMBIENT = re.compile(r"^(rand|getrandom|fastrand|rand_core|oxymcts)(::|$)|^std::(time|env|fs|net|process|thread|os)\b|^std::io::(stdin|Read|Stdin)|RandomState|thread_local|Instant::now|SystemTime|std::hash::random|ThreadRng|std::random")
HASHITER = re.compile(r"(hash_map|hash_set|HashMap|HashSet|hash::map|hash::set)")


def callgraph(prog, inst, stop):
    """(callee instance, caller) pairs reachable from inst, through bodies the dump holds"""
    seen = set()
    st = [(inst["id"], None)]
    out = []
    while st:
        n, src = st.pop()
        if n in seen:
            continue
        seen.add(n)
        i = prog.c.insts[n]
        if i is None:
            continue
        out.append((i, src))
        if stop(i):
            continue
        if i.get("body"):
            st += [(m, i) for m in prog.refs(i)]
        for a in i.get("args") or []:
            if isinstance(a, dict) and "t" in a:
                t = prog.c.types[a["t"]]
                if t["k"] in ("closure", "fndef") and t.get("inst") is not None:
                    st.append((t["inst"], i))
    return out


def reach_roots(prog, skip):
    return [prog.by[k] for k in sorted(prog.reach) if k in prog.by and not re.search(skip, k)]


DEADS = r"dead_stones|oxymcts"
REGION = re.compile(r"territory::|calculate_score|Game::outcome|get_group_from_point")


@rule
def ambient(cx):
    """no clock, randomness, environment or input is reachable outside the dead stone estimate"""
    out = []
    for r in reach_roots(cx.R, DEADS):
        bad = []
        for i, src in callgraph(cx.R, r, lambda i: not i["local"]):
            if not i["local"] and AMBIENT.search(i["name"]) and not re.search(r"Hash(Map|Set)<.*>?::(new|default|with_capacity|insert|contains|get|len|is_empty|entry|remove)\b|Default>::default$", i["name"]):
                if "RandomState" in i["name"] and not re.search(r"(Instant|SystemTime|rand::)", i["name"]):
                    # a randomly seeded set: only the order of its items is random
                    continue
                bad.append(f"{i['name']} called in {src['name'] if src else '?'}")
        out.append(Ob(f"{r['name']} depends on its arguments only", not bad, "; ".join(sorted(set(bad))[:4]), loc(cx.R, r["name"])))
    return out


@rule
def hash_order(cx):
    """the order of a randomly seeded set or map is visible only where regions are listed"""
    out = []
    pat = re.compile(r"(IntoIterator>::into_iter|::iter|::iter_mut|::keys|::values|::into_keys|::into_values|::drain|Iterator>::next)(::<.*)?$")
    for r in reach_roots(cx.R, DEADS + r"|territory::"):
        bad = []
        for i, src in callgraph(cx.R, r, lambda i: not i["local"] or bool(re.search(r"territory::|dead_stones", i["name"]))):
            if not i["local"] and "RandomState" in i["name"] and pat.search(i["name"]):
                bad.append(f"{i['name']} called in {src['name'] if src else '?'}")
        out.append(Ob(f"{r['name']} does not show the order of a hash table", not bad, "; ".join(sorted(set(bad))[:3]), loc(cx.R, r["name"])))
    return out


@rule
def no_globals(cx):
    """no mutable or interior mutable global"""
    out = []
    c = cx.R.c
    frz = {a["name"]: a["freeze"] for a in c.d["adts"]}
    for it in c.items:
        if it["kind"] == "Static":
            v = c.statics.get(it["name"])
            ok = not it["mutstatic"]
            why = "static mut"
            if ok and v:
                for n, t, p in walk_types(cx.R, v["t"]):
                    if t["k"] == "adt" and SHARED_CELLS.match(t["name"].split("::")[-1].split("<")[0]):
                        ok, why = False, p + ": " + t["s"]
            out.append(Ob(f"global {it['name']} is constant", ok, why, it["name"]))
    # thread locals and globals referenced from bodies
    for n, v in c.statics.items():
        if not any(it["name"] == n for it in c.items):
            out.append(Ob(f"global {n} used by the crate is constant", False, "global of another crate", n))
    return out


SHRINK = re.compile(r"IndexSet<goban::pieces::goban::Goban.*>::(remove|swap_remove|shift_remove|take|swap_take|shift_take|pop|clear|truncate|drain|retain|split_off|swap_remove_index|shift_remove_index|replace|swap_remove_full|shift_remove_full)(::<.*)?$")


@rule
def history_grows(cx):
    """no remembered position is ever removed from the history"""
    out = []
    c = cx.R.c
    n = 0
    for i in c.insts:
        if not i or not i["local"] or not i.get("body") or "game_builder" in i["name"]:
            continue
        calls = [c.insts[m] for m in cx.R.refs(i) if c.insts[m]]
        hist = [x for x in calls if "IndexSet<" in x["name"]]
        if not hist:
            continue
        bad = [x["name"] for x in hist if SHRINK.search(x["name"])]
        out.append(Ob(f"{i['name']} removes nothing from the history", not bad, "; ".join(bad), f"{i['file']} {i['name']}"))
    return out


# ---------------------------------------------------------------- constants
@rule
def zobrist_table(cx):
    """distinct non-zero keys, the same table as the reference has no bearing on behaviour"""
    tabs = []

    def f(x):
        if x.get("k") == "arr" and len(x["fs"]) >= 700 and all(e.get("k") == "i" for e in x["fs"]):
            tabs.append(tuple(e["v"] % (1 << 64) for e in x["fs"]))

    users = []
    for i in cx.R.c.insts:
        if i and i["local"] and i.get("body"):
            n = len(tabs)
            mir_walk(i["body"]["blocks"], f)
            if len(tabs) > n:
                users.append(i["name"])
    for it in cx.R.c.items:
        if it.get("val"):
            mir_walk(it["val"], f)
    for n, v in cx.R.c.statics.items():
        mir_walk(v, f)
    out = []
    for t in sorted(set(tabs)):
        dup = {}
        bad = []
        for p, v in enumerate(t):
            if v == 0:
                bad.append(f"key {p} is zero")
            if v in dup:
                bad.append(f"keys {dup[v]} and {p} are equal")
            dup[v] = p
        out.append(Ob(f"the {len(t)} keys are distinct and not zero", not bad, "; ".join(bad[:4]), "src/pieces/zobrist.rs ZOBRIST"))
        out.append(Ob("there is a key for every point and colour", len(t) >= 722, f"{len(t)} keys", "src/pieces/zobrist.rs ZOBRIST"))
    return out


def constval(prog, v):
    """comparable form of a constant"""
    if isinstance(v, dict):
        if v.get("k") == "adt":
            return (prog.c.types[v["t"]]["s"], v["vi"], tuple(constval(prog, x) for x in v["fs"]))
        return tuple((k, constval(prog, x)) for k, x in sorted(v.items()) if k != "t")
    if isinstance(v, list):
        return tuple(constval(prog, x) for x in v)
    return v


def consts(prog):
    out = {}
    for it in prog.c.items:
        if it["kind"] in ("Const", "Static") and it["reach"]:
            v = it["val"]
            if it["kind"] == "Static":
                v = prog.c.statics.get(it["name"])
            if v and v.get("v", {}).get("k") not in ("?", None):
                out[it["name"]] = constval(prog, v["v"])
    return out


@rule
def rule_consts(cx):
    """the public constants have their documented values"""
    a, b = consts(cx.S), consts(cx.R)
    out = []
    for n in sorted(a):
        if n.endswith("ZOBRIST") or "BitFlags" in n:
            continue
        if n not in b:
            # presets may become constants or statics; other names mean the interface is gone
            out.append(Ob(f"{n} exists", None if any(it["name"] == n for it in cx.R.c.items) else False, "the public constant is gone", n))
            continue
        out.append(Ob(f"{n} has its documented value", a[n] == b[n], f"{b[n]} instead of {a[n]}", n))
    return out


# ---------------------------------------------------------------- relations between functions
def isvar(x, tys, dv):
    d, _ = enum_parts(x, tys)
    return cmp_eq_const(d, dv)


def paysof(x, tys, vi):
    _, p = enum_parts(x, tys)
    return p.get(vi)


@rule
def err_pure(cx):
    """where the result is an error the game is what it was"""
    k = "goban::rules::game::Game::try_play"
    s = cx.raw(k)
    if s is None:
        return [Ob("try_play is analysed", None)]
    pc, ret, syms, roots, outs = s
    tys = ret.a[0] if ret.op == "E" else None
    d, _ = enum_parts(ret, tys)
    err = cmp_eq_const(d, 1)
    out = []
    g = syms[0]
    ref = outs[0]
    sim = Sim(syms)
    like = ref if ref.op == "S" else None
    if like is None:
        return [Ob("the state after try_play is a Game", None)]
    fin, fo = fields_of(g, like), fields_of(ref, like)
    ty = REG.get(like.a[0])
    for i, (x, y) in enumerate(zip(fin, fo)):
        nm = ty.fields[i][0]
        z = y
        if y is not x:
            if y.op == "S" and x.op != "D":
                xs, ys = fields_of(x, y), fields_of(y, y)
                rs = [(a, ite(band(pc, err), b, a)) for a, b in zip(xs, ys)]
            else:
                rs = [(x, ite(band(pc, err), y, x))]
        else:
            rs = []
        bad = None
        und = None
        for a, b in rs:
            if a is b:
                continue
            r = sim.value(a, b)
            if r.v == DEF:
                bad = r.why
            elif r.v == UNK:
                und = r.why
        out.append(Ob(f"a refused move leaves {nm} as it was", False if bad else (None if und else True), bad or und or "", loc(cx.R, k)))
    return out


def callk(cx, k, args, limit=60, unsealed=()):
    """(condition, result, outs) of calling k with the given terms"""
    s = cx.raw(k, limit, unsealed)
    if s is None:
        return None
    pc, ret, syms, roots, outs = s
    m = {y: a for y, a in zip(syms, args)}
    return nobot(subst(pc, m)), subst(ret, m), [None if o is None else subst(o, m) for o in outs]


def mkmove(cx, xy):
    ty = next(t for n, t in REG.items() if n == "Move" and t.vs)
    vi = next(i for i, v in enumerate(ty.vs) if v[0] == "Play")
    return mkE("Move", I(ty.vs[vi][1]), [(vi, xy)])


def verdict(what, sim, a, b, where):
    r = sim.value(a, b)
    return Ob(what, True if r.v == SAME else (False if r.v == DEF else None), r.why, where)


@rule
def sim_agrees(cx):
    """the simulated board is the board after the move"""
    kp, kv = "goban::rules::game::Game::play", "goban::rules::game::Game::play_for_verification"
    s = cx.raw(kp)
    v = cx.raw(kv)
    if s is None or v is None:
        return [Ob("both are analysed", None)]
    game = v[2][0]
    pt = v[2][1]
    xs = fields_of(pt, mkS("(u8,u8)", (I(0), I(0))))
    mv = mkmove(cx, tuple(xs))
    r = callk(cx, kp, [game, mv])
    if r is None:
        return [Ob("play is analysed", None)]
    outg = r[2][0]
    gb = fields_of(outg, outg)
    ty = REG.get(outg.a[0])
    idx = [f[0] for f in ty.fields].index("goban")
    a, b = gb[idx], v[1]
    sim = Sim(v[2])
    fa, fb = fields_of(a, a), fields_of(b, a)
    out = []
    gty = REG.get(a.a[0])
    care = band(nobot(r[0]), nobot(v[0]))
    for i, (x, y) in enumerate(zip(fa, fb)):
        x = [ite(care, q, w) for q, w in zip(fields_of(x, x), fields_of(y, x))] if x.op == "S" else [ite(care, x, y)]
        y = fields_of(y, y) if y.op == "S" else [y]
        if len(y) == 1 and len(x) == 1:
            x, y = x[0], y[0]
        else:
            st = next(t for t in (fa[i], fb[i]) if t.op == "S")
            x, y = mkS(st.a[0], x), mkS(st.a[0], fields_of(fb[i], st))
        out.append(verdict(f"the simulated {gty.fields[i][0]} is the real one", sim, x, y, loc(cx.R, kv)))
    return out


@rule
def legals_agree(cx):
    """a verified move on a free point is refused exactly when the point check reports something"""
    kt, kc = "goban::rules::game::Game::try_play", "goban::rules::game::Game::check_point"
    un = [k for k in cx.R.by if re.search(r"Game::(check_point\w*|try_play|legals\w*)$", k)]
    c = cx.raw(kc, 60, un)
    if c is None:
        return [Ob("check_point is analysed", None)]
    game, pt = c[2][0], c[2][1]
    xs = fields_of(pt, mkS("(u8,u8)", (I(0), I(0))))
    t = callk(cx, kt, [game, mkmove(cx, tuple(xs))], 60, un)
    if t is None:
        return [Ob("try_play is analysed", None)]
    pc, ret, outs = t
    tys = ret.a[0] if ret.op == "E" else None
    err = isvar(ret, tys, 1)
    cr = callk(cx, kc, [game, pt], 60, un)
    some = isvar(cr[1], "Option<PlayError>", 1)
    gty = REG.get("Game")
    passes = fld_of(game, gty, "passes")
    live = cmpT("lt", passes, I(2))
    # where both return and the game is not paused
    care = band(band(nobot(pc), nobot(cr[0])), live)
    e1, s1 = band(care, err), band(care, some)
    # an occupied point: try_play looks at the colour itself
    sim = Sim(c[2])
    r = sim.value(s1, e1)
    out = [Ob("accepted exactly when the point check reports nothing", True if r.v == SAME else (False if r.v == DEF else None), r.why, loc(cx.R, kt))]
    return out


def fld_of(x, ty, name):
    i = [f[0] for f in ty.fields].index(name)
    return wrap(mk("fld", x, i, ty.fields[i][1]))


@rule
def color_involution(cx):
    k = "<goban::pieces::stones::Color as std::ops::Not>::not"
    s = cx.raw(k, -1)
    if s is None:
        return [Ob("Not for Color is analysed", None)]
    pc, ret, syms, roots, outs = s
    x = wrap(syms[0])
    twice = subst(ret, {syms[0]: ret})
    sim = Sim(syms)
    d1, _ = enum_parts(ret, "Color")
    d0, _ = enum_parts(x, "Color")
    d2, _ = enum_parts(twice, "Color")
    return [Ob("the opposite of the opposite is the colour", d2 is d0, show(d2, 0, 5), loc(cx.R, k)),
            Ob("the opposite is another colour", d1 is not d0, "", loc(cx.R, k))]


# ---------------------------------------------------------------- configurations
def config(cx, a, b, each):
    """differences between two configurations of the same source"""
    c = Compare(a, b, each=each, total=60)
    c.run()
    out = []
    for k in sorted(c.common):
        v = [(n, r) for n, r in (c.A.get(k) or []) if n != "panics"]
        bad = [f"{n}: {r.why}" for n, r in v if r.v == DEF]
        und = [f"{n}: {r.why}" for n, r in v if r.v == UNK]
        out.append(Ob(k, False if bad else (None if und else True), "; ".join((bad or und)[:2]), loc(c.R, k)))
    return out, c


@rule
def features_agree(cx):
    """what exists without the optional features is the same with them"""
    full = cx.facts.get("repo")
    out = []
    for w in ("repo-default", "repo-history", "repo-deadstones"):
        o, c = config(cx, cx.facts.get(w), full, 20)
        for x in o:
            x.what = f"{x.what}: same with {w[5:]} and with all features"
        for k in sorted(c.S.reach):
            if k in c.S.by and k not in c.R.by:
                o.append(Ob(f"{k} exists with all features as with {w[5:]}", False, "missing", k))
        out += o
    return out


@rule
def debug_agree(cx):
    """debug assertions only stop"""
    o, c = config(cx, cx.facts.get("repo"), cx.facts.get("repo-debug"), 20)
    for x in o:
        x.what = f"{x.what}: same in debug and release builds"
    return o


@rule
def ranges(cx, only=None):
    """no operation or conversion attains a value outside the type it is computed in"""
    import ranges as rg
    prog = cx.R
    e, skipped = rg.analyse(prog, only=only)
    best = {}
    for k, o, v, d in rg.decide_all(prog, e, only=only):
        i, ln = o.line
        q = (i.get("file") or "", ln, o.what, o.ty, k)
        old = best.get(q)
        rank = {False: 0, None: 1, True: 2}
        if old is None or rank[v] < rank[old[0]]:
            best[q] = (v, d, rg.show(o.t)[:120])
    out = []
    for (f, ln, what, ty, k), (v, d, t) in sorted(best.items(), key=lambda x: tuple(map(str, x[0]))):
        op = {"as": f"conversion to {ty}", "total": f"sum in {ty}"}.get(what, f"{what} in {ty}")
        out.append(Ob(f"{op} in {k} line {ln}", v, d or t, f"{f}:{ln} {k}"))
    for k, why in skipped:
        out.append(Ob(f"{k}: value graph", None, why, loc(prog, k)))
    return out
