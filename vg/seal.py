"""Opaque summaries: a verified function is represented by one symbol per component it computes."""
from terms import *
from engine import valty

_CNT = {}


def weigh(t, limit):
    """number of distinct nodes (stops over limit), None when a loop is inside"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > limit or x.op == "B":
            return None
        if x.op == "sel" or x.op == "fld" or x.op == "pay":
            pass
        if x.op in ("lv", "i"):
            continue
        import terms
        terms._walk(x.a, st)
    return len(seen)


def access(t, params):
    """maximal access paths into the parameters read by t"""
    out = {}
    memo = {}

    def chain(x):
        """is x a projection chain ending in a parameter"""
        while x.op in ("fld", "pay"):
            x = x.a[0]
        return x in params

    import terms
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or not x.fs:
            continue
        seen.add(x)
        if x.op == "disc" and chain(x.a[0]):
            out[x.a[0]] = 1
            continue
        if x.op in ("fld", "pay", "lv") and chain(x):
            out[x] = 1
            continue
        terms._walk(x.a, st)
    res = sorted(out, key=lambda x: pkey(x, params))
    # drop paths that extend another one
    keep = []
    s = set(res)
    for x in res:
        y = x
        while y.op in ("fld", "pay"):
            y = y.a[0]
            if y in s:
                break
        else:
            keep.append(x)
            continue
    return keep


def pkey(x, params):
    p = []
    while x.op in ("fld", "pay"):
        p.append(tuple(x.a[1:-1]))
        x = x.a[0]
    return (params[x], tuple(reversed(p)))


def seal(name, s, limit):
    """summary with its complex components replaced by opaque symbols"""
    pc, ret, syms, roots, outs = s
    params = {y: i for i, y in enumerate(syms)}

    def leaf(t, tys, path):
        if t is BOT or not t.fs or t in params:
            return t
        if any(lv not in params for lv in t.fs):
            return t  # stray references
        if weigh(t, limit) is not None:
            return t
        if t.op == "S":
            ty = REG.get(t.a[0])
            fts = [f[1] for f in ty.fields] if ty is not None and ty.fields else ["?"] * len(t.a[1])
            return mkS(t.a[0], tuple(leaf(x, fts[i] if i < len(fts) else "?", path + f".{i}") for i, x in enumerate(t.a[1])))
        if t.op == "E":
            d = t.a[1]
            if weigh(d, limit) is not None and d.op != "i" or d.op == "i":
                ty = REG.get(t.a[0])
                pays = []
                for k, fs in t.a[2]:
                    nf = []
                    for i, x in enumerate(fs):
                        ft = ty.vs[k][2][i][1]
                        y = dropbot(x)
                        y = leaf(y, ft, path + f"#{k}.{i}")
                        nf.append(ite(cmp_eq_const(d, ty.vs[k][1]), y, BOT))
                    pays.append((k, tuple(nf)))
                return mkE(t.a[0], d, pays)
            tys = t.a[0]
        if tys in ("?", None):
            tys = valty(t)
        ins = access(t, params)
        return wrap(mk("ap", "F:" + name + path + "|" + ";".join(sig(x) for x in ins), tuple(ins), tys))

    def sig(x):
        i, p = pkey(x, params)
        return ".".join([str(i)] + ["_".join(str(c) for c in q) for q in p])

    import terms
    rt = valty(ret)
    ret2 = leaf(ret, rt if ret.op != "D" or rt != "usize" else rt, "")
    pc2 = leaf(pc, "bool", "!pc")
    outs2 = [None if o is None else leaf(o, None, f"@{i}") for i, o in enumerate(outs)]
    return (pc2, ret2, syms, roots, outs2)
