"""Meaning of the library functions the analysed code uses.

model(eng, name, meth, args, st, dty, inst) -> (cond of normal return, value, state) or None."""
from terms import *
from engine import *
import engine as E


def seqty(et):
    s = "[" + et + "]"
    if s not in REG:
        t = ty_simple(s, "seq")
        t.args = (et,)
    return s


def optof(et):
    s = "Option<" + et + ">"
    if s not in REG:
        t = ty_simple(s, "adt")
        t.args = (et,)
        t.name = "Option"
        t.vs = [("None", 0, []), ("Some", 1, [("0", et)])]
    return s


def some(dty, v):
    return variant(dty, 1, (v,))


def none(dty):
    return variant(dty, 0)


def rd(eng, st, a):
    return eng.deref_read(st, a) if a.op == "ref" or (a.op == "D" and has_ref(a)) else a


def is_mref(a):
    return a.op == "ref" or (a.op == "D" and has_ref(a))


NOPS = {"deref", "deref_mut", "as_ref_", "into_boxed_slice", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "as_str", "to_vec", "to_owned",
        "into_vec", "clone", "cloned", "copied", "to_string", "as_bytes", "into_string", "by_ref", "as_deref", "into", "from_iter_", "iter_", "must_use",
        "fuse", "black_box", "get_ref", "as_mut_ptr", "as_ptr", "new_unchecked", "box_new", "into_inner", "unbox", "shrink_to_fit_"}


def truthy(c):
    return nobot(c)


def model(eng, name, meth, args, st, dty, inst):
    st0 = st
    a0 = args[0] if args else None
    T1 = lambda v: (TRUE, v, st0)
    # ---------------- panics
    if meth in ("panic", "panic_fmt", "assert_failed", "panic_display", "unreachable_display", "panic_const", "unwrap_failed", "expect_failed", "panic_str_2015", "panic_explicit", "begin_panic", "exit", "abort", "panic_bounds_check", "panic_nounwind"):
        return (FALSE, BOT, st)
    # ---------------- formatting: messages are not part of the behaviour
    if name.startswith("std::fmt::Arguments") or "fmt::rt::" in name or meth in ("new_display", "new_debug"):
        return T1(mk("sym", "fmtargs", dty.s))
    if name == "std::fmt::format" or meth == "format":
        return T1(mk("sym", "message", "String"))
    if meth == "_print" or meth == "_eprint":
        return T1(UNIT)
    if meth in ("expect", "unwrap") and ("Option" in name or "Result" in name):
        t = E.valty(a0)
        ty = REG.get(t)
        vi = 1 if "Option" in name else 0
        et = ty.vs[vi][2][0][1] if ty is not None and ty.vs else dty.s
        return T1(getpay(a0, vi, 0, et))
    if meth == "drop" and "mem" in name:
        return T1(UNIT)
    # ---------------- ints
    if meth == "wrapping_sub":
        m = {"u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "usize": 2**64 - 1}.get(dty.s)
        if m is None:
            return T1(ap("wrapping_sub", args, dty.s))
        x, y = args
        return T1(ite(cmpT("ge", x, y), sub(x, y), add(sub(x, y), I(m + 1))))
    if meth == "wrapping_add":
        m = {"u8": 256, "u16": 65536}.get(dty.s)
        x, y = args
        s = add(x, y)
        if m is None:
            return T1(s)
        return T1(ite(cmpT("lt", s, I(m)), s, sub(s, I(m))))
    if meth == "checked_sub" and dty.s.startswith("Option<u"):
        x, y = args
        return T1(ite(cmpT("ge", x, y), some(dty.s, sub(x, y)), none(dty.s)))
    if meth == "checked_add" and dty.s.startswith("Option<u"):
        x, y = args
        m = {"Option<u8>": 256, "Option<u16>": 65536}.get(dty.s)
        s = add(x, y)
        if m is None:
            return T1(some(dty.s, s))
        return T1(ite(cmpT("lt", s, I(m)), some(dty.s, s), none(dty.s)))
    if meth == "saturating_sub":
        x, y = args
        return T1(ite(cmpT("ge", x, y), sub(x, y), I(0)))
    if meth == "saturating_add":
        return T1(add(*args))
    if meth == "abs" and len(args) == 1:
        f = dty.k == "float"
        return T1(ite(cmpT("lt", a0, I(0), f), sub(I(0), a0), a0))
    if meth in ("floor", "ceil", "round", "trunc") and len(args) == 1 and dty.k == "float":
        return T1(a0 if a0.op == "i" else ap(meth, args, dty.s))
    if meth == "abs_diff":
        x, y = args
        return T1(ite(cmpT("ge", x, y), sub(x, y), sub(y, x)))
    if meth in ("min", "max") and len(args) == 2 and REG.get(dty.s) is not None and dty.k in ("uint", "int", "float"):
        x, y = args
        c = cmpT("le", x, y, dty.k == "float")
        return T1(ite(c, x, y) if meth == "min" else ite(c, y, x))
    if meth in ("count_ones", "trailing_zeros", "leading_zeros", "checked_shr", "checked_shl", "sqrt", "pow", "is_power_of_two") and len(args) <= 2 and dty.k in ("uint", "int", "float", "adt", "bool"):
        return T1(ap(meth, args, dty.s))
    if "NonMax" in name:
        if meth == "get":
            return T1(a0)
        if meth == "new":
            return T1(some(dty.s, a0))
        if meth in ("eq", "ne"):
            return T1(cmpT(meth, args[0], args[1]))
        if meth == "clone":
            return T1(a0)
        if meth in ("from", "into"):
            return T1(a0)
        if meth in ("try_from", "try_into"):
            return T1(variant(dty.s, 0, (a0,)))
    if meth in ("from", "into", "try_from", "try_into") and len(args) == 1 and inst is not None and not inst.get("local"):
        src = E.valty(a0)
        if REG.get(src) is not None and REG[src].k in ("uint", "int", "bool", "char") and dty.k in ("uint", "int", "float"):
            return T1(a0)
        if meth in ("try_from", "try_into") and dty.s.startswith("Result<"):
            et = REG[dty.s].vs[0][2][0][1]
            m = {"u8": 256, "u16": 65536}.get(et)
            if m:
                return T1(ite(cmpT("lt", a0, I(m)), variant(dty.s, 0, (a0,)), variant(dty.s, 1, (mk("sym", "message", REG[dty.s].vs[1][2][0][1]),))))
            return None
        if is_seqty(dty) and (is_seq(a0, src)):
            return T1(a0)
        if dty.s == "String":
            return T1(a0)
        if src == dty.s:
            return T1(a0)
        if dty.s == "Option<" + src + ">":
            return T1(some(dty.s, a0))
    # ---------------- memory
    if meth in ("take", "replace", "swap") and "mem" in name.split("::")[-2:][0]:
        if meth == "swap":
            x, y = rd(eng, st, args[0]), rd(eng, st, args[1])
            st = dict(st)
            eng.deref_write(st, args[0], y)
            eng.deref_write(st, args[1], x)
            return TRUE, UNIT, st
        old = rd(eng, st, a0)
        st = dict(st)
        if meth == "replace":
            eng.deref_write(st, a0, args[1])
            return TRUE, old, st
        if is_seqty(dty):
            eng.deref_write(st, a0, mk("sq", ()))
            return TRUE, old, st
        if dty.s.startswith("Option<"):
            eng.deref_write(st, a0, none(dty.s))
            return TRUE, old, st
        eng.deref_write(st, a0, mk("sym", "default:" + dty.s, dty.s))
        return TRUE, old, st
    # ---------------- comparison of structures without a body
    if meth in ("eq", "ne") and len(args) == 2:
        x, y = rd(eng, st, args[0]), rd(eng, st, args[1])
        if x is y:
            return T1(I(meth == "eq"))
        tx, ty_ = REG.get(E.valty(x)), REG.get(E.valty(y))
        for t in (tx, ty_):
            if t is not None and (t.k in ("uint", "int", "float", "char", "str", "bool") or t.s == "String"):
                return T1(cmpT(meth, x, y, t.k == "float"))
        v = same_parts(x, y, tx or ty_)
        return T1(v if meth == "eq" else bnot(v))
    if meth in ("clone",) and len(args) == 1:
        return T1(rd(eng, st, a0))
    # ---------------- containers of known element order
    r = seq_model(eng, name, meth, args, st, dty)
    if r is not None:
        return r
    r = set_model(eng, name, meth, args, st, dty)
    if r is not None:
        return r
    r = iter_model(eng, name, meth, args, st, dty)
    if r is not None:
        return r
    if meth in NOPS and len(args) == 1 and not is_mref(a0):
        if meth == "into" and inst is not None and inst.get("body") and dty.k == "adt" and E.valty(a0) != dty.s:
            return None  # a conversion between different types is what its body says
        return T1(a0)
    if meth in ("deref", "deref_mut", "borrow_mut", "as_mut_slice", "borrow", "as_mut") and len(args) == 1 and is_mref(a0):
        if meth == "as_mut" and "Option" in name:
            return None
        return T1(a0)
    if name.endswith("Default>::default") and len(args) == 0:
        if is_seqty(dty):
            return T1(mk("sq", ()))
        if dty.k in ("uint", "int", "bool", "float"):
            return T1(I(0))
        if dty.s.startswith("Option<"):
            return T1(none(dty.s))
        return T1(mk("sym", "default:" + dty.s, dty.s))
    if meth == "size_hint":
        return T1(mk("sym", "hint", dty.s))
    return None


def is_seqty(ty):
    return ty.k in ("seq", "array") or ty.s == "String"


SEQ_HEADS = ("Vec", "ArrayVec", "slice", "[", "String", "VecDeque", "array")


def seqarg(eng, st, a):
    v = rd(eng, st, a)
    return v


def seq_model(eng, name, meth, args, st, dty):
    a0 = args[0] if args else None
    ok = lambda v, s=st: (TRUE, v, s)
    if meth in ("new", "with_capacity", "new_const", "with_capacity_in", "new_in") and is_seqty(dty) and ("Vec" in name or "String" in name):
        return ok(mk("sq", ()))
    if meth == "from_elem" and "vec" in name:
        return ok(mk("rep", args[0], args[1], E.valty(args[0])))
    if meth.startswith("box_assume_init_into_vec"):
        return ok(args[0])
    if meth == "new_uninit" and "Box" in name:
        return ok(mk("sym", "uninit", dty.s))
    if not args:
        return None
    v0 = rd(eng, st, a0)
    ty0 = REG.get(E.valty(v0))
    if not (is_seq(v0, E.valty(v0)) or (ty0 is not None and is_seqty(ty0)) or v0.op == "str" or (ty0 is not None and ty0.k == "str")):
        return None

    def upd(new, ret=UNIT):
        s = dict(st)
        eng.deref_write(s, a0, new)
        return TRUE, ret, s

    ety = E.seq_ety(v0)
    if ety == "?" and is_mref(a0) and a0.op == "ref":
        t = eng.pathty(eng.rty.get(a0.a[0], "?"), a0.a[1])
        if REG.get(t) is not None and REG[t].args:
            ety = REG[t].args[0]
    if meth in ("len",):
        return ok(seq_len(v0))
    if meth == "is_empty":
        return ok(cmpT("eq", seq_len(v0), I(0)))
    if meth in ("push", "push_unchecked", "push_back") and is_mref(a0):
        return upd(seq_push(v0, args[1]))
    if meth == "try_push" and is_mref(a0):
        return upd(seq_push(v0, args[1]), variant(dty.s, 0, (UNIT,)))
    if meth == "push_str" and is_mref(a0):
        return upd(mkcat([v0, mk("ap", "chars", (args[1],), "String")]))
    if meth == "pop" and is_mref(a0):
        n = seq_len(v0)
        if v0.op in ("sq",) and v0.a[0]:
            return upd(mk("sq", v0.a[0][:-1]), some(dty.s, v0.a[0][-1]))
        c = cmpT("ge", n, I(1))
        last = seq_get(v0, sub(n, I(1)), ety)
        return upd(ite(c, mk("ap", "init", (v0,), E.valty(v0)), v0), ite(c, some(dty.s, last), none(dty.s)))
    if meth in ("clear",) and is_mref(a0):
        return upd(mk("sq", ()))
    if meth == "truncate" and is_mref(a0):
        return upd(mk("ap", "truncate", (v0, args[1]), E.valty(v0)))
    if meth in ("reserve", "shrink_to_fit", "reserve_exact"):
        return ok(UNIT)
    if meth in ("remove", "swap_remove", "insert", "dedup", "sort", "sort_unstable", "reverse", "rotate_left", "rotate_right", "drain", "fill", "resize", "shuffle") and is_mref(a0) and dty.k != "ref":
        vals = [v0] + [rd(eng, st, x) for x in args[1:]]
        if meth == "drain":
            return None
        s = dict(st)
        eng.deref_write(s, a0, mk("ap", "upd:" + meth, tuple(vals), E.valty(v0)))
        for i, x in enumerate(args[1:]):
            if is_mref(x):
                eng.deref_write(s, x, mk("ap", f"upd:{meth}:{i}", tuple(vals), "?"))
        return TRUE, (UNIT if dty.s == "()" else wrap(mk("ap", "ret:" + meth, tuple(vals), dty.s))), s
    if meth == "swap" and is_mref(a0) and len(args) == 3:
        i, j = args[1], args[2]
        x, y = seq_get(v0, i, ety), seq_get(v0, j, ety)
        return upd(seq_set(seq_set(v0, i, y), j, x))
    if meth in ("first", "last", "get") and len(args) <= 2 and not is_mref(a0):
        n = seq_len(v0)
        if meth == "get":
            if not E.numeric(E.valty(args[1])):
                return None
            i = args[1]
        else:
            i = I(0) if meth == "first" else sub(n, I(1))
        c = cmpT("lt", i, n) if meth == "get" else cmpT("ge", n, I(1))
        return ok(ite(c, some(dty.s, seq_get(v0, i, ety)), none(dty.s)))
    if meth in ("first_mut", "last_mut", "get_mut") and is_mref(a0) and a0.op == "ref":
        n = seq_len(v0)
        i = args[1] if meth == "get_mut" else I(0) if meth == "first_mut" else sub(n, I(1))
        c = cmpT("lt", i, n) if meth == "get_mut" else TRUE if dty is None else cmpT("ge", n, I(1))
        r = addpath_ix(a0, i, ety)
        return ok(ite(c, some(dty.s, r), none(dty.s)) if c is not TRUE else some(dty.s, r))
    if meth in ("get_unchecked",):
        return ok(seq_get(v0, args[1], ety))
    if meth == "index" and not is_mref(a0):
        i = args[1]
        return ok(index_val(v0, i, ety))
    if meth in ("index_mut", "get_unchecked_mut") and is_mref(a0):
        i = args[1]
        if i.op == "S":
            lo, n = range_of(i, v0)
            return ok(addpath(a0, (("sl", lo, n),)))
        return ok(addpath_ix(a0, i, ety))
    if meth in ("split_at",) and not is_mref(a0):
        n = seq_len(v0)
        return ok(E.mk_tuple([E.mk_sub(v0, I(0), args[1]), E.mk_sub(v0, args[1], sub(n, args[1]))], [E.valty(v0)] * 2))
    if meth in ("split_at_mut",) and is_mref(a0):
        n = seq_len(v0)
        return ok(E.mk_tuple([addpath(a0, (("sl", I(0), args[1]),)), addpath(a0, (("sl", args[1], sub(n, args[1])),))], ["&" + E.valty(v0)] * 2))
    if meth == "contains" and len(args) == 2 and ety not in ("?",) and E.numeric(ety) or meth == "contains" and v0.op in ("sq", "gs"):
        x = args[1]
        if REG.get(ety) is not None and REG[ety].k in ("adt", "tuple"):
            return ok(boolval(mk("ap", "contains", (v0, x), "bool")))
        if v0.op in ("sq", "gs") and len(v0.a[0]) <= 8:
            r = FALSE
            for g, y in gitems(v0):
                r = bor(r, band(g, nobot(cmpT("eq", y, x))))
            return ok(r)
        e = fresh("usize")
        return ok(mk_any(I(0), seq_len(v0), cmpT("eq", seq_get(v0, e, ety), x), e))
    if meth == "contains" and len(args) == 2:
        return ok(boolval(mk("ap", "contains", (v0, args[1]), "bool")))
    if meth == "retain" and is_mref(a0):
        it = eng.into_iter(v0, st)

        def step(s, v, ars):
            c, r, s2 = eng.call_value(s[fr_], [v], s, None)
            s2 = dict(s2)
            r = nobot(r)
            acc = s2[ars[0]]
            s2[ars[0]] = ite(r, seq_push(acc, v), acc)
            return [("back", c, s2)]

        s = dict(st)
        fr_ = eng.newroot("?", args[1], s)
        return finish(eng, s, it, [(E.valty(v0), mk("sq", ()))], step, lambda s2, ars: (UNIT, [(a0, s2[ars[0]])]), [fr_])
    if meth in ("extend", "extend_from_slice", "append", "try_extend_from_slice") and is_mref(a0):
        src = args[1]
        if meth == "append":
            sv = rd(eng, st, src)
            s = dict(st)
            eng.deref_write(s, a0, mkcat([v0, sv]))
            eng.deref_write(s, src, mk("sq", ()))
            return TRUE, UNIT, s
        it = eng.into_iter(src, st)

        def step(s, v, ars):
            s = dict(s)
            s[ars[0]] = seq_push(s[ars[0]], v)
            return [("back", TRUE, s)]

        return finish(eng, st, it, [(E.valty(v0), v0)], step, lambda s2, ars: (UNIT, [(a0, s2[ars[0]])]))
    if meth in ("iter", "into_iter", "iter_mut", "chars", "bytes", "drain") :
        if meth == "drain":
            return None
        if is_mref(a0) and meth in ("into_iter", "iter_mut"):
            return ok(eng.into_iter(a0, st, ety))
        return ok(eng.into_iter(v0, st, ety if ety != "?" else None))
    if meth in ("chunks_exact", "chunks") and len(args) == 2:
        n = args[1]
        return ok(mk("S", "It:chunk", (v0, n, I(0), div(seq_len(v0), n))))
    if meth in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "as_str", "as_mut_str", "into_boxed_slice"):
        return ok(a0)
    if meth in ("to_vec", "to_owned", "clone", "to_string", "into_vec", "into", "from", "into_bytes", "collect_"):
        return ok(v0)
    if meth in ("capacity",):
        return ok(mk("sym", "capacity", "usize"))
    return None


def addpath_ix(r, i, ety):
    if r.op == "D":
        return apply(lambda q: addpath_ix(q, i, ety), r)
    if r is BOT:
        return BOT
    p = r.a[1]
    if p and p[-1][0] == "sl":
        return mk("ref", r.a[0], p[:-1] + (("ix", add(p[-1][1], i), ety),))
    return mk("ref", r.a[0], p + (("ix", i, ety),))


def range_of(i, v):
    t = i.a[0]
    n = seq_len(v)
    f = i.a[1]
    if t.startswith("RangeTo"):
        return I(0), f[0] if not t.startswith("RangeToInclusive") else add(f[0], I(1))
    if t.startswith("RangeFrom"):
        return f[0], sub(n, f[0])
    if t.startswith("RangeInclusive"):
        return f[0], add(sub(f[1], f[0]), I(1))
    if t.startswith("RangeFull"):
        return I(0), n
    if t.startswith("Range"):
        return f[0], sub(f[1], f[0])
    raise Unsup("index by " + t)


def index_val(v, i, ety):
    if i.op == "S":
        lo, n = range_of(i, v)
        return E.mk_sub(v, lo, n)
    return seq_get(v, i, ety)


def finish(eng, st, it, accs, step, result, temps=()):
    """run a consumer with one normal exit ('done') plus early exits, merged"""
    r, ars, outs = eng.consume(st, it, accs, step)
    es = []
    for l, c, s in outs:
        s = dict(s)
        v, writes = result(s, ars) if l == "done" else l(s, ars)
        for ref, nv in writes:
            eng.deref_write(s, ref, nv)
        rr = mk("loc", "ret", 0)
        s[rr] = v
        for x in [r] + list(ars) + list(temps):
            s.pop(x, None)
        es.append((c, s))
    pc, s = eng.merge(es)
    if s is None:
        return FALSE, BOT, st
    s = dict(s)
    v = s.pop(mk("loc", "ret", 0))
    return pc, v, s


# ---------------------------------------------------------------- sets and maps
def map_vt(tys):
    ty = REG.get(tys)
    if ty is not None and len(ty.args) >= 2:
        return ty.args[1]
    return "?"


def set_model(eng, name, meth, args, st, dty):
    if not ("hash_map::" in name or "btree_map::" in name or "HashSet" in name or "IndexSet" in name or "BTreeSet" in name or "HashMap" in name or "BTreeMap" in name or "IndexMap" in name):
        return None
    ok = lambda v, s=st: (TRUE, v, s)
    if meth in ("new", "default", "with_capacity", "with_capacity_and_hasher", "with_hasher") and ("Hasher" not in dty.s):
        return ok(mk("sym", "empty", dty.s))
    if "Hasher" in name and meth in ("default", "new"):
        return ok(mk("sym", "hasher", dty.s))
    if not args:
        return None
    a0 = args[0]
    v0 = rd(eng, st, a0)
    tys = E.valty(v0)
    if a0.op == "S" and a0.a[0].startswith("It:"):
        return None
    if meth == "contains" and len(args) == 2:
        return ok(boolval(mk("ap", "in", (v0, args[1]), "bool")))
    if meth == "insert" and len(args) == 2 and is_mref(a0):
        s = dict(st)
        eng.deref_write(s, a0, mk("ap", "insert", (v0, args[1]), tys))
        return TRUE, bnot(boolval(mk("ap", "in", (v0, args[1]), "bool"))), s
    if meth in ("len",):
        return ok(mk("ap", "card", (v0,), "usize"))
    if meth == "is_empty":
        return ok(cmpT("eq", mk("ap", "card", (v0,), "usize"), I(0)))
    if meth in ("iter", "into_iter", "drain"):
        it = eng.into_iter(v0, st)
        if meth == "drain":
            if not is_mref(a0):
                return None
            st = dict(st)
            eng.deref_write(st, a0, mk("sym", "empty", tys))
        return ok(it, st)
    if meth in ("reserve", "shrink_to_fit", "shrink_to"):
        return ok(UNIT)
    if meth == "extend" and is_mref(a0):
        it = eng.into_iter(args[1], st)

        def step(s, v, ars):
            s = dict(s)
            s[ars[0]] = mk("ap", "insert", (s[ars[0]], v), tys)
            return [("back", TRUE, s)]

        return finish(eng, st, it, [(tys, v0)], step, lambda s2, ars: (UNIT, [(a0, s2[ars[0]])]))
    ism = "Map" in tys or "hash_map" in name or "btree_map" in name
    if meth == "entry":
        return ok(mk("S", "Entry", (a0, args[1], mk("ty", map_vt(tys)))))
    if a0.op == "S" and a0.a[0] == "Entry":
        m, k, vt = a0.a[1]
        vt = vt.a[0]
        if meth == "and_modify":
            mv = rd(eng, st, m)
            s = dict(st)
            root = eng.newroot(vt, lookup(mv, k, vt), s)
            c, r, s = eng.call_value(args[1], [mk("ref", root, ())], s, None)
            s = dict(s)
            nv = s.pop(root)
            eng.deref_write(s, m, ite(haskey(mv, k), mapset(mv, k, nv), mv))
            return c, a0, s
        if meth in ("or_insert", "or_default", "or_insert_with"):
            mv = rd(eng, st, m)
            s = dict(st)
            if meth == "or_insert":
                x = args[1]
            elif meth == "or_default":
                if not E.numeric(vt):
                    raise Unsup("or_default")
                x = I(0)
            else:
                c, x, s = eng.call_value(args[1], [], s, None)
                s = dict(s)
            eng.deref_write(s, m, ite(haskey(mv, k), mv, mapset(mv, k, x)))
            return TRUE, addpath(m, (("key", k, vt),)), s
        raise Unsup("entry." + meth)
    if ism and meth == "insert" and len(args) == 3 and is_mref(a0):
        s = dict(st)
        eng.deref_write(s, a0, mapset(v0, args[1], args[2]))
        vt = map_vt(tys)
        return TRUE, ite(haskey(v0, args[1]), some(dty.s, lookup(v0, args[1], vt)), none(dty.s)), s
    if ism and meth == "contains_key":
        return ok(haskey(v0, args[1]))
    if ism and meth == "get" and len(args) == 2:
        return ok(ite(haskey(v0, args[1]), some(dty.s, lookup(v0, args[1], map_vt(tys))), none(dty.s)))
    if ism and meth == "get_mut" and len(args) == 2 and is_mref(a0):
        return ok(ite(haskey(v0, args[1]), some(dty.s, addpath(a0, (("key", args[1], map_vt(tys)),))), none(dty.s)))
    if ism and meth in ("index",) and len(args) == 2:
        return ok(lookup(v0, args[1], map_vt(tys)))
    if meth in ("get", "get_index", "contains_key", "last", "first") and dty.k != "ref":
        return ok(wrap(mk("ap", "set:" + meth, (v0,) + tuple(args[1:]), dty.s)))
    return None


# ---------------------------------------------------------------- iterators
def taken(it, n):
    """at most n rounds of an iterator"""
    if it.op == "S":
        k, f = it.a[0], list(it.a[1])
        i = {"It:seq": 1, "It:cm": 1, "It:refmut": 1, "It:range": 0}.get(k)
        if i is not None and f[i + 1].op != "D" and n.op != "D":
            stop = add(f[i], n)
            f[i + 1] = ite(cmpT("lt", stop, f[i + 1]), stop, f[i + 1])
            return mk("S", k, tuple(f))
        if k in ("It:map", "It:enumerate", "It:inspect"):
            f[0] = taken(f[0], n)
            return mk("S", k, tuple(f))
    return mk("S", "It:take", (it, n))


LAZY1 = {"map", "filter", "filter_map", "take_while", "map_while", "inspect"}


def as_iter(eng, st, a):
    """iterator value behind an argument (by value or by mutable reference)"""
    if a.op == "ref":
        v = eng.deref_read(st, a)
        if v.op == "S" and v.a[0].startswith("It:") or eng.is_user_iter(E.valty(v)):
            return v, a
        if v.op == "S" and v.a[0].startswith("Range"):
            return eng.into_iter(v, st), a
        t = E.valty(v)
        if is_seq(v, t):
            return eng.into_iter(a, st), None
        return eng.into_iter(v, st), a
    return eng.into_iter(a, st), None


def iter_model(eng, name, meth, args, st, dty):
    if not args:
        return None
    a0 = args[0]
    ok = lambda v, s=st: (TRUE, v, s)
    itish = "Iterator" in name or "iter" in name.lower() or (a0.op == "S" and a0.a[0].startswith("It:"))
    if not itish:
        return None
    if meth in ("into_iter", "iter", "by_ref", "copied", "cloned", "fuse", "from_fn_"):
        if a0.op == "ref":
            v = eng.deref_read(st, a0)
            if v.op == "S" and v.a[0].startswith("It:"):
                return ok(a0)
            if meth == "by_ref":
                return ok(a0)
        return ok(eng.into_iter(a0, st))
    if meth == "once":
        return ok(mk("S", "It:once", (a0, I(1))))
    if meth == "empty":
        return ok(mk("S", "It:once", (BOT, I(0))))
    if meth in LAZY1 and len(args) == 2:
        it, ref = as_iter(eng, st, a0)
        return ok(mk("S", "It:" + meth, (it, args[1])))
    if meth == "enumerate":
        it, ref = as_iter(eng, st, a0)
        return ok(mk("S", "It:enumerate", (it, I(0))))
    if meth == "zip":
        it, ref = as_iter(eng, st, a0)
        return ok(mk("S", "It:zip", (it, eng.into_iter(args[1], st))))
    if meth == "rev":
        it, ref = as_iter(eng, st, a0)
        return ok(reverse(it))
    if meth == "skip":
        it, ref = as_iter(eng, st, a0)
        if it.op == "S" and it.a[0] in ("It:seq", "It:range"):
            f = list(it.a[1])
            k = 1 if it.a[0] == "It:seq" else 0
            e = f[k + 1]
            np = add(f[k], args[1])
            f[k] = np
            return ok(mk("S", it.a[0], tuple(f)))
        raise Unsup("skip")
    if meth == "take":
        it, ref = as_iter(eng, st, a0)
        return ok(taken(it, args[1]))
    if meth == "chain":
        it, _ = as_iter(eng, st, a0)
        c, v, st = collect(eng, st, it)
        c2, w, st = collect(eng, st, eng.into_iter(args[1], st))
        return band(c, c2), eng.into_iter(mkcat([v, w]), st), st
    if meth in ("flat_map", "flatten"):
        it, _ = as_iter(eng, st, a0)

        def step(s, v, ars):
            cc = TRUE
            if meth == "flat_map":
                cc, v, s = eng.call_value(s[fr_], [v], s, None)
            c1, sq, s = collect(eng, s, eng.into_iter(v, s))
            s = dict(s)
            s[ars[0]] = mkcat([s[ars[0]], sq])
            return [("back", band(cc, c1), s)]

        s = dict(st)
        fr_ = eng.newroot("?", args[1], s) if meth == "flat_map" else None
        pc, v, s = finish(eng, s, it, [("[?]", mk("sq", ()))], step, lambda s2, ars: (s2[ars[0]], []), [fr_] if fr_ else [])
        return pc, eng.into_iter(v, s), s
    if meth in ("next", "next_back") and is_mref(a0):
        if meth == "next_back":
            raise Unsup("next_back")
        it, ref = as_iter(eng, st, a0)
        if ref is None:
            raise Unsup("next on a sequence")
        # first element that passes the filters
        s = dict(st)
        r = eng.newroot("?", it, s)

        def body(s):
            out = []
            for kind, c, v, ni, s2 in eng.nxt(s, s[r]):
                s2 = dict(s2)
                s2[r] = ni
                if kind == "none":
                    s2[rv] = none(dty.s)
                    out.append(("done", c, s2))
                elif kind == "some":
                    s2[rv] = some(dty.s, v)
                    out.append(("done2", c, s2))
                else:
                    out.append(("back", c, s2))
            return out

        rv = eng.newroot(dty.s, BOT, s)
        outs = eng.run_loop(s, body)
        pc, s2 = eng.merge([(c, x) for l, c, x in outs])
        s2 = dict(s2)
        v = s2.pop(rv)
        ni = s2.pop(r)
        eng.deref_write(s2, ref, ni)
        return pc, v, s2
    if meth == "nth" and is_mref(a0):
        it, ref = as_iter(eng, st, a0)
        if it.a[0] == "It:seq" and ref is not None:
            src, pos, end, et = it.a[1]
            i = add(pos, args[1])
            s = dict(st)
            eng.deref_write(s, ref, mk("S", "It:seq", (src, add(i, I(1)), end, et)))
            return TRUE, ite(cmpT("lt", i, end), some(dty.s, seq_get(src, i, et.a[0])), none(dty.s)), s
        raise Unsup("nth")
    if meth in ("any", "all", "position", "find", "find_map", "try_for_each_"):
        it, ref = as_iter(eng, st, a0)
        s = dict(st)
        fr_ = eng.newroot("?", args[1], s)
        accs = [("usize", I(0))]
        store = []

        def step(s, v, ars):
            c, r, s2 = eng.call_value(s[fr_], [v], s, None)
            s2 = dict(s2)
            if meth == "find_map":
                hit = nobot(cmp_eq_const(getdisc(r, E.valty(r)), 1))
            else:
                hit = nobot(r)
            if meth == "all":
                hit = bnot(hit)
            sh = dict(s2)
            rr = mk("loc", "hit", 0)
            sh[rr] = r if meth == "find_map" else v
            if meth == "position":
                sn = dict(s2)
                sn[ars[0]] = add(sn[ars[0]], I(1))
            else:
                sn = s2
            return [(early, band(c, hit), sh), ("back", band(c, bnot(hit)), sn)]

        def early(s, ars):
            h = s.pop(mk("loc", "hit", 0))
            if meth == "any":
                return TRUE, []
            if meth == "all":
                return FALSE, []
            if meth == "position":
                return some(dty.s, s[ars[0]]), []
            if meth == "find":
                return some(dty.s, h), []
            return h, []

        def done(s, ars):
            if meth == "any":
                return FALSE, []
            if meth == "all":
                return TRUE, []
            return none(dty.s), []

        pc, v, s = finish(eng, s, it, accs, step, done, [fr_])
        if ref is not None:
            s = dict(s)
            eng.deref_write(s, ref, mk("sym", "spent", "It"))
        return pc, v, s
    if meth in ("count", "sum", "last", "for_each", "fold", "min", "max", "product"):
        it, ref = as_iter(eng, st, a0)
        s = dict(st)
        temps = []
        if meth == "for_each":
            fr_ = eng.newroot("?", args[1], s)
            temps = [fr_]
        if meth == "fold":
            fr_ = eng.newroot("?", args[2], s)
            temps = [fr_]
        init = {"count": I(0), "sum": I(0), "product": I(1), "for_each": UNIT}.get(meth)
        if meth == "fold":
            init = args[1]
        if meth in ("last", "min", "max"):
            init = none(dty.s)

        def step(s, v, ars):
            s = dict(s)
            a = ars[0]
            if meth == "count":
                s[a] = add(s[a], I(1))
            elif meth == "sum":
                s[a] = add(s[a], v)
            elif meth == "product":
                s[a] = mul(s[a], v)
            elif meth == "last":
                s[a] = some(dty.s, v)
            elif meth in ("min", "max"):
                cur = getpay(s[a], 1, 0, elem_ty(dty.s))
                has = nobot(cmp_eq_const(getdisc(s[a], dty.s), 1))
                better = nobot(cmpT("lt" if meth == "min" else "ge", v, cur))
                s[a] = ite(band(has, bnot(better)), s[a], some(dty.s, v))
            elif meth == "for_each":
                c, r, s = eng.call_value(s[fr_], [v], s, None)
                return [("back", c, s)]
            elif meth == "fold":
                c, r, s = eng.call_value(s[fr_], [s[a], v], s, None)
                s = dict(s)
                s[a] = r
                return [("back", c, s)]
            return [("back", TRUE, s)]

        return finish(eng, s, it, [(dty.s, init)], step, lambda s2, ars: (s2[ars[0]], []), temps)
    if meth in ("collect", "from_iter"):
        it, ref = as_iter(eng, st, a0)
        if is_seqty(dty):
            c, v, s = collect(eng, st, it)
            return c, v, s
        if "Set" in dty.s or "Map" in dty.s:
            def step(s, v, ars):
                s = dict(s)
                s[ars[0]] = mk("ap", "insert", (s[ars[0]], v), dty.s)
                return [("back", TRUE, s)]

            return finish(eng, st, it, [(dty.s, mk("sym", "empty", dty.s))], step, lambda s2, ars: (s2[ars[0]], []))
        raise Unsup("collect into " + dty.s)
    if meth in ("len",):
        it, ref = as_iter(eng, st, a0)
        if it.a[0] == "It:seq":
            return ok(sub(it.a[1][2], it.a[1][1]))
        raise Unsup("len of an iterator")
    return None


def collect(eng, st, it):
    if it.op == "S" and it.a[0] == "It:seq" and it.a[1][1] is FALSE and it.a[1][2] is seq_len(it.a[1][0]):
        return TRUE, it.a[1][0], st

    def step(s, v, ars):
        s = dict(s)
        s[ars[0]] = seq_push(s[ars[0]], v)
        return [("back", TRUE, s)]

    return finish(eng, st, it, [("[?]", mk("sq", ()))], step, lambda s2, ars: (s2[ars[0]], []))


def reverse(it):
    k = it.a[0]
    f = it.a[1]
    if k == "It:seq":
        return mk("S", "It:revseq", f)
    if k == "It:range":
        return mk("S", "It:revrange", f)
    if k in ("It:map", "It:filter", "It:filter_map"):
        return mk("S", k, (reverse(f[0]), f[1]))
    raise Unsup("rev of " + k)
