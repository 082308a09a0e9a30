#!/usr/bin/env python3
"""Decides one property of /repo by static analysis.   check.py Cnn | --setup | --all | --list"""
import json, os, re, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vg"))
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
EVID = os.path.join(V, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def known():
    """known findings: property and exact key; nothing listed here as fixed suppresses anything"""
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*)", l.strip())
            if m:
                out[(m.group(1), m.group(2).strip())] = l.strip()
    return out


def scope_match(cmp, scope):
    """(relevant(function, component), functions in scope)"""
    fns = {}
    empty = []
    names = set(cmp.S.by) | set(cmp.R.by)
    for e in scope:
        hit = [k for k in names if re.search(e[1], k)]
        if not any(k in cmp.S.by for k in hit):
            empty.append(e[1])
        if e[0] == "closure":
            for k in cmp.closure(hit):
                fns.setdefault(k, []).append(".")
        else:
            for k in hit:
                fns.setdefault(k, []).append(e[2])
    return fns, empty


def run(pid, cx=None):
    import props
    from facts import Facts
    from compare import Compare, DEF
    import rules
    from par import pmap

    t0 = time.time()
    p = next(x for x in props.PROPS if x["id"] == pid)
    own = cx is None
    if own:
        facts = Facts()
        cmp = Compare(facts.get("spec"), facts.get("repo"), deep=TIER == "thorough",
                      each=60 if TIER == "quick" else 200, total=200 if TIER == "quick" else 650)
        cx = rules.Ctx(facts, cmp)
    cmp = cx.cmp
    viol = []  # (key, text)
    und = []
    cov = {}
    samples = []
    if p["scope"]:
        fns, empty = scope_match(cmp, p["scope"])
        if empty:
            raise SystemExit(f"scope of {pid} matches nothing: {empty}")
        inref = sorted(k for k in fns if k in cmp.S.by)
        cmp.run(set(fns))
        gone = [k for k in inref if k in cmp.S.reach and k not in cmp.R.by and not any(q.split("::<")[0] == k.split("::<")[0] for q in cmp.R.by)]
        for k in gone:
            viol.append((f"missing {k}", f"the public function {k} is gone"))
        for k in inref:
            if k not in cmp.common and k not in gone and k in cmp.S.reach:
                und.append(f"{k}: not comparable with the reference (other signature)")
        for k, comp, r, note in cmp.verdicts():
            if k not in fns or not any(re.search(c, comp) for c in fns[k]):
                continue
            if any(re.search(a, k) and re.search(b, comp) for a, b in p["skip"]):
                continue
            viol.append((f"{k} {comp}", f"{rules.loc(cmp.R, k)}: {comp} differs: {r.why} [{note}]"))
        done = [k for k in inref if k in cmp.A]
        for k in done:
            for comp, r in cmp.A[k]:
                if not any(v[0] == f"{k} {comp}" for v in viol):
                    und.append(f"{k} {comp}: {r.why}")
        cov.update(programs=len(inref), disagreements_checked=sum(len(cmp.A[k]) for k in done),
                   identical_ir=sum(1 for k in done if k in cmp.ident), compared_as_graphs=sum(1 for k in done if k not in cmp.ident),
                   not_comparable=len([k for k in inref if k not in cmp.common]))
        samples += [f"{k}: {'identical IR' if k in cmp.ident else 'equal value graph' if not cmp.A[k] else cmp.A[k][0][1].why[:200]}" for k in done[:: max(1, len(done) // 12)]]
        cov["functions"] = inref
        # arithmetic of the functions that are not the reference's own IR: graphs compute with unbounded integers
        chg = {k for k in fns if "." in fns[k] and k in cmp.R.by and k not in cmp.ident}
        if chg and "ranges" not in p["rules"]:
            got = pmap([chg], lambda c: rules.ranges(cx, only=c), 150, time.time() + 150, fallback=lambda c, why: why)[0]
            if isinstance(got, str):
                und.append(f"ranges of the changed functions: no answer: {got}")
            else:
                for o in got:
                    if o.ok is False:
                        viol.append((f"ranges: {o.what}", f"{o.where}: {o.what}: {o.detail}"))
                cov["range_obligations_of_changed_functions"] = len(got)
    obs = 0
    nd = {}
    lim = 300 if TIER == "quick" else 800
    outs = pmap(p["rules"], lambda rn: rules.RULES[rn](cx), lim, time.time() + lim, fallback=lambda rn, why: why)
    for rn, res in zip(p["rules"], outs):
        if isinstance(res, str):
            und.append(f"{rn}: no answer: {res}")
            continue
        floor = props.FLOORS.get(rn, 1)
        nd[rn] = len(res)
        if len(res) < floor:
            viol.append((f"rule {rn} lost its anchors", f"rule {rn} found {len(res)} instances, at least {floor} were confirmed by hand"))
        for o in res:
            obs += 1
            if o.ok is False:
                viol.append((f"{rn}: {o.what}", f"{o.where}: {rn}: {o.what}: {o.detail}"))
            elif o.ok is None:
                und.append(f"{rn}: {o.what}: {o.detail}")
        samples += [f"{rn}: {o.what}: {'holds' if o.ok else 'undecided' if o.ok is None else 'VIOLATED'}" for o in res[:: max(1, len(res) // 4)]][:6]
    if p["rules"]:
        cov["rules"] = nd
        cov["rule_obligations"] = obs
    kn = known()
    os.makedirs(EVID, exist_ok=True)
    real = []
    seen = set()
    for key, text in viol:
        if key in seen:
            continue
        seen.add(key)
        if (pid, key) in kn:
            print(f"KNOWN-FINDING: property={pid} {key}")
        else:
            real.append((key, text))
    cov["explanation"] = (("Each function in scope: its MIR in /repo is compared with the reference semantics (/verif/spec), first as canonical IR, then as value graph. " if p["scope"] else "")
                          + (f"Rules {', '.join(p['rules'])} checked on every instance found in the resolved program of /repo. " if p["rules"] else "") + p["title"])
    cov["undecided"] = und[:40]
    cov["undecided_count"] = len(und)
    cov["samples"] = samples or ["none"]
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "translation_validation" if p["scope"] else "other", "coverage": cov,
          "assumptions": props.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    if not p["scope"]:
        cov.pop("programs", None)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rep = os.path.join(EVID, f"{pid}.report.txt")
    with open(rep, "w") as f:
        f.write(f"{p['id']} {p['title']}\n")
        for key, text in real:
            f.write(f"VIOLATION {key}\n    {text}\n")
        for u in und:
            f.write(f"undecided {u}\n")
    for key, text in real:
        print(text[:600])
    print(f"{pid}: {cov.get('programs', 0)} functions compared, {obs} rule obligations, {len(real)} violations, {len(und)} undecided, {time.time()-t0:.1f} s")
    if real:
        print(f"VIOLATION property={pid} replay={rep}")
    if own:
        cx.facts.close()
    return 1 if real else 0


def setup():
    from facts import Facts
    f = Facts()
    f.get("spec")
    f.get("repo")
    f.close()
    return 0


def main():
    a = [x for x in sys.argv[1:] if x != "--thorough"]
    if a[0] == "--setup":
        return setup()
    if a[0] in ("--all", "--list"):
        import props
        ids = [p["id"] for p in props.PROPS if p["id"] not in props.NA]
        if a[0] == "--list":
            print(" ".join(ids))
            return 0
        if len(a) > 1:
            ids = a[1:]
        from facts import Facts
        from compare import Compare
        import rules
        facts = Facts()
        cmp = Compare(facts.get("spec"), facts.get("repo"), deep=TIER == "thorough", each=60, total=3000)
        cx = rules.Ctx(facts, cmp)
        bad = [i for i in ids if run(i, cx)]
        facts.close()
        print("ALL violated:", " ".join(bad) or "none")
        return 1 if bad else 0
    return run(a[0])


RC = [2]


def guarded():
    try:
        RC[0] = main()
    except SystemExit as x:
        print(x, file=sys.stderr)
    except BaseException:
        import traceback
        traceback.print_exc()


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=guarded)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC[0])
