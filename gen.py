"""Writes properties.jsonl and MANIFEST.json from vg/props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vg"))
from props import PROPS, NA, NOTES

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            an = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                an["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                an["observe_at"] = p["observe"]
            an["hook_needed"] = None
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["tests"], "anchors": an}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in NA:
            na.append({"property": p["id"], "reason": NA[p["id"]]})
            continue
        tech = []
        if p["scope"]:
            tech.append("value-graph comparison of the compiler's MIR (gated value numbering) with the reviewed reference semantics")
        if p["rules"]:
            tech.append("rules over the resolved program: " + ", ".join(p["rules"]))
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                       "technique": "; ".join(tech), "level": "translation_validation" if p["scope"] else "other",
                       "level_note": NOTES["scope"] if p["scope"] else NOTES["rules"]})
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
               "notes": "All checks read the source of /repo through the compiler on every run; nothing of /repo is executed."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "checks", len(na), "not applicable")

main()
