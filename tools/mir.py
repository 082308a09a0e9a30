"""Development tool: mir.py FACTS.json KEY   prints the MIR facts of a function"""
import sys, json
sys.path.insert(0, "/verif/vg")
from mir import Crate
c = Crate(sys.argv[1], "r")
for i in c.insts:
    if i and i.get("body") and sys.argv[2] in i["name"]:
        print("==", i["name"], [c.ty(t).s for t in i["body"]["locals"]])
        for n, b in enumerate(i["body"]["blocks"]):
            print(n)
            for s in b["st"]: print("   ", json.dumps(s)[:400])
            print("   ->", json.dumps(b["t"])[:400])
