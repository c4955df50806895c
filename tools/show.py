"""Prints a record in readable form (development aid)."""
import json, sys
r = json.load(open(sys.argv[1]))
def v(x):
    if x == -1000000000: return None
    if 1000000 < x <= 2000000: return "".join(map(chr, r["strs"][x - 1000001]))
    return x
for t, s in r["T"].items():
    print(t, s["cols"], "pk", s["pk"], "uniq", s["uniq"], [(f["cols"], f["dst"], f["dcols"]) for f in s["fks"]])
    for x in r["src"][t]: print("    ", [v(y) for y in x])
p = dict(r["P"]); print({k: x for k, x in p.items() if x not in ([], {}, None)})
print("plan", r["plan"]["ok"], r["plan"]["err"], json.dumps(r["plan"]["queries"]))
for n, R in enumerate(r["runs"]):
    print("RUN", n + 1, {k: x for k, x in R.items() if k not in ("dst0", "D0", "end", "obs", "versions")})
    for t, d in R["D0"].items(): print("   before", t, d["cols"], d["pk"], d["uniq"], d["fks"], [[v(y) for y in x] for x in R["dst0"][t]])
    print("  end", R["end"]["ok"], R["end"]["err"][:400], R["end"]["next"])
    for t, d in R["end"]["D"].items(): print("   after", t, d["cols"], d["pk"], [[v(y) for y in x] for x in R["end"]["dst"][t]])
    for o in R["obs"]: print("   seen", {t: [[v(y) for y in x] for x in X] for t, X in o.items()})
