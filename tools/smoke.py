"""Runs families on a dialect and prints the broken clauses (development aid)."""
import argparse, collections, os, shutil, sys, time, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import campaign, engines
ap = argparse.ArgumentParser()
ap.add_argument("families"); ap.add_argument("--dialect", default="sqlite"); ap.add_argument("-n", type=int, default=40)
ap.add_argument("--seed", default="s1"); ap.add_argument("--keep", default="/tmp/smoke"); ap.add_argument("--show", type=int, default=6)
a = ap.parse_args()
from families import FAMILIES
fams = list(FAMILIES) if a.families == "all" else a.families.split(",")
scr = engines.scratch()
os.makedirs(a.keep, exist_ok=True)
try:
    t0 = time.time()
    jobs = campaign.plan_jobs("smoke", a.seed, [(f, d, a.n) for f in fams for d in a.dialect.split(",")])
    r = campaign.run(jobs, scr, 800)
    print("done", r.done, "skipped", r.skipped, "states", r.states, "%.1fs" % (time.time() - t0), {k: v for k, v in r.stats.items() if ":" not in k})
    print({k: round(v, 1) for k, v in r.stats.items() if "time:" in k})
    by = collections.Counter(); ex = {}
    for i, (cl, path) in r.bad.items():
        for c in cl:
            k = (r.jobs[i].family, r.jobs[i].dialect, c); by[k] += 1; ex.setdefault(k, i)
    for k, n in sorted(by.items()):
        j = r.jobs[ex[k]]; dst = os.path.join(a.keep, f"{k[0]}-{k[1]}-{k[2]}.json"); shutil.copy(r.bad[ex[k]][1], dst)
        rec = json.load(open(dst))
        print(n, k, j.key, [x["end"]["err"][:160] for x in rec["runs"]] if "plan" in rec else rec["err"][:300], rec["plan"]["err"][:100] if "plan" in rec else "")
    for i, e in r.errs[: a.show]:
        print("ERR", r.jobs[i].key, e[-700:])
    print(len(r.errs), "harness errors")
finally:
    shutil.rmtree(scr, ignore_errors=True)
