#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's working tree.  Exit 0: it held on everything
explored.  Exit 1: a line "VIOLATION property=<id> replay=<path>" names a
recorded counterexample.  Exit 2: the check could not do its work."""
import argparse
import collections
import json
import os
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True

import campaign  # noqa: E402
import engines  # noqa: E402
import special  # noqa: E402
from props import PROPS, counted  # noqa: E402

BUDGET = {"quick": 420, "thorough": 690}


def known_findings():
    with open(os.path.join(HERE, "known_findings.json"), encoding="utf-8") as f:
        return json.load(f)


class Context:
    def __init__(self, prop, tier, seed, scratch, t0):
        self.prop, self.tier, self.seed, self.scratch, self.t0 = prop, tier, seed, scratch, t0
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []          # (text, payload)
        self.errors = []
        self.notes = {}
        self.known = []

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def left(self):
        return BUDGET[self.tier] - (time.time() - self.t0)

    def violated(self, text, payload):
        self.violations.append((text, payload))


def run_campaign(ctx, only=None):
    spec = PROPS[ctx.prop]
    fams = [(f, d, ctx.pick(q, t)) for f, d, q, t in spec["fam"]]
    if only is not None:
        jobs = [only]
    else:
        jobs = campaign.plan_jobs(ctx.prop, ctx.seed, fams)
        if ctx.thorough():                 # every family gets its share should time run out
            import random
            random.Random(ctx.seed).shuffle(jobs)
            for k, j in enumerate(jobs):
                j.index = k
    for j in {j.family for j in jobs} & set(special.PREPARE):
        if not special.PREPARED.get(j):
            special.PREPARE[j](ctx)
            special.PREPARED[j] = True
    res = campaign.run(jobs, ctx.scratch, max(20, ctx.left() - 40))
    ctx.states += res.states
    ctx.transitions += res.stats.get("transitions", 0)
    ctx.traces += res.done
    if only is None:
        ctx.samples += res.samples[:3]
        ctx.notes["scenarios"] = {k.split(":", 1)[1]: v for k, v in res.stats.items() if k.startswith("family:")}
        ctx.notes["events"] = {k: v for k, v in res.stats.items() if ":" not in k and not isinstance(v, str)}
        ctx.notes["not_run_for_lack_of_time"] = res.skipped
        others = collections.Counter(c for cl, _ in res.bad.values() for c in cl)
        if others:
            ctx.notes["broken_clauses"] = dict(others)
        for f, d, n in fams:
            if not ctx.thorough() and res.stats.get(f"family:{f}:{d}", 0) < 0.5 * n:
                ctx.errors.append(f"only {res.stats.get(f'family:{f}:{d}', 0)} of {n} scenarios of {f} on {d} could be run")
        if len(res.errs) > max(2, 0.01 * len(jobs)):
            ctx.errors.append(f"{len(res.errs)} scenarios failed in the harness, e.g. {res.jobs[res.errs[0][0]].key}:\n{res.errs[0][1]}")
        elif res.errs:
            ctx.notes["harness_errors"] = [res.jobs[i].key + ": " + e[-200:] for i, e in res.errs[:3]]
        if "unreadable" in res.stats:
            ctx.notes["unreadable"] = res.stats["unreadable"]
    found = [(res.jobs[i], counted(ctx.prop, cl), path) for i, (cl, path) in res.bad.items()]
    return [(j, cl, path) for j, cl, path in found if cl]


def campaign_part(ctx):
    found = run_campaign(ctx)
    if not found:
        return
    # one history of each kind, repeated: what cannot be repeated is only reported if it happened often
    kinds = {}
    for j, cl, path in sorted(found, key=lambda x: (x[0].dialect != "sqlite", os.path.getsize(x[2]))):
        kinds.setdefault((j.family, j.dialect, tuple(cl)), []).append((j, cl, path))
    ctx.notes["violating_scenarios"] = {f"{f}/{d}: {', '.join(cl)}": len(x) for (f, d, cl), x in kinds.items()}
    tries = 0
    for (f, d, cl), lst in sorted(kinds.items(), key=lambda x: (x[0][1] != "sqlite", -len(x[1]))):
        j, cl, path = lst[0]
        again = len(lst) >= 4
        while not again and tries < 12 and ctx.left() > 30:
            tries += 1
            k = campaign.Job(j.id, j.family, j.dialect, j.key, j.index)
            again = bool(run_campaign(ctx, only=k))
            if not again and tries % 4 == 0:
                break
        if again:
            with open(path, encoding="utf-8") as fh:
                rec = json.load(fh)
            ctx.violated(f"{f} on {d}: clauses {', '.join(cl)} ({len(lst)} scenarios)",
                         {"kind": "scenario", "family": j.family, "dialect": j.dialect, "key": j.key, "index": j.index,
                          "clauses": cl, "record": rec})
            if len(ctx.violations) >= 3:
                break
        else:
            ctx.notes.setdefault("not_reproduced", []).append(f"{j.key}: {', '.join(cl)}")


def replay(ctx, path):
    with open(path, encoding="utf-8") as f:
        p = json.load(f)
    if p["kind"] == "scenario":
        for _ in range(5):
            found = run_campaign(ctx, only=campaign.Job(1, p["family"], p["dialect"], p["key"], p["index"]))
            if found:
                ctx.violated(f"clauses {', '.join(found[0][1])}", p)
                return
    else:
        special.replay(ctx, p)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = engines.scratch()
    ctx = Context(a.property, a.tier, seed, scratch, t0)
    code = 0
    try:
        if a.replay:
            replay(ctx, a.replay)
        else:
            for fn in special.CHECKS.get(a.property, []):
                fn(ctx)
            if PROPS.get(a.property, {}).get("fam"):
                campaign_part(ctx)
            for k in known_findings()["findings"]:
                if k["property"] == a.property:
                    special.probe(ctx, k)
    except Exception:                                      # noqa: BLE001
        ctx.errors.append(traceback.format_exc())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for text in ctx.known:
        print(f"KNOWN-FINDING: property={a.property} {text}")
    if ctx.violations:
        code = 1
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for n, (text, payload) in enumerate(ctx.violations[:5]):
            path = os.path.join(d, f"{a.property}-{n + 1}.json")
            if a.replay:
                path = a.replay
            else:
                with open(path, "w", encoding="utf-8") as f:
                    json.dump(payload, f)
            print(f"VIOLATION property={a.property} replay={path}")
            print("  " + text)
    elif ctx.errors:
        code = 2
    for e in ctx.errors:
        print("ERROR " + e, file=sys.stderr)
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
                           "samples": ctx.samples[:6] or ["none"], **ctx.notes},
              "assumptions": ["the database engines, SQLAlchemy and TLC work", "the harness reads databases through the raw drivers"],
              "wall_s": round(time.time() - t0, 1), "violations": len(ctx.violations)}
        with open(os.path.join(HERE, "evidence", a.property + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{a.property} {a.tier}: {ctx.traces} traces, {ctx.states} states, {time.time() - t0:.0f} s, exit {code}"
          + (f", unreproduced: {ctx.notes['not_reproduced']}" if ctx.notes.get("not_reproduced") else ""))
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
