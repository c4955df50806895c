"""C04: what a target keeps at random, judged by spec/Chance.tla."""
import json
import os
import shutil

import drive
from drive import db_doc, outcome, release

BPS = [0, 1, 50, 250, 500, 1000, 1000, 2000, 2500, 3333, 5000, 5000, 6667, 7500, 9000, 9950, 10000]


def scenario(rng, i, dialect, sfx):
    C = lambda n, null=False: {"name": n, "type": "int", "null": null}
    schema = "s_" + sfx + "a"
    t, c = schema + ".t", schema + ".c"
    tables = {t: {"cols": [C("id"), C("g", True)], "pk": ["id"], "fks": []},
              c: {"cols": [C("id"), C("t", True)], "pk": ["id"], "fks": [{"cols": ["t"], "dst": t, "dcols": ["id"]}]}}
    n = rng.choice([700, 1000, 1300])
    ids = list(range(1, n + 1)) if rng.random() < .5 else rng.sample(range(-10 * n, 10 * n), n)
    groups = rng.choice([1, 1, 2, 5])
    rows = {t: [[k, rng.randrange(groups)] for k in ids], c: []}
    if rng.random() < .5:
        rows[c] = [[k, k] for k in ids[:rng.choice([0, 5, n // 2, n])]]
    target, keep = {}, [0]
    if groups > 1:
        keep = sorted(rng.sample(range(groups), rng.randint(1, groups - 1)))
        if rng.random() < .5:
            target["in"] = {"g": keep}
        else:
            target["sql"] = " OR ".join(f"g = {g}" for g in keep)
    match = sum(r[1] in keep for r in rows[t])
    bp, amount = -1, -1
    if rng.random() < .6:
        bp = rng.choice(BPS)
        target["percent"] = bp / 100
    else:
        amount = rng.choice([0, 1, 20, match // 10, match // 3, match // 2, match - 1, match, 2 * match])
        target["amount"] = amount
    planner = {"select": [schema + ".*"], "targets": {t: target}}
    if rng.random() < .4:                                   # t is sampled, then c from it
        planner["select"] = [t, c]
    else:
        planner["select"] = [t]
    return {"id": i, "dialect": dialect, "schemas": [schema], "tables": tables, "rows": rows, "planner": planner, "t": t, "keep": keep,
            "bp": bp, "amount": amount}


def run_scenario(sc, place):
    src = place.db(sc["dialect"], "src", sc["schemas"])
    src.build(sc["tables"], sc["rows"])
    t = sc["t"]
    match = sorted(r[0] for r in sc["rows"][t] if r[1] in sc["keep"])
    outdir = os.path.join(place.root, "out")
    seen = []

    def go():
        source = drive.DatabaseConfig.model_validate(db_doc(src))
        plan = drive.Planner(source, drive.PlannerConfig.model_validate(sc["planner"])).plan()
        drive.Sampler(source, drive.SamplerConfig.model_validate({"output": {"mode": "directory", "directory": outdir}})).sample(plan)
        with open(os.path.join(outdir, t + ".json"), encoding="utf-8") as f:
            return [json.loads(x)["id"] for x in f]
    for _ in range(2):
        shutil.rmtree(outdir, ignore_errors=True)
        ok, err, ids = outcome(go)
        release()
        if not ok:
            break
        seen.append(ids)
    sel, more = [], 0
    for ids in seen:
        have = set(ids)
        sel.append([int(k in have) for k in match])
        more += len(ids) - sum(sel[-1])
    sel += [[0] * len(match)] * (2 - len(sel))
    return {"id": sc["id"], "kind": "chance", "bp": sc["bp"], "amount": sc["amount"], "sel": sel[0], "again": sel[1], "more": more,
            "ok": len(seen) == 2, "err": err, "doc": sc["planner"]}


def stats_of(rec):
    return {"runs": 2, "ok": int(rec["ok"]), "failed": int(not rec["ok"]), "rows": sum(rec["sel"]) + sum(rec["again"])}


def short(rec, job):
    return {"scenario": job.key, "target": rec["doc"]["targets"], "matching": len(rec["sel"]), "kept": [sum(rec["sel"]), sum(rec["again"])]}
