"""Runs families of scenarios through the code under test in parallel worker
processes and has TLC judge every record against the specification."""
import importlib
import json
import multiprocessing
import os
import random
import sys
import tempfile
import time
import traceback

import engines
import tlc

WORKERS = 8


class Job:
    __slots__ = ("id", "family", "dialect", "key", "index")

    def __init__(self, id_, family, dialect, key, index):
        self.id, self.family, self.dialect, self.key, self.index = id_, family, dialect, key, index


def worker_of(job):
    return job.index % WORKERS


OTHER = {"language": ("lang", "PlanTrace"), "chance": ("chance", "Chance")}      # families with a runner and a trace specification of their own


def runner(family):
    """(module that runs its scenarios, trace specification)"""
    mod, spec = OTHER.get(family, ("drive", "Trace"))
    return importlib.import_module(mod), spec


def make_scenario(job):
    rng = random.Random(job.key)
    if job.family in OTHER:
        return runner(job.family)[0].scenario(rng, job.id, job.dialect, f"w{worker_of(job)}")
    from families import FAMILIES
    sc = FAMILIES[job.family](rng, int(job.key.rsplit(":", 1)[1]), job.dialect, f"w{worker_of(job)}")
    sc["id"] = job.id
    return sc


def stats_of(rec):
    s = {"planned": int(rec["plan"]["ok"]), "refused": int(not rec["plan"]["ok"]), "runs": len(rec["runs"])}
    s["ok"] = sum(r["end"]["ok"] for r in rec["runs"])
    s["failed"] = sum(not r["end"]["ok"] and not r["cut"] for r in rec["runs"])
    s["cut"] = sum(not r["end"]["ok"] and r["cut"] for r in rec["runs"])
    s["looks"] = sum(len(r["obs"]) for r in rec["runs"])
    s["moved"] = sum(r["moves"] for r in rec["runs"])
    s["rows"] = sum(len(x) for r in rec["runs"] if r["end"]["ok"] for x in r["end"]["dst"].values())
    s["random"] = int(any(0 < g["percent"] < 100 or g["amount"] >= 0 for g in rec["P"]["targets"].values()))
    return s


def short(rec, job):
    return {"scenario": job.key, "tables": {t: {"columns": s["cols"], "primary_key": s["pk"], "rows": len(rec["src"][t]),
                                                "foreign_keys": [f["cols"] + ["->"] + [f["dst"]] + f["dcols"] for f in s["fks"]]}
                                            for t, s in rec["T"].items()},
            "plan": {t: {"joins": [j["dst"] for j in q["joins"]], "any": q["outer"]} for t, q in rec["plan"]["queries"].items()},
            "runs": [{"ok": r["end"]["ok"], "error": r["end"]["err"][:120], "cut": r["cut"], "observations": len(r["obs"]),
                      "rows": {t: len(x) for t, x in r["end"]["dst"].items()}} for r in rec["runs"]]}


def work(k, jobs, root, servers, tdir, deadline, queue):
    try:
        import drive
        place = drive.Place(root, k, servers)
        records, bad, errs, done = [], {}, [], 0
        samples = []
        stats = {}
        states = 0
        skipped = 0
        tlc.TRANSITIONS[0] = 0
        jobs = list(jobs)

        def flush():
            nonlocal records
            for spec in sorted({sp for sp, _ in records}):
                judge(spec, [r for sp, r in records if sp == spec])
            records = []

        def judge(spec, records):
            nonlocal states
            module = {"module": spec, "cfg": spec + ".cfg"}
            t0 = time.time()
            try:
                v, st = tlc.validate(records, tdir, jobs=1, **module)
            except tlc.TlcError:                           # find the record the specification cannot read
                v, st = {}, 0
                for r in records:
                    try:
                        v1, s1 = tlc.validate([r], tdir, jobs=1, **module)
                    except tlc.TlcError as exc:
                        v1, s1 = {r["id"]: {"unreadable"}}, 0
                        stats["unreadable"] = str(exc)[-600:]
                    v.update(v1)
                    st += s1
            stats["time:tlc"] = stats.get("time:tlc", 0) + time.time() - t0
            states += st
            for r in records:
                if v[r["id"]]:
                    path = os.path.join(tdir, f"bad{r['id']}.json")
                    with open(path, "w") as f:
                        json.dump(r, f)
                    bad[r["id"]] = (sorted(v[r["id"]]), path)

        for job in jobs:
            if time.time() > deadline:
                skipped += 1
                continue
            t0 = time.time()
            try:
                mod, spec = runner(job.family)
                rec = mod.run_scenario(make_scenario(job), place)
            except Exception:                              # noqa: BLE001
                errs.append((job.id, traceback.format_exc()[-1500:]))
                path = os.path.join(tdir, f"bad{job.id}.json")
                with open(path, "w") as f:
                    json.dump({"error": errs[-1][1]}, f)
                bad[job.id] = (["unobservable"], path)      # (what the code left behind cannot be interpreted)
                continue
            done += 1
            stats["time:" + job.family] = stats.get("time:" + job.family, 0) + time.time() - t0
            own = mod is not drive
            for n, x in (mod.stats_of(rec) if own else stats_of(rec)).items():
                stats[n] = stats.get(n, 0) + x
            stats["family:" + job.family + ":" + job.dialect] = stats.get("family:" + job.family + ":" + job.dialect, 0) + 1
            records.append((spec, rec))
            if len(samples) < 1 and (own or rec["plan"]["ok"]):
                samples.append(mod.short(rec, job) if own else short(rec, job))
            if len(records) >= 250:
                flush()
        flush()
        place.close()
        stats["transitions"] = tlc.TRANSITIONS[0]
        queue.put((k, bad, errs, done, stats, states, skipped, samples, None))
    except BaseException:                                  # noqa: BLE001
        queue.put((k, {}, [], 0, {}, 0, 0, [], traceback.format_exc()[-3000:]))


class Result:
    def __init__(self):
        self.bad = {}          # job id -> (clauses, path of the record)
        self.errs = []
        self.done = self.states = self.skipped = 0
        self.samples = []
        self.stats = {}
        self.jobs = {}


def plan_jobs(name, seed, families):
    """families: [(family, dialect, count)]"""
    jobs = []
    for fam, dialect, n in families:
        for i in range(n):
            jobs.append(Job(len(jobs) + 1, fam, dialect, f"{name}:{fam}:{dialect}:{seed}:{i}", len(jobs)))
    return jobs


def run(jobs, scratch, budget):
    """runs the jobs within about budget seconds"""
    res = Result()
    res.jobs = {j.id: j for j in jobs}
    want = {j.dialect for j in jobs}
    servers = None
    if want & {"postgres", "mysql"}:
        servers = engines.Servers(want_pg=WORKERS if "postgres" in want else 0, want_mysql=2 if "mysql" in want else 0)
    root = os.path.join(scratch, "work")
    os.makedirs(root, exist_ok=True)
    ctx = multiprocessing.get_context("fork")
    queue = ctx.Queue()
    deadline = time.time() + budget
    procs = []
    parts = [[j for j in jobs if worker_of(j) == k] for k in range(WORKERS)]
    for k, part in enumerate(parts):
        if part:
            p = ctx.Process(target=work, args=(k, part, root, servers, scratch, deadline, queue))
            p.start()
            procs.append(p)
    try:
        for _ in procs:
            while True:
                try:
                    k, bad, errs, done, stats, states, skipped, samples, crash = queue.get(timeout=5)
                    break
                except Exception:                          # noqa: BLE001  (empty)
                    if all(not p.is_alive() for p in procs) and queue.empty():
                        raise RuntimeError("a worker died without a result")
            if crash:
                raise RuntimeError("a worker failed:\n" + crash)
            res.bad.update(bad)
            res.errs += errs
            res.done += done
            res.states += states
            res.skipped += skipped
            res.samples += samples
            for n, x in stats.items():
                res.stats[n] = x if isinstance(x, str) else res.stats.get(n, 0) + x
        for p in procs:
            p.join()
    finally:
        for p in procs:
            if p.is_alive():
                p.terminate()
        if servers:
            servers.close()
    return res
