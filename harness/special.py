"""Checks besides the scenario campaigns: models explored by TLC, and their
behaviours replayed into the code."""
import json
import multiprocessing
import os
import random

import command
import conn
import engines
import families
import findings
import lang
import tlc
from world import Codec

WORKERS = 8
PLACES = {}


def pool(fn, items, chunk=None):
    """[fn(x) for x in items] in forked processes"""
    items = list(items)
    if not items:
        return []
    with multiprocessing.get_context("fork").Pool(WORKERS) as p:
        return p.map(fn, items, chunk or max(1, len(items) // (WORKERS * 4)))


def cases(out, prefix="CASE "):
    """what a model printed with PrintT(prefix \\o ToJson(..))"""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + prefix):
            res.append(json.loads(json.loads(line)[len(prefix):]))
    return res


def model(ctx, module, cfg, name=None, **kw):
    """explore a model exhaustively; counts its states; returns its output"""
    gen, dist, out = tlc.check_model(module, cfg, ctx.scratch, **kw)
    ctx.states += dist
    ctx.transitions += gen
    ctx.notes.setdefault("models", {})[name or cfg] = {"states": dist, "transitions": gen}
    return out


def judge(ctx, records, module, count, what, describe=lambda r: {}):
    """records of the code judged by a trace specification; clauses counted as violations"""
    tlc.TRANSITIONS[0] = 0
    verdicts, states = tlc.validate(records, ctx.scratch, module=module, cfg=module + ".cfg")
    ctx.states += states
    ctx.transitions += tlc.TRANSITIONS[0]
    ctx.traces += len(records)
    ctx.notes[what] = ctx.notes.get(what, 0) + len(records)
    bad = [(r, sorted(c for c in verdicts[r["id"]] if count is None or c in count)) for r in records]
    bad = [(r, c) for r, c in bad if c]
    kinds = {}
    for r, c in bad:
        kinds.setdefault(tuple(c), []).append(r)
    for c, rs in list(kinds.items())[:3]:
        r = min(rs, key=lambda r: len(json.dumps(r)))
        ctx.violated(f"{what}: {', '.join(c)} ({len(rs)} of {len(records)}), e.g. {json.dumps(describe(r))[:1500]}",
                     {"kind": module, "what": what, "clauses": list(c), "record": r})
    return bad


# ------------------------------------------------------------------- C07
MC_DB = {"cols": {"a": ["id", "v"], "b": ["id", "r"]}, "strs": [],
         "src": {"a": [[1, 0], [2, 1], [3, -1000000000]], "b": [[1, 1], [2, 3], [3, -1000000000], [4, 1]]}}
MC_X = {"a": [[1, 0], [3, -1000000000]], "b": [[2, 3], [3, -1000000000]]}


def _qualified(x, there):
    """table names of the model <-> names with a schema"""
    if isinstance(x, dict):
        return {k: (("m." + v if there else v[2:]) if k == "t" else _qualified(v, there)) for k, v in x.items()}
    return [_qualified(y, there) for y in x] if isinstance(x, list) else x


def _enumerated(arg):
    i, case = arg
    cd = Codec()
    doc = lang.stmt_doc(_qualified(case, True), lang.Decoder(cd))
    r = lang.simp_record(i, {"cols": {}, "src": {}, "strs": ["x"]}, {}, doc, cd)
    r["S"] = {k: ({"m." + t: x for t, x in v.items()} if k != "strs" else v) for k, v in MC_DB.items()}
    r["X"] = {"m." + t: x for t, x in MC_X.items()}
    return r


def _random_simp(arg):
    return lang.random_simp(*arg)


def simp_shape(r):
    return {"query": r["doc"], "simplified": r["b"], "error": r["err"], "runs": [x["err"] for x in r["runs"] if not x["ok"]]}


def simplification(ctx):
    outs = [model(ctx, "PlanLangMC", "PlanLangMC.union.cfg")]
    if ctx.thorough():
        outs.append(model(ctx, "PlanLangMC", "PlanLangMC.cond.cfg"))
    else:
        outs.append(model(ctx, "PlanLangMC", "PlanLangMC.cond1.cfg"))
    todo = [c for o in outs for c in cases(o)]
    recs = pool(_enumerated, enumerate(todo, 1))
    judge(ctx, recs, "PlanTrace", None, "queries enumerated by the specification", simp_shape)
    seed = ctx.seed
    n0 = 0
    for batch in range(ctx.pick(1, 12)):
        if ctx.left() < 120:
            break
        n = ctx.pick(6000, 10000)
        recs = pool(_random_simp, [(seed, n0 + k) for k in range(1, n + 1)])
        n0 += n
        if batch == 0:
            ctx.samples += [simp_shape(r) for r in recs[:3]]
            ctx.notes["executed_on_sqlite"] = sum(len(r["runs"]) for r in recs)
            ctx.notes["changed_by_simplification"] = sum(r["b"] != [r["a"]] for r in recs)
        judge(ctx, recs, "PlanTrace", None, "random queries", simp_shape)


# ------------------------------------------------------------------- C24
def _quietly(fn, arg):
    import logging
    logging.disable(logging.WARNING)
    try:
        return fn(arg)
    finally:
        logging.disable(logging.NOTSET)


def _given(arg):
    return _quietly(conn.given_record, arg)


def _live(arg):
    i, dialect, seed = arg
    return _quietly(lambda a: conn.live_record(i, dialect, PLACES[dialect], seed), arg)


def given_shape(r):
    return {"role": r["case"]["role"], "config": {k: v for k, v in r["case"]["cfg"].items() if v != "unset"},
            "env": {k: v for k, v in r["case"]["env"].items() if v != "unset"}, "driver": {k: v for k, v in r["seen"].items() if v not in ("none", "")}}


def live_shape(r):
    return {k: r[k] for k in ("dialect", "role", "sqls", "want", "seen", "why")}


def connections(ctx):
    out = model(ctx, "ConnMC", "ConnMC.deep.cfg" if ctx.thorough() else "ConnMC.cfg")
    todo = cases(out)
    ctx.notes["connection_cases_enumerated"] = len(todo)
    r = random.Random(ctx.seed)
    few = [c for c in todo if sum(v != "unset" for d in (c["cfg"], c["env"]) for v in d.values()) <= 2]
    rest = [c for c in todo if sum(v != "unset" for d in (c["cfg"], c["env"]) for v in d.values()) > 2]
    r.shuffle(rest)
    if not ctx.thorough():
        rest = rest[:9000]
    deep = [conn.random_case(r) for _ in range(ctx.pick(4000, 30000))]
    n, done = 0, 0
    for lst in (few, deep, rest):
        for k in range(0, len(lst), 12000):
            if ctx.left() < 100:
                ctx.notes["connection_cases_not_run"] = ctx.notes.get("connection_cases_not_run", 0) + len(lst) - k
                break
            part = lst[k:k + 12000]
            recs = pool(_given, [(n + i + 1, c, ctx.scratch, ctx.seed) for i, c in enumerate(part)])
            n += len(part)
            if not ctx.samples:
                ctx.samples += [given_shape(x) for x in recs[:2]]
            nothing = [x for x in recs if x["seen"]["dialect"] == "?" and not x["seen"]["refused"]]
            if nothing:
                ctx.errors.append(f"no connection was made in {len(nothing)} cases")
            judge(ctx, recs, "ConnTrace", None, "connection settings", given_shape)


def sessions(ctx):
    global PLACES
    servers = engines.Servers(want_pg=1, want_mysql=1)
    try:
        PLACES = conn.places(servers, ctx.scratch)
        recs = [_live((k, d, ctx.seed)) for k, d in enumerate(["sqlite", "postgres", "mysql"] * ctx.pick(60, 800), 1) if ctx.left() > 60]
    finally:
        servers.close()
    if any(x["ok"] and not x["seen"] for x in recs):
        ctx.errors.append("a run used no session")
    ctx.samples += [live_shape(x) for x in recs[:2]]
    judge(ctx, recs, "ConnTrace", None, "sessions", live_shape)


# ------------------------------------------------------------------- C25
def command_shape(r):
    c = r["case"]
    return {"command": c["cmd"], "files": [{".".join(a["p"]): a["v"] for a in f} for f in c["layers"]], "faults": c["faults"],
            "flags": [f for f in ("truncate", "create") if c[f]], "seen": {k: v for k, v in r["seen"].items() if v not in ([], "", False, "none")}}


def commands(ctx):
    todo = cases(model(ctx, "CliMC", "CliMC.deep.cfg" if ctx.thorough() else "CliMC.cfg", timeout=400))
    ctx.notes["commands_enumerated"] = len(todo)
    r = random.Random(ctx.seed)
    few = [c for c in todo if len(c["layers"]) == 1]
    rest = [c for c in todo if len(c["layers"]) > 1]
    r.shuffle(rest)
    if not ctx.thorough():
        rest = rest[:6000]
    real = [(c, True) for c in r.sample(todo, ctx.pick(48, 400))]
    lst = [(c, False) for c in few] + real + [(c, False) for c in rest]
    n = 0
    for k in range(0, len(lst), 8000):
        if ctx.left() < 100:
            ctx.notes["commands_not_run"] = len(lst) - k
            break
        part = lst[k:k + 8000]
        recs = pool(command.record, [(n + i + 1, c, ctx.scratch, ctx.seed, p) for i, (c, p) in enumerate(part)])
        n += len(part)
        if k == 0:
            ctx.samples += [command_shape(x) for x in r.sample(recs, 3)]
            ctx.notes["as_processes"] = sum(x["process"] for x in recs)
            ctx.notes["ended_with_zero"] = sum(x["seen"]["ok"] for x in recs)
        judge(ctx, recs, "CliTrace", None, "commands", command_shape)


# --------------------------------------------- cases of models, run as scenarios
def graphs(ctx):
    """abstract schemas; in an order of their own for each seed"""
    out = model(ctx, "OrderMC", "OrderMC.cfg")
    if ctx.thorough():
        out += model(ctx, "OrderMC", "OrderMC.loops.cfg") + model(ctx, "OrderMC", "OrderMC.four.cfg")
    todo = sorted(cases(out), key=json.dumps)
    random.Random(ctx.seed).shuffle(todo)
    families.CASES["graphs"] = todo
    ctx.notes["schemas_enumerated"] = len(todo)


def dests(ctx):
    """destinations and what is asked for there"""
    out = model(ctx, "RunMC", "RunMC.cfg")
    if ctx.thorough():
        out += model(ctx, "RunMC", "RunMC.deep.cfg")
    todo = sorted(cases(out), key=json.dumps)
    random.Random(ctx.seed).shuffle(todo)
    families.CASES["dests"] = todo
    ctx.notes["destinations_enumerated"] = len(todo)


def keys(ctx):
    """arrangements of keys"""
    todo = sorted(cases(model(ctx, "KeysMC", "KeysMC.deep.cfg" if ctx.thorough() else "KeysMC.cfg", timeout=300)), key=json.dumps)
    random.Random(ctx.seed).shuffle(todo)
    families.CASES["keys"] = todo
    ctx.notes["arrangements_of_keys_enumerated"] = len(todo)


def moves(ctx):
    """changes of the source while it is read"""
    todo = [json.loads(c) for c in sorted({json.dumps(c, sort_keys=True) for c in cases(model(ctx, "Moving", "Moving.cfg", timeout=300))})]
    random.Random(ctx.seed).shuffle(todo)
    families.CASES["moves"] = [c for c in todo if not c["snap"]]
    families.CASES["moments"] = [c for c in todo if c["snap"]]
    ctx.notes["changes_enumerated"] = len(todo)


WRONG = ["only sampled tables emptied", "emptied in any order", "written in any order", "refused late"]


def told_apart(ctx, module, cfg, wrong):
    """its invariants tell the right design from wrong ones"""
    told = sum(tlc.violates(module, cfg, ctx.scratch, [('Design = "right"', f'Design = "{d}"'), (drop, "")]) for d, drop in wrong)
    ctx.notes["wrong_designs_told_apart"] = told
    if told < len(wrong):
        ctx.errors.append(f"{module} tells only {told} of {len(wrong)} wrong designs")


def wrong_readings(ctx):
    told_apart(ctx, "Moving", "Moving.cfg", [(d, " MEmit") for d in ("drawn again", "seen as it is")])


KEYS = ["Shift", "AddOff", "MultClose", "NewKeys", "CompRefs"]


def wrong_keys(ctx):
    told = sum(tlc.violates("KeysMC", "KeysMC.cfg", ctx.scratch, [("Deep = FALSE", f"Deep = FALSE\n  {k} <- W{k}"), (" Emit", "")]) for k in KEYS)
    ctx.notes["wrong_designs_told_apart"] = told
    if told < len(KEYS):
        ctx.errors.append(f"KeysMC tells only {told} of {len(KEYS)} wrong designs")


def wrong_designs(ctx):
    told_apart(ctx, "RunMC", "RunMC.cfg", [(d, " Emit") for d in WRONG])


def sampling_machine(ctx):
    model(ctx, "SampleMC", "SampleMC.deep.cfg" if ctx.thorough() else "SampleMC.cfg", timeout=400)


PREPARE = {"graphs": graphs, "dests": dests, "keys": keys, "moves": moves, "moments": moves}
PREPARED = {}
CHECKS = {"C05": [wrong_readings], "C23": [wrong_readings], "C01": [sampling_machine], "C13": [wrong_designs], "C11": [wrong_keys], "C18": [wrong_designs], "C07": [simplification], "C24": [connections, sessions], "C25": [commands]}


def replay(ctx, payload):
    r = payload["record"]
    if payload["kind"] == "PlanTrace" and r["kind"] == "simp":
        cd = Codec()
        for s in r["S"]["strs"]:
            cd.text("".join(map(chr, s)))
        again = lang.simp_record(1, r["S"], r["X"], r["doc"], cd)
        judge(ctx, [again], "PlanTrace", None, "replayed query", simp_shape)
    elif payload["kind"] == "ConnTrace" and r["kind"] == "given":
        recs = [_given((i, r["case"], ctx.scratch, i)) for i in range(1, 9)]
        judge(ctx, recs, "ConnTrace", None, "replayed settings", given_shape)
    elif payload["kind"] == "CliTrace":
        judge(ctx, [command.record((r["id"], r["case"], ctx.scratch, ctx.seed, r["process"]))], "CliTrace", None, "replayed command", command_shape)
    elif payload["kind"] == "ConnTrace":
        global PLACES
        servers = engines.Servers(want_pg=1, want_mysql=1)
        try:
            PLACES = conn.places(servers, ctx.scratch)
            judge(ctx, [_live((r["id"], r["dialect"], ctx.seed))], "ConnTrace", None, "replayed session", live_shape)
        finally:
            servers.close()
    else:
        raise NotImplementedError(payload["kind"])


def probe(ctx, finding):
    try:
        findings.probe(ctx, finding)
    except Exception as exc:                               # noqa: BLE001  (it fails in another way: for the checks to judge)
        ctx.notes.setdefault("probes_failed", []).append(f"{finding['id']}: {exc!r}"[:300])
