"""Commands of spec/CliMC.tla realised against the command line (C25)."""
import json
import os
import random
import shutil
import sqlite3
import subprocess
import sys

import yaml

import cli

HERE = os.path.dirname(os.path.abspath(__file__))
SETS = {"S1": [1, 2, 11], "S2": [3, 12, 13]}
ROWS = {"A": ([1, 2, 3], [4, 5]), "B": ([11, 12, 13], [14])}
DIRS, DBS = ("d1", "d2", "output"), ("D1", "D2")
VALUES = {("dialect",): "sqlite", "yes": True, "no": False, "five": 5, "nine": 9, "bad": "not a number", "null": None, "empty": {}, "one": 1,
          "all": ["main.*"]}
VALUES.update(SETS)
FILTERS = {"mark": [{"op": "plugin", "module": "plugins", "class": "Mark", "columns": ["v"]}],
           "boom": [{"op": "plugin", "module": "plugins", "class": "Boom", "columns": ["v"]}]}


def value(path, symbol):
    if path[-1] == "database":
        return symbol + ".db"
    if path[:2] == ["sampler", "filters"] and symbol in FILTERS:
        return FILTERS[symbol]
    return VALUES.get(symbol, symbol)


def layer_doc(assignments):
    doc = {}
    for a in assignments:
        d = doc
        for k in a["p"][:-1]:
            d = d.setdefault(k, {})
        d[a["p"][-1]] = value(a["p"], a["v"])
    return doc


def make_db(path, tables, rows=((), ()), strings=True):
    c = sqlite3.connect(path)
    if tables:
        c.execute("CREATE TABLE t (id INTEGER PRIMARY KEY, v TEXT)")
        c.execute("CREATE TABLE u (id INTEGER PRIMARY KEY, v TEXT)")
        c.executemany("INSERT INTO t VALUES (?, ?)", [(i, str(i)) for i in rows[0]])
        c.executemany("INSERT INTO u VALUES (?, ?)", [(i, str(i)) for i in rows[1]])
    else:
        c.execute("CREATE TABLE w (id INTEGER PRIMARY KEY)")
    c.commit()
    c.close()


def dump_db(path):
    if not os.path.isfile(path):
        return None
    c = sqlite3.connect(path)
    try:
        return sorted(c.iterdump())
    finally:
        c.close()


def dump_dir(path):
    if not os.path.isdir(path):
        return None if not os.path.exists(path) else open(path, "rb").read()
    return {f: open(os.path.join(path, f), "rb").read() for f in sorted(os.listdir(path))}


def lines(path):
    try:
        with open(path, encoding="utf-8") as f:
            return [json.loads(x) for x in f if x.strip()]
    except (OSError, ValueError):                          # (nothing that could be read)
        return []


def read_place(d, place):
    if place in DIRS:
        return [[(r.get("id"), r.get("v")) for r in lines(os.path.join(d, place, f"main.{t}.json"))] for t in "tu"]
    c = sqlite3.connect(os.path.join(d, place + ".db"))
    try:
        return [c.execute(f"SELECT id, v FROM {t}").fetchall() for t in "tu"]
    except sqlite3.Error:
        return [[], []]
    finally:
        c.close()


def number(x):
    try:
        return int(x)
    except (TypeError, ValueError):
        return -1


def start_process(argv, cwd, stdin):
    env = {k: v for k, v in os.environ.items() if not k.startswith("SUBSET_")}
    repo = os.environ.get("SUBSETTER_REPO", "/repo")
    env["PYTHONPATH"] = repo + os.pathsep + HERE
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    r = subprocess.run([sys.executable, "-m", "subsetter"] + argv, cwd=cwd, input=stdin or "", env=env, capture_output=True, text=True, timeout=120)
    return r.returncode, r.stdout, r.stderr


def observe(case, d, r, process=False):
    faults = set(case["faults"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for name, rows in ROWS.items():
        make_db(os.path.join(d, name + ".db"), "source-without-table" not in faults, rows)
    in_the_way = "destination-in-the-way" in faults
    for name in DBS:
        if in_the_way:
            os.mkdir(os.path.join(d, name + ".db"))
        else:
            clash = list(range(1, 21)) if "destination-clash" in faults else []
            make_db(os.path.join(d, name + ".db"), "destination-without-table" not in faults, (clash, clash))
    if in_the_way:
        for name in DIRS:
            open(os.path.join(d, name), "w").close()
    elif r.random() < .3:
        for name in DIRS:
            os.mkdir(os.path.join(d, name))

    texts = [yaml.dump(layer_doc(x), default_flow_style=r.choice([False, None]), sort_keys=r.random() < .5) for x in case["layers"]]
    k = r.randrange(len(texts))
    broken = {"config-broken": "a: [1, 2\nb: }", "config-list": "- source\n- planner\n"}
    for f in faults & set(broken):
        texts[k] = broken[f]
    if "config-comment" in faults:
        texts.insert(r.randint(0, len(texts)), r.choice(["# nothing here\n", "", "---\n# nothing\n"]))
    argv, stdin = [], None
    names = ["subsetter.yaml"] if "default-names" in faults else [f"c{n}.yaml" for n in range(len(texts))]
    conf = []
    for n, (name, text) in enumerate(zip(names, texts)):
        if "config-stdin" in faults and n == k:
            stdin, name = text, "-"
        elif "config-directory" in faults and n == k:
            os.mkdir(os.path.join(d, name))
        elif not ("config-missing" in faults and n == k):
            with open(os.path.join(d, name), "w", encoding="utf-8") as f:
                f.write(text)
        conf += [r.choice(["-c", "--config"]), name]
    argv += ["-" + "v" * r.randint(1, 2)] if r.random() < .1 else []
    if "default-names" not in faults:
        argv += conf
    if "unknown-option" in faults:
        argv.append("--no-such-option")
    if "unknown-command" in faults:
        argv.append("destroy")
    elif "no-command" not in faults:
        argv.append(case["cmd"])
        if case["cmd"] == "sample":
            plan = yaml.dump(plan_doc(case["planset"]))
            plan = {"plan-broken": "queries: [", "plan-empty": ""}.get(next(iter(faults & {"plan-broken", "plan-empty"}), None), plan)
            name = "plan.yaml" if "default-names" in faults else "p.yaml"
            if "plan-stdin" in faults:
                stdin, name = plan, "-"
            elif "plan-directory" in faults:
                os.mkdir(os.path.join(d, name))
            elif "plan-missing" not in faults:
                with open(os.path.join(d, name), "w", encoding="utf-8") as f:
                    f.write(plan)
            if "default-names" not in faults:
                argv += [r.choice(["-p", "--plan"]), name]
        to_file = "output-unwritable" in faults or r.random() < .5
        if case["cmd"] == "plan" and to_file:
            argv += [r.choice(["-o", "--output"]), "nowhere/out.yaml" if "output-unwritable" in faults else "out.yaml"]
        if case["truncate"]:
            argv.append("--truncate")
        if case["create"]:
            argv.append("--create")

    def state():
        return {**{n: dump_dir(os.path.join(d, n)) for n in DIRS}, **{n: dump_db(os.path.join(d, n + ".db")) for n in DBS}}

    def sources():
        return [dump_db(os.path.join(d, n + ".db")) for n in ROWS]
    before, src = state(), sources()
    code, out, err = (start_process if process else cli.run)(argv, d, stdin)
    after = state()
    seen = {"ok": code == 0, "changed": sources() != src, "written": sorted(n for n in before if before[n] != after[n]),
            "t": [], "v": [], "u": [], "marked": False, "plan": "none", "why": err[-300:], "argv": argv}
    if code == 0 and case["cmd"] == "plan":
        try:
            text = open(os.path.join(d, "out.yaml"), encoding="utf-8").read() if to_file else out
        except (OSError, ValueError):
            text = ""
        seen["plan"] = meaning(d, text, r) if text else "no plan was written"
    elif code == 0 and len(seen["written"]) == 1:
        t, u = read_place(d, seen["written"][0])
        seen["t"], seen["u"] = [number(x) for x, _ in t], [number(x) for x, _ in u]
        marks = [isinstance(v, str) and v.startswith("m") for _, v in t]
        seen["marked"] = bool(marks) and all(marks)
        seen["v"] = [number(v[1:] if seen["marked"] else v) for _, v in t]
    return seen


def plan_doc(name):
    t = {"schema": "main", "table": "t"}
    return {"queries": {"main.t": {"statement": {"type": "select", "from": t, "where": {"type": "in", "columns": ["id"], "values": [[x] for x in SETS[name]]}}},
                        "main.u": {"statement": {"type": "select", "from": {"schema": "main", "table": "u"}}}}}


def meaning(d, text, r):
    """which of the two selections a plan stands for: it is carried out on both sources"""
    with open(os.path.join(d, "again.yaml"), "w", encoding="utf-8") as f:
        f.write(text)
    got = []
    for name in ROWS:
        with open(os.path.join(d, "again-config.yaml"), "w", encoding="utf-8") as f:
            yaml.dump({"source": {"dialect": "sqlite", "database": name + ".db"},
                       "sampler": {"output": {"mode": "directory", "directory": "again-" + name}}}, f)
        code, _, err = cli.run(["-c", "again-config.yaml", "sample", "-p", "again.yaml"], d)
        if code:
            return "not a plan: " + err[-100:]
        t, u = ([x.get("id") for x in lines(os.path.join(d, "again-" + name, f"main.{t}.json"))] for t in "tu")
        if sorted(map(str, u)) != sorted(map(str, ROWS[name][1])):
            return "other rows of u"
        got += t
    for s, ids in [*SETS.items(), ("every", [1, 2, 3, 11, 12, 13])]:
        if sorted(got, key=str) == sorted(ids, key=str):
            return s
    return "other rows of t"


def record(arg):
    i, case, root, seed, process = arg
    r = random.Random(f"{seed}:{i}")
    d = os.path.join(root, f"cli{os.getpid()}")
    return {"id": i, "kind": "cli", "case": case, "seen": observe(case, d, r, process), "process": process}
