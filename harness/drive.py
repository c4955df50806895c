"""Runs one scenario through the public API of the code under test and records
what happened, as the JSON record the trace specification reads."""
import ast
import copy
import decimal
import datetime
import json
import logging
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import warnings
import weakref

from world import Codec, Db, chars, coltype, colnames, split, literal, quote, INTS, NULL

sys.path.insert(0, os.environ.get("SUBSETTER_REPO", "/repo"))
import sqlalchemy as sa  # noqa: E402

warnings.filterwarnings("ignore")
logging.getLogger("subsetter").setLevel(logging.CRITICAL + 1)
logging.disable(logging.CRITICAL)

from subsetter.common import DatabaseConfig  # noqa: E402
from subsetter.config_model import (  # noqa: E402
    DatabaseOutputConfig, DirectoryOutputConfig, PlannerConfig, SamplerConfig)
from subsetter.plan_model import SubsetPlan  # noqa: E402
from subsetter.planner import Planner  # noqa: E402
from subsetter.sampler import Sampler  # noqa: E402


class Cut(BaseException):
    """the fault injected by the harness"""


class Timeout(BaseException):
    pass


ODDTYPES = {"time", "stamp", "span", "array", "tarray", "inet", "bits", "range", "plain", "set", "small", "tiny", "double", "vbin"}


def odd(ty, v):
    """a value of one of the further types, as a driver or a JSON file gives it"""
    if ty == "time":
        if isinstance(v, datetime.timedelta):
            v = (datetime.datetime.min + v).time()
        elif isinstance(v, str):
            v = datetime.time.fromisoformat(v)
        return "time " + v.isoformat("microseconds")
    if ty == "stamp":
        if isinstance(v, str):
            v = datetime.datetime.fromisoformat(v)
        if v.tzinfo is not None:
            v = v.astimezone(datetime.timezone.utc).replace(tzinfo=None)
        return v
    if ty == "set":
        return ",".join(sorted(ast.literal_eval(v) if v.startswith("{") else v.split(",")))
    if ty == "bits":
        return int.from_bytes(v, "big") if isinstance(v, bytes) else int(v, 2) if isinstance(v, str) and len(v) == 8 else int(v)
    if ty == "plain":
        return decimal.Decimal(str(v)).quantize(decimal.Decimal("0.0001"))
    if ty == "double":
        return float(v)
    if ty == "vbin":
        return ast.literal_eval(v) if isinstance(v, str) else v
    if ty in ("small", "tiny"):
        return v
    if ty == "range":
        return str(v).replace(" ", "")
    return ty + " " + (json.dumps(v) if isinstance(v, list) else str(v))


def canonical(ty, v):
    """raw driver value of a column of this type -> engine independent value"""
    if v is None:
        return None
    if isinstance(v, memoryview):
        v = bytes(v)
    try:
        if ty == "bool" and isinstance(v, int):
            return int(v)
        if ty == "dt" and isinstance(v, str):
            return datetime.datetime.strptime(v, "%Y-%m-%d %H:%M:%S.%f")
        if ty == "date" and isinstance(v, str):
            return datetime.date.fromisoformat(v)
        if ty == "num" and isinstance(v, (int, float, decimal.Decimal)):
            return decimal.Decimal(str(v)).quantize(decimal.Decimal("0.0001"))
        if ty == "json" and isinstance(v, (str, bytes)):
            v = json.loads(v)
            return {"json": v}
        if ty == "json":
            return {"json": v}
        if ty == "float" and isinstance(v, int) and not isinstance(v, bool):
            return float(v)
        if ty in ODDTYPES:
            return odd(ty, v)
    except (ValueError, SyntaxError, decimal.InvalidOperation):
        return "unreadable:" + repr(v)
    return v


def read_rows(db, t, cols, types):
    return [[canonical(ty, v) for ty, v in zip(types, r)] for r in db.rows(t, cols)]


def cond_sql(dialect, conds):
    """conditions that must all hold, or alternatives of such"""
    if conds and isinstance(conds[0], list):
        return " OR ".join(cond_sql(dialect, c) for c in conds)
    return " AND ".join(f"{quote(dialect, c['col'])} {c['op'].upper()} {literal(dialect, c['val'])}" for c in conds)


def planner_doc(sc):
    p = copy.deepcopy(sc["planner"])
    for t, g in p["targets"].items():
        if isinstance(g.get("sql"), list):
            g["sql"] = cond_sql(sc["dialect"], g["sql"])
    return p


def db_doc(db, **kw):
    if db.dialect == "sqlite":
        d = {"dialect": "sqlite", "database": db.files()["main"], "sqlite_databases": db.attached(), "session_sqls": ["PRAGMA synchronous=OFF"]}
    elif db.dialect == "postgres":
        d = {"dialect": "postgres", "host": "127.0.0.1", "port": db.place[0].port, "database": db.place[1],
             "username": "postgres", "password": "x"}
    else:
        d = {"dialect": "mysql", "host": "127.0.0.1", "port": db.place.port, "username": "sub" + db.sfx[1:], "password": ""}
    d.update(kw)
    return d


def rule_doc(r):
    k, a, b = r["kind"], r["a"], r["b"]
    if k == "all":
        return {"search": re.escape(a), "replace": b.replace("\\", "\\\\")}
    if k == "prefix":
        return {"search": "^" + re.escape(a), "replace": b.replace("\\", "\\\\")}
    if k == "suffix":
        return {"search": re.escape(a) + "$", "replace": b.replace("\\", "\\\\")}
    if k == "schemasuffix":
        return {"search": "^(\\w+)\\.", "replace": "\\g<1>" + b + "."}
    raise AssertionError(k)


def remap_name(rules, t):
    for r in rules:
        d = rule_doc(r)
        t = re.sub(d["search"], d["replace"], t)
    return t


def sampler_doc(run, output):
    d = {"output": output}
    if run.get("infer"):
        d["infer_foreign_keys"] = run["infer"]
    m = run.get("mult")
    if m:
        d["multiplicity"] = {"multiplier": m["m"], "ignore_tables": m.get("ignore", []),
                             "extra_columns": m.get("extra", {}), "ignore_primary_key_columns": m.get("ignpk", {})}
    c = run.get("compact")
    if c:
        d["compact"] = {"primary_keys": c.get("pk", False), "auto_increment_keys": c.get("auto", False),
                        "columns": c.get("cols", {}), "start_key": c.get("start", 1)}
    if run.get("filters"):
        d["filters"] = run["filters"]
    return d


def output_doc(run, dst, outdir):
    if run.get("kind", "db") == "dir":
        return {"mode": "directory", "directory": outdir}
    kw = {"mode": "database"}
    if run.get("remap"):
        kw["remap"] = [rule_doc(r) for r in run["remap"]]
    if run.get("conflict"):
        kw["conflict_strategy"] = run["conflict"]
    if run.get("merge"):
        kw["merge"] = True
    d = db_doc(dst, **kw)
    if run.get("fkon") and dst.dialect == "sqlite":
        d["session_sqls"] = d["session_sqls"] + ["PRAGMA foreign_keys=ON"]
    return d


# ------------------------------------------------------------ observation
class Watch:
    """Global listeners on SQLAlchemy engines: counts and optionally cuts
    statements, and lets the harness look at (or change) the databases at
    every statement boundary."""

    def __init__(self, on_event=None, cut_at=None, kill=False):
        self.on_event = on_event
        self.cut_at = cut_at
        self.kill = kill
        self.n = 0
        self.busy = False
        self.log = []
        self.hooks = [("before_cursor_execute", self._before), ("after_cursor_execute", self._after),
                      ("commit", self._commit), ("checkin", self._checkin)]

    def _step(self, what, stmt=""):
        self.n += 1
        if self.cut_at is not None and self.n == self.cut_at:
            if self.kill:
                os._exit(77)
            raise Cut()

    def _poll(self, what, stmt=""):
        if self.on_event and not self.busy:
            self.busy = True
            try:
                self.on_event(what, stmt)
            finally:
                self.busy = False

    def _before(self, conn, cursor, statement, parameters, context, executemany):
        self.log.append((self.n + 1, conn))
        self._poll("before", statement)
        self._step("before", statement)

    def _after(self, conn, cursor, statement, parameters, context, executemany):
        self._poll("after", statement)

    def _commit(self, conn):
        self._poll("commit")
        self._step("commit")

    def _checkin(self, dbapi_conn, record):
        self._poll("checkin")

    def reading(self):
        """the step at which the last connection to the database used first was used first"""
        mine = [(n, c) for n, c in self.log if c.engine.url == self.log[0][1].engine.url]
        return min(n for n, c in mine if c is mine[-1][1]) if mine else 1

    def __enter__(self):
        for name, fn in self.hooks:
            sa.event.listen(sa.pool.Pool if name == "checkin" else sa.engine.Engine, name, fn)
        return self

    def __exit__(self, *a):
        for name, fn in self.hooks:
            sa.event.remove(sa.pool.Pool if name == "checkin" else sa.engine.Engine, name, fn)


ENGINES = weakref.WeakSet()                               # engines the code under test connected with


@sa.event.listens_for(sa.engine.Engine, "engine_connect")
def _remember(conn):
    ENGINES.add(conn.engine)


def release():
    """close what the code under test left open"""
    for e in list(ENGINES):
        try:
            e.dispose()
        except Exception:                                  # noqa: BLE001
            pass
    ENGINES.clear()


class alarm:
    def __init__(self, secs):
        self.secs = secs

    def _fire(self, *a):
        raise Timeout()

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


HUNG = []


def outcome(fn, secs=40):
    try:
        with alarm(10 if HUNG else secs):                 # (once it hung, it is likely to hang again)
            return True, "", fn()
    except Cut:
        return False, "Cut", None
    except Timeout:
        HUNG.append(1)
        return False, "Timeout", None
    except KeyboardInterrupt:
        raise
    except SystemExit as exc:
        return False, f"SystemExit:{exc.code}", None
    except Exception as exc:                              # noqa: BLE001
        return False, f"{type(exc).__name__}: {exc}"[:600], None


def in_child(fn, watch):
    """run fn in a forked process, which the watch may kill"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            with watch:
                ok, err, _ = outcome(fn)
            code = 0 if ok else 3
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return status == 0, f"status {status}"


def through_document(plan):
    import yaml
    text = yaml.dump(plan.model_dump(exclude_unset=True, by_alias=True), default_flow_style=False, width=2**20, sort_keys=True)
    return SubsetPlan.model_validate(yaml.safe_load(text))


# ---------------------------------------------------- plan -> projection
def joins_of(stmt):
    """the joined select of a statement, if any"""
    parts = stmt["statements"] if stmt.get("type") == "union" else [stmt]
    joined = [p for p in parts if p.get("joins")]
    return parts, joined


def project_plan(plan):
    doc = plan.model_dump(by_alias=True)
    out = {}
    for t, q in doc["queries"].items():
        st = q["statement"]
        parts, joined = joins_of(st)
        js, outer = [], False
        for p in joined:
            outer = bool(p["joins_outer"])
            for j in p["joins"]:
                js.append({"dst": j["right"]["schema"] + "." + j["right"]["table"],
                           "lcols": list(j["left_columns"]), "rcols": list(j["right_columns"])})
        out[t] = {"joins": js, "outer": outer, "many": len(joined) > 1}
    return {"queries": out, "passthrough": list(doc.get("passthrough", []))}


def cycle_names(err, tables):
    """the tables named in an error message, in order"""
    if not tables:
        return []
    pat = "|".join(sorted((re.escape(t) for t in tables), key=len, reverse=True))
    return re.findall(pat, err)


# ------------------------------------------------------------- to TLA+
def tla_table(t, spec, dialect):
    names = colnames(spec)
    intcols = [c["name"] for c in spec["cols"] if c["type"] in INTS]
    fkcols = {c for f in spec["fks"] for c in f["cols"]}
    auto = bool(spec["pk"]) and len(spec["pk"]) == 1 and coltype(spec, spec["pk"][0]) in INTS and (
        spec.get("serial") == spec["pk"][0] if dialect != "sqlite" else spec["pk"][0] not in fkcols)
    return {"schema": split(t)[0], "chars": chars(t), "cols": names, "isint": intcols, "pk": list(spec["pk"]),
            "uniq": [list(u) for u in spec["uniq"]],
            "fks": [{"cols": list(f["cols"]), "dst": f["dst"], "dcols": list(f["dcols"])} for f in spec["fks"]],
            "auto": auto, "null": [bool(c.get("null", True)) for c in spec["cols"]],
            "computed": [c["name"] for c in spec["cols"] if c.get("computed")],
            "tag": spec.get("tag") or ""}


def typed(spec, col, v):
    """the value of a condition as a value of the column"""
    ty = next((c["type"] for c in spec["cols"] if c["name"] == col), None) if spec else None
    if ty == "num" and isinstance(v, (int, float)) or ty in ("date", "dt") and isinstance(v, str) or ty == "float" and isinstance(v, int):
        return canonical(ty, v)
    return v


def alternatives(sql):
    return (sql if isinstance(sql[0], list) else [sql]) if sql else []


def tla_planner(sc, cd):
    p = sc["planner"]
    tg = {}
    for t, g in p["targets"].items():
        spec = sc["tables"].get(t)
        tg[t] = {"all": bool(g.get("all")), "percent": -1 if g.get("percent") is None else int(g["percent"]),
                 "amount": -1 if g.get("amount") is None else g["amount"],
                 "in": [{"col": c, "vals": [cd.enc(typed(spec, c, v)) for v in vs]} for c, vs in g.get("in", {}).items()],
                 "like": [{"col": c, "pats": [chars(x) for x in ps]} for c, ps in g.get("like", {}).items()],
                 "sql": [[{"col": c["col"], "op": c["op"], "val": cd.enc(typed(spec, c["col"], c["val"]))} for c in alt] for alt in alternatives(g.get("sql"))]}
    return {"select": [chars(x) for x in p["select"]], "passthrough": list(p.get("passthrough", [])),
            "ignore": list(p.get("ignore", [])),
            "ignorefks": [{"src": f["src_table"], "dst": f["dst_table"]} for f in p.get("ignore_fks", [])],
            "extra": [{"src": f["src_table"], "cols": f["src_columns"], "dst": f["dst_table"], "dcols": f["dst_columns"]}
                      for f in p.get("extra_fks", [])],
            "infer": p.get("infer_foreign_keys", "none"), "incdep": p.get("include_dependencies", True),
            "targets": tg,
            "constraints": {t: [{"col": c["column"], "op": c["operator"], "val": cd.enc(typed(sc["tables"].get(t), c["column"], c["value"]))} for c in cs]
                            for t, cs in p.get("table_constraints", {}).items()}}


EPOCH = datetime.datetime(1970, 1, 1)
UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ALPHABETS = {"hex": "0123456789abcdef", "hex_lower": "0123456789abcdef", "hex_upper": "0123456789ABCDEF",
             "digit": "0123456789", "alpha": UP.lower() + UP, "alpha_lower": UP.lower(), "alpha_upper": UP,
             "alnum": UP.lower() + UP + "0123456789"}


def domain(f, leaks):
    """the values a random filter may produce: see InDomain in spec/Transform.tla"""
    op = f["op"]
    d = {"kind": "other", "lo": 0, "hi": 0, "chars": sorted(leaks)}
    if op == "random_int":
        d = {"kind": "int", "lo": f["low"], "hi": f["high"], "chars": []}
    elif op == "random_float":
        d = {"kind": "float", "lo": int(f["low"] * 1000), "hi": int(f["high"] * 1000), "chars": []}      # (thousandths)
    elif op == "random_string":
        al = f.get("alphabet", "alnum")
        d = {"kind": "str", "lo": f["length"], "hi": 0,
             "chars": chars(f["custom_alphabet"] if al == "custom" else ALPHABETS[al])}
    elif op == "uuid":
        d = {"kind": "uuid", "lo": 0, "hi": 0, "chars": []}
    elif op == "fake_email":
        d = {"kind": "has", "lo": 0, "hi": 0, "chars": [64]}
    elif op in ("fake_phone_number", "fake_building_number"):
        d = {"kind": "has", "lo": 0, "hi": 0, "chars": chars("0123456789")}
    elif op == "fake_vin":
        d = {"kind": "str", "lo": 17, "hi": 0, "chars": chars(UP + "0123456789")}
    elif op in ("fake_state_abbr", "fake_country_code"):
        d = {"kind": "str", "lo": 2, "hi": 0, "chars": chars(UP)}
    elif op == "fake_postal_code":
        d = {"kind": "str", "lo": 5, "hi": 0, "chars": chars("0123456789")}
    return d


PLAIN = {"zero", "null", "omit", "constant", "multiplex", "plugin"}


def tla_filter(f, cd, doms, leak):
    """leak(cols): codes of the source values of these columns"""
    op = f["op"]
    r = {"op": op, "cols": list(f.get("columns", [])), "vals": [], "dom": 0, "col": "", "conds": []}
    if op == "constant":
        r["vals"] = [cd.enc(v) for v in f["values"]]
    elif op == "multiplex":
        r["col"] = f["column"]
        r["conds"] = [{"op": c["op"], "vals": [cd.enc(v) for v in (c["value"] if isinstance(c["value"], list) else [c["value"]])],
                       "pat": chars(c["value"]) if isinstance(c["value"], str) else [],
                       "apply": tla_filter(c["apply"], cd, doms, leak)} for c in f["conditions"]]
    elif op == "plugin":
        r["vals"] = [{"Swap": 1, "Add": 3}[f["class"]], f.get("kwargs", {}).get("n", 1)]
    elif op not in PLAIN:
        doms.append(domain(f, leak(r["cols"])))
        r["dom"] = len(doms)
    return r


def leaks(S, t, cols):
    if t not in S["T"]:
        return set()
    ix = [k for k, c in enumerate(S["T"][t]["cols"]) if c in cols]
    return {r[k] for r in S["src"][t] for k in ix} - {NULL}


def tla_run(run, cd, S):
    doms = []
    m = run.get("mult") or {}
    c = run.get("compact") or {}
    return {"create": bool(run.get("create")), "truncate": bool(run.get("truncate")), "kind": run.get("kind", "db"),
            "merge": bool(run.get("merge")), "conflict": run.get("conflict") or "error",
            "remap": [{"kind": r["kind"], "a": chars(r["a"]), "b": chars(r["b"])} for r in run.get("remap") or []],
            "infer": run.get("infer") or "none",
            "mult": {"m": m.get("m", 1), "ignore": m.get("ignore", []), "extra": m.get("extra", {}), "ignpk": m.get("ignpk", {})},
            "compact": {"pk": bool(c.get("pk")), "auto": bool(c.get("auto")), "cols": c.get("cols", {}), "start": c.get("start", 1)},
            "filters": {t: [tla_filter(f, cd, doms, lambda cs, t=t: leaks(S, t, cs)) for f in fs]
                        for t, fs in (run.get("filters") or {}).items()}, "doms": doms,
            "hasconf": bool(run.get("conflict")), "cut": bool(run.get("cut")), "fresh": bool(run.get("fresh")),
            "same": run.get("same", 0), "badconfig": bool(run.get("badconfig"))}


# ---------------------------------------------------------------- engine
class Place:
    """where one worker keeps its databases"""

    def __init__(self, root, index, servers=None):
        self.root = os.path.join(root, f"w{index}")
        os.makedirs(self.root, exist_ok=True)
        self.index = index
        self.servers = servers
        self.sfx = f"w{index}"
        self.dbs = {}

    def db(self, dialect, role, schemas):
        key = (dialect, role)
        if dialect == "sqlite":
            d = Db("sqlite", schemas, os.path.join(self.root, role))
            old = self.dbs.pop(key, None)
            if old:
                old.close()
            shutil.rmtree(os.path.join(self.root, role), ignore_errors=True)
            self.dbs[key] = d
        elif key not in self.dbs:
            if dialect == "postgres":
                name = ("src" if role == "src" else "dst") + str(self.index)
                self.dbs[key] = Db("postgres", schemas, (self.servers.pg, name))
            else:
                self.dbs[key] = Db("mysql", schemas, self.servers.mysql[0 if role == "src" else 1])
                self.dbs[key].sfx = self.sfx
        d = self.dbs[key]
        d.schemas = list(schemas)
        d.reset()
        return d

    def close(self):
        for d in self.dbs.values():
            d.close()


def snapshot(db, meta, cd):
    """rows of all tables of a database (missing ones left out), coded"""
    out = {}
    for t in db.tables():
        cols = db.columns(t)
        types = meta.get(t, {})
        out[t] = cd.rows(read_rows(db, t, cols, [types.get(c, "?") for c in cols]))
    return out


def describe_all(db, cd, only=None):
    out = {}
    for t in db.tables():
        d = db.describe(t)
        out[t] = {"chars": chars(t), "schema": split(t)[0], "cols": d["cols"], "types": [cd.text("T:" + str(x).upper()) - 0 for x in d["types"]],
                  "null": [bool(x) for x in d["null"]], "pk": list(d["pk"]), "uniq": [list(u) for u in d["uniq"]],
                  "fks": d["fks"], "computed": [c for c, x in zip(d["cols"], d["computed"]) if x],
                  "defs": [], "auto": ""}
    return out


def read_dir(outdir, cd, src_tables):
    """directory output -> tables with columns and coded rows"""
    D, rows = {}, {}
    if not os.path.isdir(outdir):
        return D, rows, []
    junk = []
    for fn in sorted(os.listdir(outdir)):
        if not fn.endswith(".json"):
            junk.append(fn)
            continue
        t = fn[:-5]
        spec = src_tables.get(t)
        recs = []
        cols = None
        bad = False
        with open(os.path.join(outdir, fn), encoding="utf-8") as f:
            for line in f:
                try:
                    rec = json.loads(line)
                    assert isinstance(rec, dict)
                except Exception:                          # noqa: BLE001
                    bad = True
                    continue
                recs.append(rec)
        if recs:
            cols = list(recs[0])
        else:
            cols = colnames(spec) if spec else []
        out = []
        for rec in recs:
            if list(rec) != cols:
                bad = True
            out.append([rec.get(c) for c in cols])
        types = {c["name"]: c["type"] for c in spec["cols"]} if spec else {}

        def conv(c, v):
            ty = types.get(c, "?")
            if v is None:
                return None
            try:
                if ty == "dt" and isinstance(v, str):
                    return datetime.datetime.fromisoformat(v)
                if ty == "date" and isinstance(v, str):
                    return datetime.date.fromisoformat(v)
                if ty == "num":
                    return decimal.Decimal(str(v)).quantize(decimal.Decimal("0.0001"))
                if ty == "blob" and isinstance(v, str):
                    return ast.literal_eval(v)
                if ty == "json":
                    return {"json": v}
                if ty == "bool":
                    return int(v)
                if ty == "float" and isinstance(v, int):
                    return float(v)
                if ty in ODDTYPES:
                    return odd(ty, v)
            except (ValueError, SyntaxError, decimal.InvalidOperation):
                return "unreadable:" + repr(v)
            return v
        D[t] = {"chars": chars(t), "schema": split(t)[0], "cols": cols, "types": [], "null": [], "pk": [], "uniq": [], "fks": [], "computed": [],
                "defs": [], "auto": ""}
        rows[t] = cd.rows([[conv(c, v) for c, v in zip(cols, r)] for r in out])
        if bad:
            rows[t].append([-999999] * len(cols))
    return D, rows, junk


def run_scenario(sc, place):
    """returns the trace record of the scenario"""
    cd = Codec()
    dialect = sc["dialect"]
    tables, rows = sc["tables"], sc["rows"]
    types = {t: {c["name"]: c["type"] for c in s["cols"]} for t, s in tables.items()}
    src = place.db(dialect, "src", sc["schemas"])
    src.build(tables, rows)
    if sc.get("wal"):
        for s in sc["schemas"]:
            src.execute(f"PRAGMA {quote('sqlite', s)}.journal_mode=WAL").fetchall()
    native = {t: read_rows(src, t, colnames(s), [c["type"] for c in s["cols"]]) for t, s in tables.items()}
    cd.text("")
    S = {"id": sc["id"], "dialect": dialect, "T": {t: tla_table(t, s, dialect) for t, s in tables.items()},
         "src": {t: cd.rows(r) for t, r in native.items()}, "P": tla_planner(sc, cd), "omode": sc.get("omode", "obs")}
    src_objs = src.objects()
    S["desc"] = describe_all(src, cd)

    watch_plan = Watch()
    with watch_plan:
        ok, err, plan = outcome(lambda: Planner(DatabaseConfig.model_validate(db_doc(src)),
                                                PlannerConfig.model_validate(planner_doc(sc))).plan())
    release()
    S["plan"] = {"ok": ok, "err": err, "queries": {}, "passthrough": [], "named": cycle_names(err, list(tables)) if not ok else [],
                 "anything": False}
    if ok:
        S["plan"].update(project_plan(plan))
    S["runs"] = []
    dst = None
    outdir = os.path.join(place.root, "out")
    shutil.rmtree(outdir, ignore_errors=True)
    src_now = lambda: {t: cd.rows(read_rows(src, t, colnames(s), [c["type"] for c in s["cols"]])) for t, s in tables.items()}
    for k, run in enumerate(sc["runs"]):
        if not ok:
            break
        R = tla_run(run, cd, S)
        if dst is None or run.get("fresh"):
            dst = place.db(dialect, "dst", sc.get("dschemas") or sc["schemas"])
            if sc.get("dest"):
                dst.build(sc["dest"]["tables"], sc["dest"]["rows"])
            for q in sc.get("destsql") or []:
                dst.execute(q)
            shutil.rmtree(outdir, ignore_errors=True)
        for q in run.get("before", []):                    # changes made between runs
            dst.execute(q)
        for q in run.get("beforeok", []):
            try:
                dst.execute(q)
            except Exception:                              # noqa: BLE001
                pass                                       # (breaks a key or the table is not there)
        dtypes = {}
        for t, spec in (sc.get("dest") or {}).get("tables", {}).items():
            dtypes[t] = {c["name"]: c["type"] for c in spec["cols"]}
        for t in tables:
            dtypes.setdefault(remap_name(run.get("remap") or [], t), types[t])

        if run.get("kind") == "dir":
            snap = lambda: (read_dir(outdir, cd, tables)[1])
            meta = lambda: (read_dir(outdir, cd, tables)[0])
        else:
            snap = lambda: snapshot(dst, dtypes, cd)
            meta = lambda: describe_all(dst, cd)
        R["D0"] = meta()
        for t, d in R["D0"].items():
            spec = (sc.get("dest") or {}).get("tables", {}).get(t)
            if spec:
                d["defs"] = [{"col": c["name"], "val": cd.enc(c["default"])} for c in spec["cols"] if c.get("default") is not None]
                d["auto"] = spec.get("serial") or ""
            elif dialect == "sqlite" and len(d["pk"]) == 1:
                d["auto"] = d["pk"][0]
        R["dst0"] = snap()
        obs = []
        last = R["dst0"]
        versions = []
        cut = run.get("cut")
        if run.get("cutfrac") is not None:
            cut = 1 + int(run["cutfrac"] * S["runs"][run["same"] - 1]["steps"])
        changes = {}
        for c in run.get("srcchange") or []:
            if not S["runs"]:
                n = c["n"]
            elif "back" in c:                              # so many steps before the end
                n = max(1, S["runs"][-1]["steps"] - c["back"])
            elif "read" in c:                              # while the rows are read
                a, b = S["runs"][-1]["reading"], S["runs"][-1]["steps"]
                n = a + int(c["read"] * (b - a + 1))
            else:
                n = 1 + int(c["frac"] * S["runs"][-1]["steps"])
            changes.setdefault(n, []).extend(c["sql"])
        other = None

        def look(what, stmt):
            nonlocal last, other
            if changes and what == "before":
                for q in changes.pop(w.n + 1, []):
                    try:
                        if other is None:
                            other = src.open()
                        cur = other.cursor()
                        try:
                            for x in ["BEGIN", *q, "COMMIT"] if isinstance(q, list) else [q]:
                                cur.execute(x)
                        except Exception:                  # noqa: BLE001
                            if isinstance(q, list):
                                cur.execute("ROLLBACK")
                            raise
                        finally:
                            cur.close()
                        versions.append(src_now())
                    except Exception:                      # noqa: BLE001
                        pass                               # (locked out: no change was made)
            if not run.get("observe"):
                return
            try:
                cur = snap()
            except Exception:                              # noqa: BLE001
                return                                     # (a lock: nothing can be observed now)
            if cur != last:
                obs.append(cur)
                last = cur

        doc = sampler_doc(run, output_doc(run, dst, outdir))
        srckw = {"isolation_level": run["isolation"]} if run.get("isolation") else {}

        def go():
            the_plan = plan
            if run.get("viadoc"):
                the_plan = through_document(plan)
                R["planeq"] = the_plan == plan and project_plan(the_plan) == project_plan(plan)
            Sampler(DatabaseConfig.model_validate(db_doc(src, **srckw)), SamplerConfig.model_validate(doc)).sample(
                the_plan, truncate=bool(run.get("truncate")), create=bool(run.get("create")))

        def go_cli():
            import cli
            code, err, pdoc = cli.plan_and_sample(place, db_doc(src), planner_doc(sc), doc, bool(run.get("truncate")),
                                                  bool(run.get("create")), run["cli"])
            if pdoc is not None:
                R["planeq"] = SubsetPlan.model_validate(pdoc) == plan
            if code != 0:
                raise RuntimeError(f"exit {code}: {err}")

        R["planeq"] = True
        R["cut"] = cut is not None
        w = Watch(on_event=look if run.get("observe") or changes else None, cut_at=cut, kill=run.get("kill"))
        if run.get("cli"):
            rok, rerr, _ = outcome(go_cli)
        elif run.get("kill"):
            rok, rerr = in_child(go, w)
        else:
            with w:
                rok, rerr, _ = outcome(go)
        if other is not None:
            other.close()
        release()
        R["steps"], R["reading"] = w.n, w.reading()
        w.log.clear()
        if run.get("observe"):
            look("end", "")
        R["obs"] = obs
        if rok and R["cut"]:
            R["cut"] = False                              # the run was over before the cut
        D1 = meta()
        R["end"] = {"ok": rok, "err": rerr, "D": D1, "dst": snap(), "next": {}}
        for t, d in D1.items():                            # what a later run finds
            if t in R["D0"]:
                d["defs"], d["auto"] = R["D0"][t]["defs"], R["D0"][t]["auto"]
            elif dialect == "sqlite" and len(d["pk"]) == 1:
                d["auto"] = d["pk"][0]
        if dialect == "postgres" and rok and run.get("kind", "db") == "db" and run.get("nextkey"):
            for t in D1:
                if len(D1[t]["pk"]) == 1:
                    nk = dst.next_key(t, D1[t]["pk"][0])
                    if nk is not None:
                        R["end"]["next"][t] = nk
        R["end"]["src"] = src_now()
        R["end"]["objs"] = src.objects() == src_objs
        R["versions"] = [S["src"]] + versions if run.get("srcchange") else []
        R["moves"] = bool(versions)
        R["snap"] = bool(run.get("isolation"))
        S["runs"].append(R)
    if not S["runs"]:
        S["planobjs"] = src.objects() == src_objs
        S["plansrc"] = src_now()
    else:
        S["planobjs"] = True
        S["plansrc"] = S["src"]
    fl = cd.opaque(("float", "0.0")) if any(k[0] == "float" for k in cd.other) else None
    dt0 = cd.opaque(("dt", EPOCH.isoformat())) if any(k[0] == "dt" for k in cd.other) else None
    S["zerof"] = [{"v": c, "z": fl if key[0] == "float" else dt0 if key[0] == "dt" else 0 if key[0] == "int" else NULL}
                  for key, c in list(cd.other.items()) if key[0] in ("float", "dt", "int")]
    S["fl"] = [{"v": c, "m": int(float(key[1]) * 1000)} for key, c in cd.other.items()
               if key[0] == "float" and abs(float(key[1])) < 1e6]
    S["strs"] = cd.strs
    return S
