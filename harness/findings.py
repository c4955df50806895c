"""Probes of the known findings: does the listed input still fail?
(known_findings.json lists them; a check never adds to that file)"""
import os
import sqlite3
import tempfile

import engines


def _sqlite_run(scratch, ddl, table):
    import drive  # noqa: F401  (path of the code under test, quiet logging)
    from subsetter import config_model as cm
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler
    d = tempfile.mkdtemp(dir=scratch)
    src, dst = os.path.join(d, "src.db"), os.path.join(d, "dst.db")
    for path, sqls in ((src, ddl), (dst, [])):
        c = sqlite3.connect(path)
        for s in sqls:
            c.execute(s)
        c.commit()
        c.close()
    c = cm.SubsetterConfig.model_validate({
        "source": {"dialect": "sqlite", "database": src}, "planner": {"targets": {table: {"all": True}}, "select": [table]},
        "sampler": {"output": {"mode": "database", "dialect": "sqlite", "database": dst}}})
    plan = Planner(c.source, c.planner).plan()
    Sampler(c.source, c.sampler).sample(plan, create=True)
    con = sqlite3.connect(dst)
    rows = con.execute("SELECT * FROM " + table.split(".")[1]).fetchall()
    con.close()
    return rows


def license_plate(scratch):
    """the filter fake_license_plate fails on every row"""
    import drive  # noqa: F401
    from subsetter import filters
    cfg = filters.FilterFakeLicensePlate.Config.model_validate({"op": "fake_license_plate", "columns": ["c"]})
    try:
        cfg.construct_filter(["c"]).filter_view(["x"])
        return False
    except AttributeError:
        return True


def json_null(scratch):
    """the JSON literal null in a nullable JSON column arrives as SQL NULL"""
    return _sqlite_run(scratch, ["CREATE TABLE t (id integer PRIMARY KEY, j json)", "INSERT INTO t VALUES (1, 'null')"],
                       "main.t") == [(1, None)]


def pg_json_union(scratch):
    """a postgresql table with a json (not jsonb) column that is a target and also referred to by a sampled table"""
    import drive  # noqa: F401
    from subsetter import config_model as cm
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler
    servers = engines.Servers(want_pg=1)
    try:
        c = servers.pg.connect("src0")
        cur = c.cursor()
        cur.execute("CREATE TABLE p (id integer PRIMARY KEY, j json)")
        cur.execute("CREATE TABLE k (id integer PRIMARY KEY, p integer REFERENCES p (id))")
        cur.execute("INSERT INTO p VALUES (1, '{}'), (2, '[]')")
        cur.execute("INSERT INTO k VALUES (1, 1)")
        c.close()
        S = {"dialect": "postgres", "host": "127.0.0.1", "port": servers.pg.port, "username": "postgres"}
        cfg = cm.SubsetterConfig.model_validate({
            "source": {**S, "database": "src0"},
            "planner": {"targets": {"public.p": {"in": {"id": [2]}}, "public.k": {"all": True}}, "select": ["public.*"]},
            "sampler": {"output": {"mode": "database", **S, "database": "dst0"}}})
        plan = Planner(cfg.source, cfg.planner).plan()
        try:
            Sampler(cfg.source, cfg.sampler).sample(plan, create=True)
            return False
        except Exception as exc:                           # noqa: BLE001
            return "could not identify an equality operator for type json" in str(exc)
    finally:
        servers.close()


PROBES = {"fake_license_plate": license_plate, "json-null-literal": json_null, "postgres-json-union": pg_json_union}


def probe(ctx, finding):
    if PROBES[finding["id"]](ctx.scratch):
        ctx.known.append(f"{finding['id']}: {finding['what']}")
