"""Connection settings (C24): configurations and environments of spec/ConnMC.tla
realised against the code; what the drivers are given is captured right before
they would connect.  And sessions opened on real engines."""
import os
import random
import shutil
import ssl

import sqlalchemy as sa

HERE = os.path.dirname(os.path.abspath(__file__))
PEM = os.path.join(HERE, "pem", "all.pem")
PREFIX = {"plan": "SUBSET_SOURCE_", "sample": "SUBSET_SOURCE_", "destination": "SUBSET_DESTINATION_"}
ENV = {"dialect": "DIALECT", "host": "HOST", "port": "PORT", "database": "DATABASE", "username": "USERNAME",
       "password": "PASSWORD", "require": "SSL_REQUIRE", "verify": "SSL_SERVER_VERIFY", "rootcert": "SSL_SERVER_ROOTCERT",
       "cert": "SSL_CLIENT_CERT", "key": "SSL_CLIENT_KEY"}
PATHS = {"require": ("ssl", "require"), "verify": ("ssl", "server", "verify"), "rootcert": ("ssl", "server", "rootcert"),
         "cert": ("ssl", "client", "cert"), "key": ("ssl", "client", "key")}
PORTS = {"cfg": 15001, "env": 15002, "decoy": 15003}
DEFAULT_PORT = {"mysql": 3306, "postgres": 5432}
FILES = ("rootcert", "cert", "key")


class Captured(Exception):
    pass


class Stage:
    """A directory with the files the cases name, and a small real source."""

    def __init__(self, root):
        import sqlite3
        self.root = root
        os.makedirs(root, exist_ok=True)
        for who in ("cfg", "env", "decoy"):
            for f in FILES:
                shutil.copy(PEM, os.path.join(root, f"{who}-{f}.pem"))
        self.source = os.path.join(root, "source.db")
        if not os.path.exists(self.source):
            c = sqlite3.connect(self.source)
            c.execute("CREATE TABLE t (id INTEGER PRIMARY KEY)")
            c.commit()
            c.close()

    def value(self, option, symbol, style=0):
        if option in ("dialect", "verify"):
            return symbol
        if option == "require":
            return {"yes": True, "no": False}[symbol]
        if symbol == "empty":
            return ""
        if option == "port":
            return PORTS[symbol]
        if option in FILES:
            return os.path.join(self.root, f"{symbol}-{option}.pem")
        if option == "host":
            return f"{symbol}.example.invalid"
        if option == "database":
            return os.path.join(self.root, f"{symbol}-database.db") if style else f"{symbol}-database"
        return [f"{symbol}-{option}", f"{symbol} @:/?#%25&'\"-{option}"][style]

    def symbol(self, option, value):
        if value in (None, "", b""):
            return "none"
        if isinstance(value, bytes):
            value = value.decode()
        for s in ("cfg", "env"):
            for style in (0, 1):
                if str(self.value(option, s, style)) == str(value):
                    return s
        return "?" + str(value)[:60]


def document(stage, case, style):
    doc = {}
    for o, s in case["cfg"].items():
        if s == "unset":
            continue
        d = doc
        path = PATHS.get(o, (o,))
        for p in path[:-1]:
            d = d.setdefault(p, {})
        d[path[-1]] = stage.value(o, s, style)
    return doc


def environment(stage, case, style, kw):
    env = {}
    for o, s in case["env"].items():
        if s != "unset":
            v = stage.value(o, s, style)
            env[PREFIX[case["role"]] + ENV[o]] = kw.choice(["1", "true", "yes"]) if o == "require" else str(v)
    other = PREFIX["destination"] if case["role"] != "destination" else PREFIX["plan"]
    for o in ("host", "port", "database", "username", "password"):
        env[other + ENV[o]] = str(stage.value(o, "decoy", 0))
    if case["role"] != "destination":                      # (the source of the destination's runs is a real one)
        env[other + "DIALECT"] = kw.choice(["mysql", "postgres", "sqlite"])
        env[other + "SSL_REQUIRE"] = "1"
        env[other + "SSL_SERVER_VERIFY"] = kw.choice(["none", "identity"])
        for f in FILES:
            env[other + ENV[f]] = stage.value(f, "decoy")
    return env


def with_env(env, fn):
    old = {k: v for k, v in os.environ.items() if k.startswith("SUBSET_")}
    for k in old:
        del os.environ[k]
    os.environ.update(env)
    try:
        return fn()
    finally:
        for k in list(os.environ):
            if k.startswith("SUBSET_"):
                del os.environ[k]
        os.environ.update(old)


def start(stage, role, doc):
    """the code, up to the connection in question"""
    from subsetter import config_model as cm
    from subsetter import plan_model as pm
    from subsetter.common import DatabaseConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler
    if role == "plan":
        c = cm.SubsetterConfig.model_validate({"source": doc, "planner": {"targets": {"main.t": {"all": True}}, "select": ["main.*"]}})
        Planner(c.source, c.planner).plan()
        return
    src = doc if role == "sample" else {"dialect": "sqlite", "database": stage.source}
    out = {"mode": "directory", "directory": os.path.join(stage.root, f"out{os.getpid()}")} if role == "sample" \
        else {"mode": "database", **doc}
    c = cm.SubsetterConfig.model_validate({"source": src, "sampler": {"output": out}})
    plan = pm.SubsetPlan.model_validate({"queries": {"main.t": {"statement": {"type": "select", "from": {"schema": "main", "table": "t"}}}}})
    s = Sampler(c.source, c.sampler)
    s.sample(plan, truncate=False, create=False)


def observe(stage, case, style, kw):
    """what the driver was given for this case"""
    got = {}
    files = {}

    def listener(dialect, conn_rec, cargs, cparams):
        if dialect.name == "sqlite" and case["role"] == "destination" and cargs and cargs[0] == stage.source:
            return None
        got["dialect"], got["args"], got["params"] = dialect.name, list(cargs), dict(cparams)
        raise Captured()

    old_ctx, old_chain = ssl.create_default_context, ssl.SSLContext.load_cert_chain

    def create_ctx(*a, **k):
        if k.get("cafile"):
            files["rootcert"] = k["cafile"]
        return old_ctx(*a, **k)

    def load_chain(self, certfile, keyfile=None, password=None):
        files["cert"] = certfile
        if keyfile:
            files["key"] = keyfile
        return old_chain(self, certfile, keyfile, password)

    seen = {"refused": False, "strength": 0, "dialect": "?", "why": ""}
    for o in ("host", "port", "database", "username", "password") + FILES:
        seen[o] = "none"
    ssl.create_default_context, ssl.SSLContext.load_cert_chain = create_ctx, load_chain
    sa.event.listen(sa.engine.Engine, "do_connect", listener)
    try:
        with_env(environment(stage, case, style, kw), lambda: start(stage, case["role"], document(stage, case, style)))
        seen["why"] = "no connection was made"
    except Captured:
        pass
    except Exception as exc:                               # noqa: BLE001
        seen["refused"] = True
        seen["why"] = repr(exc)[:300]
    finally:
        sa.event.remove(sa.engine.Engine, "do_connect", listener)
        try:
            if got.get("dialect"):
                _given(stage, got, seen, files)
        finally:
            ssl.create_default_context, ssl.SSLContext.load_cert_chain = old_ctx, old_chain
    return seen


def _given(stage, got, seen, files):
    p = got["params"]
    d = {"postgresql": "postgres"}.get(got["dialect"], got["dialect"])
    seen["dialect"] = d
    if d == "sqlite":
        name = got["args"][0] if got["args"] else p.get("database")
        name = None if name == ":memory:" else name
        base = os.path.basename(name) if name else None
        seen["database"] = next((s for s in ("cfg", "env") if base and base.startswith(s + "-database")), "none" if not base else "?" + base)
        return
    host = p.get("host")
    seen["host"] = "default" if host in ("localhost", None) else stage.symbol("host", host)
    port = p.get("port")
    seen["port"] = "default" if port in (None, DEFAULT_PORT[d], str(DEFAULT_PORT[d])) else stage.symbol("port", port)
    seen["username"] = stage.symbol("username", p.get("user"))
    seen["password"] = stage.symbol("password", p.get("password", p.get("passwd")))
    if d == "postgres":
        seen["database"] = stage.symbol("database", p.get("dbname", p.get("database")))
        seen["strength"] = {"require": 1, "verify-ca": 2, "verify-full": 3}.get(p.get("sslmode"), 0)
        for f, name in (("rootcert", "sslrootcert"), ("cert", "sslcert"), ("key", "sslkey")):
            seen[f] = stage.symbol(f, p.get(name))
        return
    import pymysql
    conn = pymysql.connections.Connection(*got["args"], **{**p, "defer_connect": True})
    if conn.ssl and getattr(conn, "_ssl_required", True):
        seen["strength"] = 1
        if conn.ctx.verify_mode == ssl.CERT_REQUIRED:
            seen["strength"] = 3 if conn.ctx.check_hostname else 2
    given = p.get("ssl") if isinstance(p.get("ssl"), dict) else {}
    for f, name in (("rootcert", "ca"), ("cert", "cert"), ("key", "key")):
        seen[f] = stage.symbol(f, given.get(name) or p.get("ssl_" + name) or files.get(f))


def given_record(arg):
    i, case, root, seed = arg
    kw = random.Random(f"{seed}:{i}")
    stage = Stage(os.path.join(root, f"conn{os.getpid()}"))
    style = kw.randrange(2)
    return {"id": i, "kind": "given", "case": case, "seen": observe(stage, case, style, kw), "style": style}


CFG = {"dialect": ["mysql", "postgres", "sqlite"], "require": ["yes", "yes", "no"], "verify": ["none", "cert", "identity"],
       "database": ["cfg", "empty"], "username": ["cfg", "empty"], "password": ["cfg", "empty"]}


def random_case(r):
    """any number of options, in either place"""
    cfg, env = {}, {}
    full = r.random()
    for o in ENV:
        cfg[o] = r.choice(CFG.get(o, ["cfg"])) if r.random() < full else "unset"
        e = ["yes"] if o == "require" else CFG.get(o, ["env"])
        e = ["env" if x in ("cfg", "empty") else x for x in e]
        env[o] = r.choice(e) if r.random() < .5 else "unset"
    return {"role": r.choice(["plan", "sample", "destination"]), "cfg": cfg, "env": env}


# ----------------------------------------------------------------- sessions
LEVELS = ["READ COMMITTED", "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE"]
ASK = {"postgres": ["SHOW application_name", "SHOW work_mem", "SHOW DateStyle"],
       "mysql": ["SELECT @@session.group_concat_max_len", "SELECT @a", "SELECT @b"],
       "sqlite": ["PRAGMA cache_size", "PRAGMA foreign_keys", "PRAGMA busy_timeout"]}


def session_sqls(dialect, r):
    """statements, and what a session must answer after all of them in order"""
    sqls, want = [], {}
    for _ in range(r.randint(0, 6)):
        k = r.randrange(3)
        q = ASK[dialect][k]
        if dialect == "postgres":
            name, v = [("application_name", f"a{r.randint(1, 99)}"), ("work_mem", f"{r.randint(1, 9)}MB"), ("DateStyle", r.choice(["ISO, DMY", "ISO, MDY", "ISO, YMD"]))][k]
            sqls.append(f"SET {name} = '{v}'" if k < 2 else f"SET {name} = {v}")
        elif dialect == "mysql":
            if k == 0:
                v = r.randint(1000, 9999)
                sqls.append(f"SET SESSION group_concat_max_len = {v}")
            elif r.random() < .5 and ASK["mysql"][k] in want:          # (depends on the order)
                v = int(want[q]) * 2 + 1
                sqls.append(f"SET @{'_ab'[k]} = @{'_ab'[k]} * 2 + 1")
            else:
                v = r.randint(1, 99)
                sqls.append(f"SET @{'_ab'[k]} = {v}")
        else:
            v = [r.randint(-9000, -1000), r.randint(0, 1), r.randint(0, 5000)][k]
            sqls.append(f"PRAGMA {['cache_size', 'foreign_keys', 'busy_timeout'][k]} = {v}")
        want[q] = str(v)
    return sqls, want


def live_record(i, dialect, place, seed):
    """A run on a real engine: every session that the run used is asked for what was configured for it.
    (at the moment a session is handed out, before the run's own statements)"""
    r = random.Random(f"live:{seed}:{i}")
    from subsetter import config_model as cm
    from subsetter import plan_model as pm
    from subsetter.common import DatabaseConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler
    role = r.choice(["plan", "sample", "destination"])
    sqls, want = session_sqls(dialect, r)
    if dialect == "sqlite" and role == "destination":
        # (the destination's own run sets this one)
        keep = [s for s in sqls if "foreign_keys" not in s]
        if len(keep) != len(sqls):
            sqls, want = keep, {k: v for k, v in want.items() if "foreign_keys" not in k}
    level = r.choice([None] + LEVELS)
    if dialect == "sqlite" and level not in (None, "SERIALIZABLE", "READ UNCOMMITTED"):
        level = None
    direct = r.random() < .35
    doc = dict(place[role])
    if sqls or r.random() < .5:
        doc["session_sqls"] = sqls
    if level:
        doc["isolation_level"] = level
    answers = []
    fresh = set()

    def out(dbapi, record, proxy):
        fresh.add(id(dbapi))

    def ask(conn, cursor, statement, parameters, context, executemany):
        # before the first statement after a session was handed out
        dbapi = conn.connection.dbapi_connection
        if id(dbapi) not in fresh:
            return
        fresh.discard(id(dbapi))
        fits = {"sqlite": "sqlite3", "postgres": "psycopg2", "mysql": "pymysql"}[dialect] in type(dbapi).__module__
        if not fits or not place["mine"](role, dbapi):
            return
        cur = dbapi.cursor()
        ans = {}
        for q in want:
            cur.execute(q)
            ans[q] = str(cur.fetchone()[0])
        cur.execute({"postgres": "SHOW transaction_isolation", "mysql": "SELECT @@transaction_isolation",
                     "sqlite": "PRAGMA read_uncommitted"}[dialect])
        v = str(cur.fetchone()[0]).upper().replace("-", " ")
        if dialect == "sqlite":
            v = {"0": "SERIALIZABLE", "1": "READ UNCOMMITTED"}[v]
        ans["isolation"] = v
        cur.close()
        answers.append(ans)

    seen_ok, why = True, ""
    sa.event.listen(sa.pool.Pool, "checkout", out)
    sa.event.listen(sa.engine.Engine, "before_cursor_execute", ask)
    try:
        def go():
            if direct:                                     # several connections of one engine at the same time, and later ones
                conf = cm.DatabaseOutputConfig.model_validate({"mode": "database", **doc}) if role == "destination" \
                    else DatabaseConfig.model_validate(doc)
                e = conf.database_engine(env_prefix="SUBSET_DESTINATION_" if role == "destination" else "SUBSET_SOURCE_")
                for n in (2, 1):
                    cs = [e.connect() for _ in range(n)]
                    for c in cs[::-1]:
                        c.execute(sa.text("SELECT 1"))
                        if r.random() < .3:
                            c.rollback()
                    for c in cs:
                        c.close()
                    if r.random() < .5:
                        e.dispose()
                e.dispose()
                return
            if role == "plan":
                c = cm.SubsetterConfig.model_validate({"source": doc, "planner": {"targets": {place["table"]: {"all": True}}, "select": [place["table"]]}})
                Planner(c.source, c.planner).plan()
                return
            src = doc if role == "sample" else place["sample"]
            out = {"mode": "directory", "directory": os.path.join(place["root"], "out")} if role == "sample" else {"mode": "database", **doc}
            c = cm.SubsetterConfig.model_validate({"source": src, "sampler": {"output": out}})
            schema, table = place["table"].split(".", 1)
            plan = pm.SubsetPlan.model_validate({"queries": {place["table"]: {"statement": {"type": "select", "from": {"schema": schema, "table": table}}}}})
            Sampler(c.source, c.sampler).sample(plan, truncate=r.random() < .5, create=r.random() < .5)
        with_env({}, go)
    except Exception as exc:                               # noqa: BLE001
        seen_ok, why = False, repr(exc)[:400]
    finally:
        sa.event.remove(sa.pool.Pool, "checkout", out)
        sa.event.remove(sa.engine.Engine, "before_cursor_execute", ask)
    want = dict(want)
    want["isolation"] = level or ("SERIALIZABLE" if dialect == "sqlite" else "READ COMMITTED")
    return {"id": i, "kind": "live", "ok": seen_ok, "want": want, "seen": answers, "why": why, "dialect": dialect, "role": role, "sqls": sqls}


def places(servers, root):
    """for every engine: how the roles are configured, and whose session is whose"""
    import sqlite3
    res = {}
    d = os.path.join(root, "live")
    os.makedirs(d, exist_ok=True)
    for n in ("src.db", "dst.db"):
        c = sqlite3.connect(os.path.join(d, n))
        c.execute("CREATE TABLE t (id INTEGER PRIMARY KEY)")
        c.commit()
        c.close()
    src, dst = os.path.join(d, "src.db"), os.path.join(d, "dst.db")

    def mine_sqlite(role, dbapi):
        cur = dbapi.cursor()
        name = [x[2] for x in cur.execute("PRAGMA database_list").fetchall() if x[1] == "main"][0]
        return (os.path.basename(name) == "dst.db") == (role == "destination")
    S = {"dialect": "sqlite", "database": src}
    res["sqlite"] = {"plan": S, "sample": S, "destination": {"dialect": "sqlite", "database": dst}, "table": "main.t", "mine": mine_sqlite, "root": d}
    if servers.pg:
        for n in ("src0", "dst0"):
            c = servers.pg.connect(n)
            c.cursor().execute("CREATE TABLE t (id integer PRIMARY KEY)")
            c.close()
        P = {"dialect": "postgres", "host": "127.0.0.1", "port": servers.pg.port, "username": "postgres"}
        res["postgres"] = {"plan": {**P, "database": "src0"}, "sample": {**P, "database": "src0"}, "destination": {**P, "database": "dst0"},
                           "table": "public.t", "root": d,
                           "mine": lambda role, dbapi: (dbapi.info.dbname == "dst0") == (role == "destination")}
    if servers.mysql:
        m = servers.mysql[0]
        c = m.connect("root")
        for n in ("s_w0a", "s_w0b"):
            c.cursor().execute(f"CREATE DATABASE {n}")
            c.cursor().execute(f"CREATE TABLE {n}.t (id int PRIMARY KEY)")
        c.close()
        M = {"dialect": "mysql", "port": m.port, "username": "sub0", "password": ""}
        res["mysql"] = {"plan": {**M, "host": "127.0.0.1"}, "sample": {**M, "host": "127.0.0.1"},
                        "destination": {**M, "host": "localhost", "remap": [{"search": "^s_w0a", "replace": "s_w0b"}]}, "table": "s_w0a.t", "root": d,
                        "mine": lambda role, dbapi: (dbapi.host == "localhost") == (role == "destination")}
    return res
