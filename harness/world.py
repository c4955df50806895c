"""Scenario data in its native form: schemas, rows, DDL, loading and reading
back with raw drivers (never through the code under test), and the coding of
values as integers for the specification."""
import datetime
import decimal
import json
import os
import sqlite3

TEXT = 1000000
ELSEV = 2000000
NULL = -1000000000
WILD = -1100000000
DOM0 = -1200000000
FLOAT0, NUM0, DATE0, DT0 = 200_000_000, 600_000_000, 100_000_000, 1_000_000_000


class Codec:
    """native value <-> integer code (see spec/Values.tla)"""

    def __init__(self):
        self.strs = []
        self.sidx = {}
        self.other = {}

    def text(self, s):
        if s not in self.sidx:
            self.strs.append([ord(c) for c in s])
            self.sidx[s] = TEXT + len(self.strs)
        return self.sidx[s]

    def opaque(self, key):
        if key not in self.other:
            self.other[key] = ELSEV + 1 + len(self.other)
        return self.other[key]

    def enc(self, v):
        if v is None:
            return NULL
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v if -TEXT <= v <= TEXT else self.opaque(("int", v))
        if isinstance(v, str):
            return self.text(v)
        if isinstance(v, float):                 # numbers, dates and times keep their order
            if abs(v) <= 1e5 and v * 1000 == int(v * 1000):
                return FLOAT0 + int(v * 1000)
            if v > 1e5:
                return FLOAT0 + 200_000_000 + self.opaque(("float", repr(v)))
            return self.opaque(("float", repr(v)))
        if isinstance(v, decimal.Decimal):
            if abs(v) <= 2000 and v * 10000 == int(v * 10000):
                return NUM0 + int(v * 10000)
            return self.opaque(("num", str(v.normalize())))
        if isinstance(v, (bytes, bytearray, memoryview)):
            return self.opaque(("blob", bytes(v).hex()))
        if isinstance(v, datetime.datetime):
            n = (v.replace(microsecond=0) - datetime.datetime(2020, 1, 1)) // datetime.timedelta(seconds=1)
            if 0 <= n < 10**8 and v.microsecond in (0, 1, 250000):
                return DT0 + 4 * n + (0, 1, 250000).index(v.microsecond)
            return self.opaque(("dt", v.isoformat()))
        if isinstance(v, datetime.date):
            if v.year < 3000:
                return DATE0 + v.toordinal()
            return self.opaque(("date", v.isoformat()))
        if isinstance(v, datetime.timedelta):
            return self.opaque(("td", str(v)))
        if isinstance(v, (dict, list)):
            return self.opaque(("json", json.dumps(v, sort_keys=True)))
        return self.opaque((type(v).__name__, str(v)))

    def rows(self, rows):
        return [[self.enc(v) for v in r] for r in rows]


def chars(s):
    return [ord(c) for c in s]


DDL = {
    "sqlite": {"int": "INTEGER", "big": "BIGINT", "text": "VARCHAR(60)", "ltext": "TEXT", "float": "FLOAT",
               "bool": "BOOLEAN", "date": "DATE", "dt": "DATETIME", "num": "NUMERIC(12, 4)", "blob": "BLOB",
               "json": "JSON"},
    "postgres": {"int": "INTEGER", "big": "BIGINT", "text": "VARCHAR(60)", "ltext": "TEXT",
                 "float": "DOUBLE PRECISION", "bool": "BOOLEAN", "date": "DATE", "dt": "TIMESTAMP",
                 "num": "NUMERIC(12, 4)", "blob": "BYTEA", "json": "JSONB"},
    "mysql": {"int": "INTEGER", "big": "BIGINT", "text": "VARCHAR(60)", "ltext": "TEXT", "float": "DOUBLE",
              "bool": "BOOLEAN", "date": "DATE", "dt": "DATETIME(6)", "num": "NUMERIC(12, 4)", "blob": "BLOB",
              "json": "JSON"},
}
INTS = {"int", "big"}
# further types of each engine
ODD = {"sqlite": {"time": "TIME", "small": "SMALLINT", "char": "CHAR(8)", "nchar": "NVARCHAR(9)", "stamp": "TIMESTAMP", "double": "DOUBLE"},
       "postgres": {"time": "TIME WITHOUT TIME ZONE", "small": "SMALLINT", "char": "CHAR(7)", "uuid": "UUID", "span": "INTERVAL",
                    "array": "INTEGER[]", "tarray": "TEXT[]", "inet": "INET", "stamp": "TIMESTAMP WITH TIME ZONE", "bits": "BIT(8)",
                    "range": "INT4RANGE", "double": "REAL", "plain": "NUMERIC"},
       "mysql": {"time": "TIME(6)", "small": "SMALLINT UNSIGNED", "char": "CHAR(7)", "enum": "ENUM('a','b c','it''s')", "set": "SET('x','y','z')",
                 "year": "YEAR", "bits": "BIT(8)", "stamp": "TIMESTAMP", "double": "FLOAT", "tiny": "TINYINT", "medium": "MEDIUMTEXT",
                 "vbin": "VARBINARY(20)"}}
for _d, _m in ODD.items():
    DDL[_d].update(_m)


def quote(dialect, name):
    if dialect == "mysql":
        return "`" + name.replace("`", "``") + "`"
    return '"' + name.replace('"', '""') + '"'


def split(t):
    return t.split(".", 1)


def qtable(dialect, t):
    s, n = split(t)
    return quote(dialect, s) + "." + quote(dialect, n)


def literal(dialect, v):
    if v is None:
        return "NULL"
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int, float)):
        return repr(v)
    s = str(v).replace("'", "''")
    if dialect == "mysql":
        s = s.replace("\\", "\\\\")
    return "'" + s + "'"


def create_sql(dialect, t, spec, tables):
    """statements creating table t (foreign keys to be added afterwards except on sqlite)"""
    q = lambda n: quote(dialect, n)
    serial = spec.get("serial")
    parts = []
    pk = spec["pk"]
    for c in spec["cols"]:
        ty = DDL[dialect][c["type"]]
        d = q(c["name"]) + " "
        if serial == c["name"] and dialect == "postgres":
            d += {"int": "SERIAL", "big": "BIGSERIAL"}[c["type"]]
            if spec.get("identity"):
                d = q(c["name"]) + " " + ty + " GENERATED BY DEFAULT AS IDENTITY"
        else:
            d += ty
        if c.get("computed"):
            d += f" GENERATED ALWAYS AS ({c['computed']}) STORED"
        else:
            if not c.get("null", True):
                d += " NOT NULL"
            if c.get("default") is not None:
                d += " DEFAULT " + literal(dialect, c["default"])
        if serial == c["name"] and dialect == "mysql":
            d += " AUTO_INCREMENT"
        if dialect == "sqlite" and pk == [c["name"]] and c["type"] == "int":
            d += " PRIMARY KEY"
        parts.append(d)
    if pk and not (dialect == "sqlite" and len(pk) == 1 and coltype(spec, pk[0]) == "int"):
        parts.append("PRIMARY KEY (" + ", ".join(map(q, pk)) + ")")
    for u in spec.get("uniq", []):
        parts.append("UNIQUE (" + ", ".join(map(q, u)) + ")")
    for ck in spec.get("checks", []):
        parts.append("CHECK (" + ck + ")")
    if dialect == "sqlite":
        for f in spec["fks"]:
            s, n = split(f["dst"])
            parts.append("FOREIGN KEY (" + ", ".join(map(q, f["cols"])) + ") REFERENCES " + q(n) + " ("
                         + ", ".join(map(q, f["dcols"])) + ")")
    out = ["CREATE TABLE " + qtable(dialect, t) + " (" + ", ".join(parts) + ")"]
    # plain and unique indexes, and others given by what is indexed and a condition
    ixs = ([("", ", ".join(map(q, ix)), "") for ix in spec.get("indexes", [])]
           + [("UNIQUE ", ", ".join(map(q, ix)), "") for ix in spec.get("uindexes", [])]
           + [tuple(x) for x in spec.get("ixsql", [])])
    for k, (uq, what, cond) in enumerate(ixs):
        s, n = split(t)
        nm = f"ix_{n}_{k}".replace(" ", "_")[-50:] if len(n) > 40 else f"ix_{n}_{k}".replace(" ", "_")
        if dialect == "mysql" and len(nm.encode()) > 48:
            nm = f"ix_{k}"       # (MySQL cuts off the names of hidden columns within a character)
        if dialect == "sqlite":
            out.append(f"CREATE {uq}INDEX {q(s)}.{q(nm)} ON {q(n)} ({what}){cond}")
        else:
            out.append(f"CREATE {uq}INDEX {q(nm)} ON {qtable(dialect, t)} ({what}){cond}")
    return out


def fk_sql(dialect, t, spec):
    q = lambda n: quote(dialect, n)
    out = []
    if dialect != "sqlite":
        for f in spec["fks"]:
            out.append("ALTER TABLE " + qtable(dialect, t) + " ADD FOREIGN KEY (" + ", ".join(map(q, f["cols"]))
                       + ") REFERENCES " + qtable(dialect, f["dst"]) + " (" + ", ".join(map(q, f["dcols"])) + ")")
    return out


def coltype(spec, name):
    return next(c["type"] for c in spec["cols"] if c["name"] == name)


def colnames(spec):
    return [c["name"] for c in spec["cols"]]


class Db:
    """One database (source or destination) of one scenario: raw access."""

    def __init__(self, dialect, schemas, place):
        self.dialect = dialect
        self.schemas = list(schemas)
        self.sfx = ""                # mysql: schemas of this worker start with s_ and this
        self.place = place           # sqlite: directory; postgres: (server, db); mysql: server
        self.conn = None

    # -- connections
    def files(self):
        """the schema "main" is the database file that is opened, the others are attached"""
        return {s: os.path.join(self.place, s + ".db") for s in [*self.schemas, "main"]}

    def attached(self):
        return {s: f for s, f in self.files().items() if s != "main"}

    def open(self):
        if self.dialect == "sqlite":
            c = sqlite3.connect(self.files()["main"], isolation_level=None, timeout=0.2, check_same_thread=False)
            c.execute("PRAGMA synchronous=OFF")
            for s, f in self.attached().items():
                c.execute(f"ATTACH DATABASE '{f}' AS {quote('sqlite', s)}")
            return c
        if self.dialect == "postgres":
            return self.place[0].connect(self.place[1])
        return self.place.connect(user="sub" + self.sfx[1:])

    def raw(self):
        if self.conn is None:
            self.conn = self.open()
        return self.conn

    def close(self):
        if self.conn is not None:
            self.conn.close()
            self.conn = None

    def execute(self, sql, params=None):
        cur = self.raw().cursor()
        if params is None:
            cur.execute(sql)
        else:
            cur.execute(sql, params)
        return cur

    def reset(self):
        """empty schemas"""
        if self.dialect == "sqlite":
            self.close()
            os.makedirs(self.place, exist_ok=True)
            for f in self.files().values():
                for g in (f, f + "-journal", f + "-wal", f + "-shm"):
                    if os.path.exists(g):
                        os.unlink(g)
                c = sqlite3.connect(f)
                c.execute("PRAGMA synchronous=OFF")
                c.execute("CREATE TABLE _x (i int)")
                c.execute("DROP TABLE _x")
                c.close()
        elif self.dialect == "postgres":
            cur = self.execute("SELECT nspname FROM pg_namespace WHERE nspname NOT LIKE 'pg\\_%' AND nspname <> 'information_schema'")
            for (s,) in cur.fetchall():
                self.execute(f"DROP SCHEMA {quote('postgres', s)} CASCADE")
            for s in dict.fromkeys(["public", *self.schemas]):
                self.execute(f"CREATE SCHEMA {quote('postgres', s)}")
        else:
            cur = self.execute(f"SHOW DATABASES LIKE 's\\_{self.sfx}%'")
            old = [r[0] for r in cur.fetchall()]
            self.execute("SET FOREIGN_KEY_CHECKS=0")
            for s in old:
                self.execute(f"DROP DATABASE {quote('mysql', s)}")
            for s in self.schemas:
                self.execute(f"CREATE DATABASE {quote('mysql', s)}")

    def build(self, tables, rows=None):
        rows = rows or {}
        c = self.raw()
        if self.dialect == "sqlite":
            self.execute("BEGIN")
        if self.dialect == "mysql":
            self.execute("SET FOREIGN_KEY_CHECKS=0")
        for t, spec in tables.items():
            for s in create_sql(self.dialect, t, spec, tables):
                self.execute(s)
        for t, spec in tables.items():
            self.insert(t, spec, rows.get(t, []))
        for t, spec in tables.items():
            for s in fk_sql(self.dialect, t, spec):
                self.execute(s)
        if self.dialect == "sqlite":
            self.execute("COMMIT")
        if self.dialect == "mysql":
            self.execute("SET FOREIGN_KEY_CHECKS=1")

    def insert(self, t, spec, rows):
        if not rows:
            return
        keep = [i for i, c in enumerate(spec["cols"]) if not c.get("computed")]
        pc = lambda s: s if self.dialect == "sqlite" else s.replace("%", "%%")
        q = lambda n: pc(quote(self.dialect, n))
        ph = "?" if self.dialect == "sqlite" else "%s"
        sql = ("INSERT INTO " + pc(qtable(self.dialect, t)) + " (" + ", ".join(q(spec["cols"][i]["name"]) for i in keep)
               + ") VALUES (" + ", ".join(ph for _ in keep) + ")")
        cur = self.raw().cursor()
        vals = [tuple(self.bind(spec["cols"][i]["type"], r[i]) for i in keep) for r in rows]
        if self.dialect == "sqlite":
            cur.executemany(sql, vals)
        elif self.dialect == "postgres":
            from psycopg2.extras import execute_batch
            execute_batch(cur, sql, vals, page_size=500)
        else:
            cur.executemany(sql, vals)

    def bind(self, ty, v):
        if v is None:
            return None
        if ty == "json":
            return json.dumps(v)
        if self.dialect == "sqlite":
            if ty == "dt":
                return v.strftime("%Y-%m-%d %H:%M:%S.%f")
            if ty == "date":
                return v.isoformat()
            if ty == "num":
                return float(v)
            if ty == "time":
                return v.strftime("%H:%M:%S.%f")
            if ty == "stamp":
                return v.strftime("%Y-%m-%d %H:%M:%S.%f")
        if self.dialect == "mysql" and ty == "bits":
            return bytes([v])
        if self.dialect == "postgres" and ty == "bits":
            return format(v, "08b")
        if self.dialect == "postgres" and ty == "stamp":
            return v.replace(tzinfo=datetime.timezone.utc)
        return v

    def tables(self):
        out = []
        if self.dialect == "sqlite":
            for s in self.files():
                for (n,) in self.execute(f"SELECT name FROM {quote('sqlite', s)}.sqlite_master WHERE type='table' "
                                         "AND name NOT LIKE 'sqlite_%'").fetchall():
                    out.append(s + "." + n)
        elif self.dialect == "postgres":
            out = [f"{a}.{b}" for a, b in self.execute(
                "SELECT n.nspname, c.relname FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace "
                "WHERE c.relkind IN ('r', 'p') AND n.nspname NOT LIKE 'pg\\_%' "
                "AND n.nspname <> 'information_schema'").fetchall()]
        else:
            out = [f"{a}.{b}" for a, b in self.execute(
                "SELECT table_schema, table_name FROM information_schema.tables "
                f"WHERE table_schema LIKE 's\\_{self.sfx}%'").fetchall()]
        return sorted(out)

    def objects(self):
        """every schema object with its definition, as strings"""
        out = []
        if self.dialect == "sqlite":
            for s in self.files():
                for r in self.execute(f"SELECT type, name, tbl_name, sql FROM {quote('sqlite', s)}.sqlite_master").fetchall():
                    out.append(s + ":" + ":".join(str(x) for x in r))
        elif self.dialect == "postgres":
            for r in self.execute(
                    "SELECT n.nspname, c.relname, c.relkind::text, coalesce((SELECT string_agg(a.attname || ' ' || "
                    "format_type(a.atttypid, a.atttypmod) || ' ' || a.attnotnull, ',' ORDER BY attnum) FROM "
                    "pg_attribute a WHERE a.attrelid = c.oid AND a.attnum > 0), '') FROM pg_class c JOIN pg_namespace n ON "
                    "n.oid = c.relnamespace WHERE n.nspname NOT LIKE 'pg\\_%' AND n.nspname <> 'information_schema'").fetchall():
                out.append(":".join(str(x) for x in r))
            for r in self.execute("SELECT conrelid::regclass::text, conname, pg_get_constraintdef(oid) FROM pg_constraint "
                                  "WHERE conrelid <> 0 AND connamespace NOT IN (SELECT oid FROM pg_namespace WHERE nspname "
                                  "IN ('pg_catalog','information_schema'))").fetchall():
                out.append(":".join(str(x) for x in r))
            for r in self.execute("SELECT nspname FROM pg_namespace WHERE nspname NOT LIKE 'pg\\_%'").fetchall():
                out.append("ns:" + r[0])
        else:
            for r in self.execute("SELECT table_schema, table_name FROM information_schema.tables "
                                  f"WHERE table_schema LIKE 's\\_{self.sfx}%'").fetchall():
                d = self.execute("SHOW CREATE TABLE " + qtable("mysql", f"{r[0]}.{r[1]}")).fetchall()
                ddl = d[0][1]
                import re
                out.append(f"{r[0]}.{r[1]}:" + re.sub(r" AUTO_INCREMENT=\d+", "", ddl))
            for r in self.execute(f"SHOW DATABASES LIKE 's\\_{self.sfx}%'").fetchall():
                out.append("db:" + r[0])
        return sorted(out)

    def rows(self, t, cols):
        q = ", ".join(quote(self.dialect, c) for c in cols)
        return [list(r) for r in self.execute(f"SELECT {q} FROM {qtable(self.dialect, t)}").fetchall()]

    def columns(self, t):
        s, n = split(t)
        if self.dialect == "sqlite":
            return [r[1] for r in self.execute(f"PRAGMA {quote('sqlite', s)}.table_xinfo({quote('sqlite', n)})").fetchall()]
        sql = ("SELECT column_name FROM information_schema.columns WHERE table_schema = %s AND table_name = %s "
               "ORDER BY ordinal_position")
        return [r[0] for r in self.execute(sql, (s, n)).fetchall()]

    def describe(self, t):
        """columns, types, nullability, keys: from the engine's own catalogue"""
        s, n = split(t)
        d = {"cols": [], "types": [], "null": [], "pk": [], "uniq": [], "fks": [], "computed": [], "defaults": []}
        if self.dialect == "sqlite":
            pk = {}
            for r in self.execute(f"PRAGMA {quote('sqlite', s)}.table_xinfo({quote('sqlite', n)})").fetchall():
                d["cols"].append(r[1]); d["types"].append(r[2]); d["null"].append(not r[3])
                d["computed"].append(r[6] in (2, 3)); d["defaults"].append(r[4])
                if r[5]:
                    pk[r[5]] = r[1]
            d["pk"] = [pk[k] for k in sorted(pk)]
            for r in self.execute(f"PRAGMA {quote('sqlite', s)}.index_list({quote('sqlite', n)})").fetchall():
                if r[2] and r[3] in ("u", "c") and not r[4]:
                    d["uniq"].append([x[2] for x in self.execute(
                        f"PRAGMA {quote('sqlite', s)}.index_info({quote('sqlite', r[1])})").fetchall()])
            fks = {}
            for r in self.execute(f"PRAGMA {quote('sqlite', s)}.foreign_key_list({quote('sqlite', n)})").fetchall():
                fks.setdefault(r[0], []).append(r)
            for rs in fks.values():
                rs.sort(key=lambda r: r[1])
                dst = s + "." + rs[0][2]
                dcols = [r[4] for r in rs]
                if any(c is None for c in dcols):
                    dcols = self.describe(dst)["pk"]
                d["fks"].append({"cols": [r[3] for r in rs], "dst": dst, "dcols": dcols})
        elif self.dialect == "postgres":
            for r in self.execute(
                    "SELECT a.attname, format_type(a.atttypid, a.atttypmod), NOT a.attnotnull, a.attgenerated::text, "
                    "pg_get_expr(x.adbin, x.adrelid) FROM pg_attribute a JOIN pg_class c ON c.oid = a.attrelid JOIN "
                    "pg_namespace n ON n.oid = c.relnamespace LEFT JOIN pg_attrdef x ON x.adrelid = c.oid AND x.adnum = a.attnum "
                    "WHERE n.nspname = %s AND c.relname = %s AND a.attnum > 0 AND NOT a.attisdropped ORDER BY a.attnum",
                    (s, n)).fetchall():
                d["cols"].append(r[0]); d["types"].append(r[1]); d["null"].append(r[2])
                d["computed"].append(r[3] == "s"); d["defaults"].append(r[4])
            for r in self.execute(
                    "SELECT k.contype::text, (SELECT array_agg(a.attname::text ORDER BY u.o) FROM unnest(k.conkey) WITH ORDINALITY u(n, o) "
                    "JOIN pg_attribute a ON a.attrelid = k.conrelid AND a.attnum = u.n), fn.nspname, fc.relname, "
                    "(SELECT array_agg(a.attname::text ORDER BY u.o) FROM unnest(k.confkey) WITH ORDINALITY u(n, o) JOIN "
                    "pg_attribute a ON a.attrelid = k.confrelid AND a.attnum = u.n) FROM pg_constraint k JOIN pg_class c ON "
                    "c.oid = k.conrelid JOIN pg_namespace n ON n.oid = c.relnamespace LEFT JOIN pg_class fc ON fc.oid = k.confrelid "
                    "LEFT JOIN pg_namespace fn ON fn.oid = fc.relnamespace WHERE n.nspname = %s AND c.relname = %s ORDER BY k.conname",
                    (s, n)).fetchall():
                if r[0] == "p":
                    d["pk"] = r[1]
                elif r[0] == "f":
                    d["fks"].append({"cols": r[1], "dst": r[2] + "." + r[3], "dcols": r[4]})
            for (u,) in self.execute(              # unique constraints and unique indexes
                    "SELECT (SELECT array_agg(a.attname::text ORDER BY u.o) FROM unnest(i.indkey::int[]) WITH ORDINALITY u(n, o) "
                    "JOIN pg_attribute a ON a.attrelid = i.indrelid AND a.attnum = u.n) FROM pg_index i JOIN pg_class c ON "
                    "c.oid = i.indrelid JOIN pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = %s AND c.relname = %s "
                    "AND i.indisunique AND NOT i.indisprimary AND i.indpred IS NULL AND i.indexprs IS NULL", (s, n)).fetchall():
                if u not in d["uniq"]:
                    d["uniq"].append(u)
        else:
            for r in self.execute(
                    "SELECT column_name, column_type, is_nullable, extra, column_default, column_key FROM information_schema.columns "
                    "WHERE table_schema = %s AND table_name = %s ORDER BY ordinal_position", (s, n)).fetchall():
                d["cols"].append(r[0]); d["types"].append(r[1] if isinstance(r[1], str) else r[1].decode())
                d["null"].append(r[2] == "YES")
                d["computed"].append("GENERATED" in r[3] and "DEFAULT_GENERATED" not in r[3]); d["defaults"].append(r[4])
            keys = {}
            for r in self.execute(
                    "SELECT k.constraint_name, c.constraint_type, k.column_name, k.referenced_table_schema, k.referenced_table_name, "
                    "k.referenced_column_name FROM information_schema.key_column_usage k JOIN information_schema.table_constraints c "
                    "ON c.constraint_schema = k.constraint_schema AND c.constraint_name = k.constraint_name AND c.table_name = k.table_name "
                    "AND c.table_schema = k.table_schema WHERE k.table_schema = %s AND k.table_name = %s ORDER BY k.constraint_name, "
                    "k.ordinal_position", (s, n)).fetchall():
                keys.setdefault((r[1], r[0]), []).append(r)
            for (ty, _), rs in keys.items():
                cols = [r[2] for r in rs]
                if ty == "PRIMARY KEY":
                    d["pk"] = cols
                elif ty == "UNIQUE":
                    d["uniq"].append(cols)
                elif ty == "FOREIGN KEY":
                    d["fks"].append({"cols": cols, "dst": rs[0][3] + "." + rs[0][4], "dcols": [r[5] for r in rs]})
        d["uniq"].sort()
        d["fks"].sort(key=lambda f: (f["cols"], f["dst"], f["dcols"]))
        return d

    def next_key(self, t, col):
        """the key the engine would generate next (consumes it)"""
        s, n = split(t)
        if self.dialect == "postgres":
            r = self.execute("SELECT pg_get_serial_sequence(%s, %s)", (qtable("postgres", t), col)).fetchone()[0]
            if r is None:
                return None
            return self.execute("SELECT nextval(%s::regclass)", (r,)).fetchone()[0]
        return None
