exec(open("/tmp/plant/b9.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="c20-same-name-other-schema", property="C20",
 edits=[("metadata.py", "                if dst_table is not None and dst_table is not table:\n", "                if dst_table is not None and dst_table.name != table.name:\n")],
 needs="all foreign keys are inferred and the table that has the column is named like the one of another schema whose key it is",
 breaks="the relationship between the two is not inferred",
 demo='''
import os
a = db("a.db", "CREATE TABLE t (tid INTEGER PRIMARY KEY); INSERT INTO t VALUES (1),(2);")
b = db("b.db", "CREATE TABLE t (id INTEGER PRIMARY KEY, tid INT); INSERT INTO t VALUES (1,1),(2,2);")
from subsetter.config_model import SubsetterConfig
from subsetter.planner import Planner
cfg = SubsetterConfig.model_validate({"source": {"dialect": "sqlite", "database": a, "sqlite_databases": {"other": b}},
  "planner": {"select": ["main.*", "other.*"], "targets": {"main.t": {"all": True}}, "infer_foreign_keys": "all"}})
p = Planner(cfg.source, cfg.planner).plan()
check("other.t" in p.queries, list(p.queries))
'''),
dict(id="c21-refused-if-all-outside", property="C21",
 edits=[("planner.py", """            for foreign_key in table.foreign_keys:
                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) not in self.passthrough_tables:
""", """            for foreign_key in table.foreign_keys[-1:]:
                if (
                    foreign_key.dst_schema,
                    foreign_key.dst_table,
                ) not in self.passthrough_tables:
""")],
 needs="a passthrough table with several foreign keys of which only the last one refers to a passthrough table",
 breaks="the plan is accepted",
 demo='''
src = db("s.db", """CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE x (id INTEGER PRIMARY KEY);
CREATE TABLE k (id INTEGER PRIMARY KEY, x INT, p INT); INSERT INTO p VALUES (1); INSERT INTO x VALUES (1); INSERT INTO k VALUES (1,1,1);""")
E = [{"src_table": "main.k", "src_columns": [c], "dst_table": "main." + c, "dst_columns": ["id"]} for c in ("x", "p")]
for extra in (E, E[::-1]):
    try:
        plan(src, {"select": ["main.*"], "targets": {"main.x": {"amount": 1}}, "passthrough": ["main.k", "main.p"], "extra_fks": extra})
    except ValueError:
        continue
    check(False, "accepted")
'''),
dict(id="c04-all-with-amount", property="C04",
 edits=[("planner.py", "                    limit=None if target.all_ else target.amount,\n", "                    limit=target.amount,\n")],
 needs="a target with both 'all' and 'amount'",
 breaks="only 'amount' rows are selected",
 demo='''
src = db("s.db", "CREATE TABLE t (id INTEGER PRIMARY KEY); INSERT INTO t VALUES (1),(2),(3);")
dst = db("d.db", "CREATE TABLE t (id INTEGER PRIMARY KEY);")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True, "amount": 1}}}, {"output": to(dst)})
check(rows(dst, "SELECT count(*) FROM t") == [(3,)], rows(dst, "SELECT * FROM t"))
'''),
dict(id="c04-all-without-constraints", property="C04",
 edits=[("planner.py", """            if target.all_:
                target_constraints.clear()
            target_constraints.extend(conf_constraints_sql)
""", """            target_constraints.extend(conf_constraints_sql)
            if target.all_:
                target_constraints.clear()
""")],
 needs="a target with 'all' and table constraints",
 breaks="the table constraints are ignored",
 demo='''
src = db("s.db", "CREATE TABLE t (id INTEGER PRIMARY KEY, v INT); INSERT INTO t VALUES (1,1),(2,2),(3,1);")
dst = db("d.db", "CREATE TABLE t (id INTEGER PRIMARY KEY, v INT);")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}, "table_constraints": {"main.t": [{"column": "v", "operator": "=", "value": 1}]}}, {"output": to(dst)})
check(rows(dst, "SELECT count(*) FROM t") == [(2,)], rows(dst, "SELECT * FROM t"))
'''),
dict(id="c20-constraint-on-complete-target", property="C20",
 edits=[("planner.py", """        if conf_constraints and rev_foreign_keys:
""", """        if conf_constraints and rev_foreign_keys and not (target and target.all_):
""")],
 needs="a constraint on a target with 'all' to which another sampled table refers",
 breaks="the plan is accepted and its sample has references to rows that the constraint leaves out",
 demo='''
src = db("s.db", """CREATE TABLE p (id INTEGER PRIMARY KEY, v INT); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id));
INSERT INTO p VALUES (1,1),(2,2); INSERT INTO c VALUES (1,1),(2,2);""")
try:
    plan(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}, "main.c": {"all": True}}, "table_constraints": {"main.p": [{"column": "v", "operator": "=", "value": 1}]}})
except ValueError:
    pass
else:
    check(False, "accepted")
'''),
dict(id="c14-no-keys-to-existing", property="C14",
 edits=[("sampler.py", """                    if (
                        f"{referred_table.schema}.{referred_table.name}"
                        not in table_obj_map
                    ):
                        continue
""", """                    if (
                        table_obj_map.get(
                            f"{referred_table.schema}.{referred_table.name}"
                        )
                        not in tables_created
                    ):
                        continue
""")],
 needs="a table is created that refers to one that exists already",
 breaks="it is created without the foreign key",
 demo='''
src = db("s.db", "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id)); INSERT INTO p VALUES (1); INSERT INTO c VALUES (1,1);")
dst = db("d.db", "CREATE TABLE p (id INTEGER PRIMARY KEY);")
import subsetter.sampler as S, sqlalchemy as sa
made = []
orig = sa.MetaData.create_all
def create_all(self, *a, **k):
    made.extend(fk for t in self.tables.values() for fk in t.foreign_key_constraints)
    return orig(self, *a, **k)
sa.MetaData.create_all = create_all
run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}}, {"output": to(dst)}, create=True)
check(len(made) == 1, made)
'''),
dict(id="c17-missing-after-truncate", property="C17",
 edits=[("sampler.py", """        insert_order = output.insert_order()
        if truncate:
            output.truncate()
        output.prepare()
""", """        if truncate:
            output.truncate()
        output.prepare()
        insert_order = output.insert_order()
""")],
 needs="truncation into a destination that lacks one of the tables",
 breaks="the other tables are emptied before the run is refused",
 demo='''
src = db("s.db", "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id)); INSERT INTO p VALUES (1); INSERT INTO c VALUES (1,1);")
dst = db("d.db", "CREATE TABLE p (id INTEGER PRIMARY KEY); INSERT INTO p VALUES (7);")
try:
    run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}}, {"output": to(dst)}, truncate=True)
except ValueError:
    pass
check(rows(dst, "SELECT * FROM p") == [(7,)], rows(dst, "SELECT * FROM p"))
'''),
dict(id="c11-index-before-filters", property="C11",
 edits=[("sampler.py", """        multiplied_indexes = [
            ind
            for ind, col_name in enumerate(columns_out)
            if col_name in (column_multipliers or set())
        ]

        autoinc_index = -1
""", """        multiplied_indexes = [
            ind
            for ind, col_name in enumerate(columns)
            if col_name in (column_multipliers or set()) and col_name in columns_out
        ]

        autoinc_index = -1
""")],
 needs="multiplication of a table of which a filter leaves out a column before a multiplied one",
 breaks="another column than the right one is multiplied",
 demo='''
S = "CREATE TABLE t (x INT, id INTEGER PRIMARY KEY, v INT, w INT);"
src = db("s.db", S + "INSERT INTO t VALUES (5,1,7,8);")
dst = db("d.db", S)
try:
    run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst), "multiplicity": {"multiplier": 2}, "filters": {"main.t": [{"op": "omit", "columns": ["x"]}]}})
except Exception as exc:
    check(False, exc)
check(rows(dst, "SELECT id, v, w FROM t ORDER BY id") == [(2,7,8),(3,7,8)], rows(dst, "SELECT * FROM t"))
'''),
dict(id="c02-joined-twice", property="C02",
 edits=[("plan_model.py", "            if joined is not table_obj:\n", "            if joined is not table_obj and self.joins_outer:\n")],
 needs="a foreign key whose columns are unique in the referring table but not in the one referred to",
 breaks="a row is selected once for each row it refers to",
 demo='''
S = "CREATE TABLE p (id INTEGER PRIMARY KEY, g INT); CREATE TABLE c (id INTEGER PRIMARY KEY, v INT);"
src = db("s.db", S + "INSERT INTO p VALUES (1,1),(2,1),(3,2); INSERT INTO c VALUES (1,1),(2,2),(4,4);")
dst = db("d.db", "CREATE TABLE p (id INTEGER, g INT); CREATE TABLE c (id INTEGER, v INT);")
run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}, "extra_fks": [{"src_table": "main.c", "src_columns": ["id"], "dst_table": "main.p", "dst_columns": ["g"]}]}, {"output": to(dst)})
got = rows(dst, "SELECT id FROM c ORDER BY id")
check(got == [(1,), (2,)], got)
'''),
dict(id="c07-sampled-not-compared", property="C07",
 edits=[("plan_model.py", "            if statement.from_ != statement0.from_:\n",
  """            if (statement.from_.table_schema, statement.from_.table_name) != (
                statement0.from_.table_schema,
                statement0.from_.table_name,
            ):
""")],
 needs="a union of selections from a table and from the sample of that table",
 breaks="both select from the same of the two",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, v INT); CREATE TABLE u (id INTEGER PRIMARY KEY, v INT);"
from subsetter.plan_model import SQLStatementUnion
sel = lambda sampled, v: {"type": "select", "from": {"schema": "main", "table": "t", "sampled": sampled}, "where": {"type": "operator", "operator": "=", "column": "v", "value": v}}
import subsetter.plan_model as P
def sel(sampled, v):
    return P.SQLStatementSelect(type_="select", from_=P.SQLTableIdentifier(table_schema="main", table_name="t", sampled=sampled), where=P.SQLWhereClauseOperator(type_="operator", operator="=", column="v", value=v))
u = SQLStatementUnion(type_="union", statements=[sel(True, 1), sel(False, 2)]).simplify()
check(u.type_ == "union" and len(u.statements) == 2, u)
'''),
dict(id="c24-empty-password", property="C24",
 edits=[("common.py", """        if password is None:
            password = os""", """        if not password:
            password = os""")],
 needs="a password configured as empty while the environment has another one",
 breaks="the password of the environment is used",
 demo='''
import os
from subsetter.common import database_url
os.environ["SUBSET_SOURCE_PASSWORD"] = "secret"
u = database_url(dialect="mysql", env_prefix="SUBSET_SOURCE_", host="h", username="u", password="")
check(u.password in ("", None), u)
'''),
dict(id="c02-one-reference-up", property="C02",
 edits=[("planner.py", """            fk
            for fk in table.rev_foreign_keys
""", """            fk
            for fk in {
                (fk.dst_schema, fk.dst_table, fk.columns): fk
                for fk in table.rev_foreign_keys
            }.values()
""")],
 needs="a sampled table with two foreign keys to the same column of a table that is sampled as a union",
 breaks="rows are taken for one of the two foreign keys only",
 demo='''
S = "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE c (id INTEGER PRIMARY KEY, a INT REFERENCES p(id), b INT REFERENCES p(id));"
src = db("s.db", S + "INSERT INTO p VALUES (1),(2),(3); INSERT INTO c VALUES (1,1,2);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.c": {"all": True}}}, {"output": to(dst)})
got = rows(dst, "SELECT id FROM p ORDER BY id")
check(got == [(1,), (2,)], got)
'''),
dict(id="c10-largest-negative", property="C10",
 edits=[("sampler.py", "                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1\n",
  "                self.table_offsets[(schema, table_name)][pk_col.name] = (\n                    max(max_pk_val, 0) + 1\n                )\n")],
 needs="merging into a table that has only negative keys",
 breaks="its rows are not shifted by one more than the largest key",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY);"
src = db("s.db", S + "INSERT INTO t VALUES (10),(11);")
dst = db("d.db", S + "INSERT INTO t VALUES (-5);")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst, merge=True)})
got = rows(dst, "SELECT id FROM t ORDER BY id")
check(got == [(-5,), (6,), (7,)], got)
'''),
dict(id="c03-weighed-once", property="C03",
 edits=[("solver.py", "                    weight[u] += weight[v]\n                else:\n", "                    weight[u] = max(weight[u], weight[v])\n                else:\n")],
 needs="several tables that depend on one another along more than one way",
 breaks="tables are put in an order in which one has to be sampled along foreign keys in both directions",
 demo='''
from subsetter.solver import order_graph
import itertools
for names in itertools.permutations("abcd"):
    w, x, y, z = names
    G = {"": {w}, w: {x, y, z}, x: {z}, y: {x, z}, z: set()}
    for v in list(G):
        G[v] = set(G[v])
    order = order_graph({k: set(v) for k, v in G.items()}, "")
    pos = {v: i for i, v in enumerate(order)}
    for u in order[1:]:
        f = sum(1 for v in G if u in G[v] and pos[v] < pos[u])
        b = sum(1 for v in G[u] if pos[v] < pos[u])
        check((f == 0) != (b == 0), (order, u))
'''),
dict(id="c09-cut-references", property="C09",
 edits=[("sampler.py", "                                        isouter=True,\n", "                                        isouter=length == 1,\n")],
 needs="a compacted key that is referred to through a further foreign key by a column with nulls",
 breaks="rows whose reference is null are left out",
 demo='''
S = "CREATE TABLE a (id INTEGER PRIMARY KEY); CREATE TABLE b (id INTEGER PRIMARY KEY REFERENCES a(id)); CREATE TABLE c (id INTEGER PRIMARY KEY, b INT REFERENCES b(id));"
src = db("s.db", S + "INSERT INTO a VALUES (5); INSERT INTO b VALUES (5); INSERT INTO c VALUES (1,5),(2,NULL);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.a": {"all": True}, "main.c": {"all": True}}}, {"output": to(dst), "compact": {"columns": {"main.a": ["id"]}}})
got = rows(dst, "SELECT id, b FROM c ORDER BY id")
check(got == [(1, 1), (2, None)], got)
'''),
dict(id="c01-last-join-only", property="C01",
 edits=[("plan_model.py", "                stmt = stmt.where(sa.and_(*exists_constraints))\n", "                stmt = stmt.where(exists_constraints[-1])\n")],
 needs="an intersection along two foreign keys neither of which is unique on any side (or of a table without key)",
 breaks="only one of the two foreign keys restricts the sample",
 demo='''
S = "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE q (id INTEGER PRIMARY KEY); CREATE TABLE c (a INT REFERENCES p(id), b INT REFERENCES q(id));"
src = db("s.db", S + "INSERT INTO p VALUES (1),(2); INSERT INTO q VALUES (1),(2); INSERT INTO c VALUES (1,1),(1,2),(2,1),(2,2);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.p": {"in": {"id": [1]}}, "main.q": {"in": {"id": [1]}}}}, {"output": to(dst)})
got = rows(dst, "SELECT a, b FROM c")
check(got == [(1, 1)], got)
'''),
dict(id="c25-lists-joined", property="C25",
 edits=[("__main__.py", """            return result
        return rhs
""", """            return result
        if isinstance(lhs, list) and isinstance(rhs, list):
            return lhs + [value for value in rhs if value not in lhs]
        return rhs
""")],
 needs="two configuration files that both have a list under the same key",
 breaks="the lists are joined instead of the later one winning",
 demo='''
import subprocess, sys, os, yaml
src = db("s.db", "CREATE TABLE t (id INTEGER PRIMARY KEY); CREATE TABLE u (id INTEGER PRIMARY KEY); INSERT INTO t VALUES (1);")
a = os.path.join(ROOT, "a.yaml"); b = os.path.join(ROOT, "b.yaml")
yaml.safe_dump({"source": {"dialect": "sqlite", "database": src}, "planner": {"select": ["main.t", "main.u"], "targets": {"main.t": {"all": True}, "main.u": {"all": True}}}}, open(a, "w"))
yaml.safe_dump({"planner": {"select": ["main.t"]}}, open(b, "w"))
r = subprocess.run([sys.executable, "-B", "-m", "subsetter", "-c", a, "-c", b, "plan"], capture_output=True)
check(r.returncode != 0, r.stdout)
'''),
dict(id="c12-first-key-column", property="C12",
 edits=[("sampler.py", """    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
""", """    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
""")],
 needs="a row with a new key that clashes with an existing row in another unique column, to be replaced",
 breaks="the existing row, which has another key, is changed",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, u INT UNIQUE, v INT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,10,5);")
dst = db("d.db", S + "INSERT INTO t VALUES (7,10,0);")
try:
    run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst, conflict_strategy="replace")})
except Exception as exc:
    pass
got = rows(dst, "SELECT id, u, v FROM t ORDER BY id")
check(got == [(7, 10, 0)], got)
'''),
]
