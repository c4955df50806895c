PC = "CREATE TABLE p (id INTEGER PRIMARY KEY, n INT); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id), q INT);"
BUGS = [
dict(id="c01-keyless-first-column", property="C01",
 edits=[("plan_model.py", """                    exists_constraints.append(
                        sa.exists().where(
                            *(
                                table_obj.c[lft_col] == right.c[rht_col]
                                for lft_col, rht_col in zip(
                                    join.left_columns, join.right_columns
                                )
                            )
                        )
                    )
""", """                    lft_col, rht_col = join.left_columns[0], join.right_columns[0]
                    exists_constraints.append(
                        sa.exists().where(table_obj.c[lft_col] == right.c[rht_col])
                    )
""")],
 needs="a composite foreign key of a table that has no primary key (or into columns that are not known to be unique)",
 breaks="rows are kept that match a sampled row in the first column of the foreign key only",
 demo='''
S = "CREATE TABLE p (a INT, b INT, n INT, PRIMARY KEY (a, b)); CREATE TABLE c (x INT, y INT, FOREIGN KEY (x, y) REFERENCES p(a, b));"
src = db("s.db", S + "INSERT INTO p VALUES (1,1,1),(1,2,0); INSERT INTO c VALUES (1,1),(1,2);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.p": {"in": {"n": [1]}}}}, {"output": to(dst)})
got = rows(dst, "SELECT x, y FROM c")
check(got == [(1, 1)], got)
'''),
dict(id="c04-amount-zero", property="C04",
 edits=[("planner.py", """                    limit=None if target.all_ else target.amount,
""", """                    limit=None if target.all_ else target.amount or None,
""")],
 needs="a target with an amount of zero",
 breaks="every row is selected",
 demo='''
src = db("s.db", PC + "INSERT INTO p VALUES (1,1),(2,2); INSERT INTO c VALUES (1,2,0);")
dst = db("d.db", PC)
run(src, {"select": ["main.*"], "targets": {"main.c": {"all": True}, "main.p": {"amount": 0}}}, {"output": to(dst)})
got = rows(dst, "SELECT id FROM p")
check(got == [(2,)], got)
'''),
dict(id="c04-percent-zero", property="C04",
 edits=[("planner.py", """            if target.percent is not None:
""", """            if target.percent:
""")],
 needs="a target with a percentage of zero",
 breaks="every row is selected",
 demo='''
src = db("s.db", PC + "INSERT INTO p VALUES (1,1),(2,2); INSERT INTO c VALUES (1,2,0);")
dst = db("d.db", PC)
run(src, {"select": ["main.*"], "targets": {"main.c": {"all": True}, "main.p": {"percent": 0}}}, {"output": to(dst)})
got = rows(dst, "SELECT id FROM p")
check(got == [(2,)], got)
'''),
dict(id="c04-all-drops-constraints", property="C04",
 edits=[("planner.py", """            if target.all_:
                target_constraints.clear()
            target_constraints.extend(conf_constraints_sql)
""", """            target_constraints.extend(conf_constraints_sql)
            if target.all_:
                target_constraints.clear()
""")],
 needs="a target of all rows of a table that has table constraints",
 breaks="the table constraints are not applied",
 demo='''
src = db("s.db", PC + "INSERT INTO p VALUES (1,1),(2,2);")
dst = db("d.db", PC)
run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}, "table_constraints": {"main.p": [{"column": "n", "operator": ">", "value": 1}]}}, {"output": to(dst)})
got = rows(dst, "SELECT id FROM p")
check(got == [(2,)], got)
'''),
dict(id="c04-like-any", property="C04",
 edits=[("planner.py", """                target_constraints.extend(
                    SQLWhereClauseOperator(
                        type_="operator",
                        operator="like",
                        column=column,
                        value=pattern,
                    )
                    for pattern in patterns
                )
""", """                target_constraints.append(
                    SQLWhereClauseOr(
                        type_="or",
                        conditions=[
                            SQLWhereClauseOperator(
                                type_="operator",
                                operator="like",
                                column=column,
                                value=pattern,
                            )
                            for pattern in patterns
                        ],
                    )
                )
"""), ("planner.py", """    SQLWhereClauseOperator,
    SQLWhereClauseRandom,
""", """    SQLWhereClauseOperator,
    SQLWhereClauseOr,
    SQLWhereClauseRandom,
""")],
 needs="a target with several patterns for one column",
 breaks="rows that match only one of the patterns are selected",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, s TEXT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,'ab'),(2,'ax'),(3,'xb');")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.t": {"like": {"s": ["a%", "%b"]}}}}, {"output": to(dst)})
got = rows(dst, "SELECT id FROM t")
check(got == [(1,)], got)
'''),
dict(id="c05-copies-drawn-again", property="C05",
 edits=[("sampler.py", """                        meta.temp_tables[(schema, table_name, 0)].select(),
""", """                        table_q,
""")],
 needs="mysql, a randomly limited table that is referred to twice by one query",
 breaks="the copies of the materialised table are drawn again",
 demo='''
from subsetter.metadata import DatabaseMetadata
orig = DatabaseMetadata.from_engine.__func__
def from_engine(cls, *a, **k):
    meta, extra = orig(cls, *a, **k)
    meta.supports_temp_reopen = False  # as on mysql
    return meta, extra
DatabaseMetadata.from_engine = classmethod(from_engine)
S = "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id), q INT REFERENCES p(id));"
src = db("s.db", S + "".join(f"INSERT INTO p VALUES ({i});" for i in range(40)) + "".join(f"INSERT INTO c VALUES ({i},{i},{i});" for i in range(40)))
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.p": {"amount": 20}}}, {"output": to(dst)})
got = rows(dst, "SELECT count(*) FROM c WHERE p IN (SELECT id FROM p) AND q IN (SELECT id FROM p)")
check(got == [(20,)], got)
'''),
dict(id="c06-literals-as-numbers", property="C06",
 edits=[("common.py", """SQLLiteralType = Union[str, int, float]
""", """SQLLiteralType = Annotated[
    Union[int, float, str], Field(union_mode="left_to_right")
]
"""), ("common.py", """from pydantic import BaseModel, ConfigDict
""", """from pydantic import BaseModel, ConfigDict, Field
from typing_extensions import Annotated
""")],
 needs="a condition with a text that looks like a number but is not how that number is written",
 breaks="texts like '007' become the number 7",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, s TEXT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,'007'),(2,'7'),(3,'1e1');")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.t": {"in": {"s": ["007", "1e1"]}}}}, {"output": to(dst)})
got = rows(dst, "SELECT id FROM t ORDER BY id")
check(got == [(1,), (3,)], got)
'''),
dict(id="c07-negated-empty-in", property="C07",
 edits=[("plan_model.py", """        if isinstance(self.values, list):
            return self
        return SQLWhereClauseIn(
""", """        if isinstance(self.values, list):
            if not self.values:
                return SQLWhereClauseFalse(type_="false")
            return self
        return SQLWhereClauseIn(
""")],
 needs="a negated 'in' with an empty list",
 breaks="it is simplified to false although it is true",
 demo='''
from subsetter.plan_model import SQLWhereClauseIn
w = SQLWhereClauseIn(type_="in", columns=["id"], values=[], negated=True).simplify()
check(w.type_ != "false", w)
'''),
dict(id="c07-columns-not-compared", property="C07",
 edits=[("plan_model.py", """            if statement.from_ != statement0.from_:
                break
            if statement.columns != statement0.columns:
                break
            if statement.limit is not None:
                break
""", """            if statement.from_ != statement0.from_:
                break
            if statement.limit is not None:
                break
""")],
 needs="a union of different columns of one table",
 breaks="the union becomes a selection of the first column only",
 demo='''
from subsetter.plan_model import SQLStatementUnion
u = SQLStatementUnion.model_validate({"type": "union", "statements": [
 {"type": "select", "from": {"schema": "main", "table": "t"}, "columns": ["a"]}, {"type": "select", "from": {"schema": "main", "table": "t"}, "columns": ["b"]}]})
check(u.simplify().type_ == "union", u.simplify())
'''),
dict(id="c07-equal-conditions-once", property="C07",
 edits=[("plan_model.py", """        if any(
            isinstance(condition, SQLWhereClauseFalse) for condition in simp_conditions
        ):
            return SQLWhereClauseFalse(type_="false")
        if len(simp_conditions) == 0:
            return SQLWhereClauseTrue(type_="true")
""", """        simp_conditions = [
            condition
            for index, condition in enumerate(simp_conditions)
            if condition not in simp_conditions[:index]
        ]
        if SQLWhereClauseFalse(type_="false") in simp_conditions:
            return SQLWhereClauseFalse(type_="false")
        if not simp_conditions:
            return SQLWhereClauseTrue(type_="true")
""")],
 needs="two equal random conditions joined by 'and'",
 breaks="rows are selected with a higher probability than the query says",
 demo='''
from subsetter.plan_model import SQLWhereClauseAnd
half = {"type": "random", "threshold": 0.5}
w = SQLWhereClauseAnd.model_validate({"type": "and", "conditions": [half, half]}).simplify()
check(w.type_ == "and" and len(w.conditions) == 2, w)
'''),
dict(id="c08-one-lost-per-buffer", property="C08",
 edits=[("sampler.py", """                    [dict(zip(columns_out, row)) for row in buffer],
""", """                    [
                        dict(zip(columns_out, row))
                        for row in buffer[:DESTINATION_BUFFER_SIZE]
                    ],
""")],
 needs="a table of more than 1024 sampled rows",
 breaks="a row is lost each time the buffer is full",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY);"
src = db("s.db", S + "INSERT INTO t WITH RECURSIVE r(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM r WHERE i < 1100) SELECT i FROM r;")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst)})
got = rows(dst, "SELECT count(*) FROM t")
check(got == [(1100,)], got)
'''),
dict(id="c08-directory-appends", property="C08",
 edits=[("sampler.py", """        with open(output_path, "w", encoding="utf-8") as fdump:
""", """        with open(output_path, "a", encoding="utf-8") as fdump:
""")],
 needs="a second run into the same directory",
 breaks="the rows of the earlier run stay in the files",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY);"
src = db("s.db", S + "INSERT INTO t VALUES (1);")
out = os.path.join(ROOT, "out")
for _ in range(2):
    run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": {"mode": "directory", "directory": out}})
got = open(os.path.join(out, "main.t.json")).read().splitlines()
check(len(got) == 1, got)
'''),
dict(id="c09-explicit-lost", property="C09",
 edits=[("sampler.py", """                compact_columns.setdefault(table_key, set()).add(col.name)
""", """                compact_columns[table_key] = {col.name}
""")],
 needs="a table with explicitly compacted columns besides compaction of primary keys",
 breaks="the explicitly listed columns are not compacted",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT);"
src = db("s.db", S + "INSERT INTO t VALUES (5,50),(9,90);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst), "compact": {"primary_keys": True, "columns": {"main.t": ["n"]}}})
got = rows(dst, "SELECT id, n FROM t ORDER BY id")
check(got == [(1, 1), (2, 2)], got)
'''),
dict(id="c10-passthrough-replaced", property="C10",
 edits=[("sampler.py", """        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:
            conflict_strategy = "skip"
""", """        if (
            self.merge
            and conflict_strategy == "error"
            and f"{src_schema}.{src_table_name}" in self.passthrough_tables
        ):
            conflict_strategy = "skip"
""")],
 needs="merging with strategy replace, a passthrough table, and a row of it that differs at the destination",
 breaks="existing rows of passthrough tables are changed",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT); CREATE TABLE k (id INTEGER PRIMARY KEY, n INT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,1); INSERT INTO k VALUES (1,1),(2,2);")
dst = db("d.db", S + "INSERT INTO k VALUES (1,100);")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}, "passthrough": ["main.k"]}, {"output": to(dst, merge=True, conflict_strategy="replace")})
got = rows(dst, "SELECT id, n FROM k ORDER BY id")
check(got == [(1, 100), (2, 2)], got)
'''),
dict(id="c11-whole-composite", property="C11",
 edits=[("sampler.py", """                    cols.update(
                        col
                        for col, dst_col in zip(fk.columns, fk.dst_columns)
                        if dst_col in dst_mapped
                    )
""", """                    if dst_mapped.intersection(fk.dst_columns):
                        cols.update(fk.columns)
""")],
 needs="a composite foreign key of which only some columns refer to multiplied columns",
 breaks="columns are multiplied that refer to columns that are not, so the reference dangles",
 demo='''
S = "CREATE TABLE p (a INT, b INT, PRIMARY KEY (a, b)); CREATE TABLE c (id INTEGER PRIMARY KEY, x INT, y INT, FOREIGN KEY (x, y) REFERENCES p(a, b));"
src = db("s.db", S + "INSERT INTO p VALUES (1,5),(2,6); INSERT INTO c VALUES (1,1,5),(2,2,6);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}}, {"output": to(dst), "multiplicity": {"multiplier": 2, "ignore_primary_key_columns": {"main.p": ["b"]}}})
got = rows(dst, "SELECT x, y FROM c ORDER BY x")
check(got == [(2, 5), (3, 5), (4, 6), (5, 6)], got)
'''),
dict(id="c11-ignored-refers", property="C11",
 edits=[("sampler.py", """                if cols and table_name in ignore_tables:
""", """                if cols and table_name in plan.passthrough:
""")],
 needs="a table that is not to be multiplied and refers to a multiplied one",
 breaks="it is accepted, and the references of the table dangle or name another row",
 demo='''
import signal
signal.alarm(60)
src = db("s.db", PC + "INSERT INTO p VALUES (1,1),(2,2); INSERT INTO c VALUES (1,1,0),(2,2,0);")
dst = db("d.db", PC)
try:
    run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}}, {"output": to(dst), "multiplicity": {"multiplier": 2, "ignore_tables": ["main.c"]}})
except Exception:
    sys.exit(0)
check(False, "accepted")
'''),
dict(id="c12-replace-unwritten", property="C12",
 edits=[("sampler.py", """        self.non_pk_columns = set(columns)
""", """        self.non_pk_columns = {col.name for col in table.columns if not col.computed}
""")],
 needs="strategy replace, a column of the destination that is not written, and a row whose key exists",
 breaks="columns that are not written are reset to null or their default",
 demo='''
src = db("s.db", "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT); INSERT INTO t VALUES (1,1);")
dst = db("d.db", "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT, more INT); INSERT INTO t VALUES (1,7,7);")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst, conflict_strategy="replace")})
got = rows(dst, "SELECT id, n, more FROM t")
check(got == [(1, 1, 7)], got)
'''),
dict(id="c13-direct-only", property="C13",
 edits=[("metadata.py", """        for schema, table in table_queue:
            table_obj = metadata_obj.tables[f"{schema}.{table}"]
            for ref_schema, ref_table in table_deps[(schema, table)]:
""", """        for schema, table in table_queue if close_forward else list(table_queue):
            for ref_schema, ref_table in table_deps[(schema, table)]:
""")],
 needs="truncation, and a destination table that refers to a sampled one through another table only",
 breaks="tables that refer to sampled tables indirectly are not emptied",
 demo='''
S = "CREATE TABLE a (id INTEGER PRIMARY KEY);"
D = S + """CREATE TABLE b (id INTEGER PRIMARY KEY, a INT REFERENCES a(id)); CREATE TABLE c (id INTEGER PRIMARY KEY, b INT REFERENCES b(id));
INSERT INTO a VALUES (1); INSERT INTO b VALUES (1,1); INSERT INTO c VALUES (1,1);"""
src = db("s.db", S + "INSERT INTO a VALUES (2);")
dst = db("d.db", D)
run(src, {"select": ["main.*"], "targets": {"main.a": {"all": True}}}, {"output": to(dst)}, truncate=True)
check(rows(dst, "SELECT * FROM b") == [] and rows(dst, "SELECT * FROM c") == [], "rows left")
'''),
dict(id="c14-key-to-existing", property="C14",
 edits=[("sampler.py", """                    referred_table = constraint.referred_table
                    if (
                        f"{referred_table.schema}.{referred_table.name}"
                        not in table_obj_map
                    ):
                        continue
""", """                    referred_table = constraint.referred_table
                    if (
                        table_obj_map.get(
                            f"{referred_table.schema}.{referred_table.name}"
                        )
                        not in tables_created
                    ):
                        continue
""")],
 needs="creation of a table that refers to one that already exists at the destination",
 breaks="the foreign key is not created",
 demo='''
src = db("s.db", PC + "INSERT INTO p VALUES (1,1); INSERT INTO c VALUES (1,1,0);")
dst = db("d.db", "CREATE TABLE p (id INTEGER PRIMARY KEY, n INT);")
from subsetter.sampler import sa
made = []
orig = sa.ForeignKeyConstraint.__init__
import subsetter.sampler as m
class FK(sa.ForeignKeyConstraint):
    def __init__(self, columns, refcolumns, **kw):
        made.append([str(c) for c in refcolumns])
        kw.pop("use_alter", None)
        super().__init__(columns, refcolumns, **kw)
p = plan(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}})
from subsetter.config_model import SubsetterConfig
from subsetter.metadata import DatabaseMetadata
cfg = SubsetterConfig.model_validate({"source": {"dialect": "sqlite", "database": src}, "sampler": {"output": to(dst)}})
meta, _ = DatabaseMetadata.from_engine(cfg.source.database_engine(), list(p.queries))
sa.ForeignKeyConstraint, keep = FK, sa.ForeignKeyConstraint
try:
    out = m.SamplerOutput.from_config(cfg.sampler.output, p, meta)
finally:
    sa.ForeignKeyConstraint = keep
out.create()
fks = [sorted(e.target_fullname for e in fk.elements) for fk in out.meta.tables[("main", "c")].table_obj.foreign_key_constraints]
check(fks == [["main.p.id"]], fks)
'''),
dict(id="c14-generic-types", property="C14",
 edits=[("sampler.py", """                        col.name,
                        col.type,
                        nullable=col.nullable,
""", """                        col.name,
                        col.type.as_generic(allow_nulltype=True),
                        nullable=col.nullable,
""")],
 needs="a created table with a column whose type only its engine has (or has in a narrower form)",
 breaks="columns get a more general type than in the source",
 demo='''
src = db("s.db", "CREATE TABLE t (id INTEGER PRIMARY KEY, r REAL, s SMALLINT, n NUMERIC(10,3)); INSERT INTO t VALUES (1,2.5,3,3.25);")
dst = db("d.db", "")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst)}, create=True)
t = [r[2] for r in rows(src, "PRAGMA table_info(t)")], [r[2] for r in rows(dst, "PRAGMA table_info(t)")]
check([x.replace(" ", "") for x in t[0]] == [x.replace(" ", "") for x in t[1]], t)
'''),
dict(id="c15-first-rule-only", property="C15",
 edits=[("sampler.py", """        for remap_pattern in self.remap:
            table = re.sub(remap_pattern.search, remap_pattern.replace, table)
        return parse_table_name(table)
""", """        for remap_pattern in self.remap:
            if re.search(remap_pattern.search, table):
                table = re.sub(remap_pattern.search, remap_pattern.replace, table)
                break
        return parse_table_name(table)
""")],
 needs="several remap rules of which a later one applies to the result of an earlier one",
 breaks="only the first rule that matches is applied",
 demo='''
src = db("s.db", "CREATE TABLE t (id INTEGER PRIMARY KEY); INSERT INTO t VALUES (1);")
dst = db("d.db", "CREATE TABLE u (id INTEGER PRIMARY KEY); CREATE TABLE v (id INTEGER PRIMARY KEY);")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst, remap=[{"search": "t$", "replace": "u"}, {"search": "u$", "replace": "v"}])})
check(rows(dst, "SELECT * FROM v") == [(1,)], "not written to v")
'''),
dict(id="c17-first-filter-only", property="C17",
 edits=[("sampler.py", """            FilterViewChain.construct_filter(
                tuple(column.name for column in tbl.table_obj.columns),
                filters,
            )
""", """            for filter_config in filters:
                filter_config.construct_filter(
                    tuple(column.name for column in tbl.table_obj.columns)
                )
""")],
 needs="a filter on a column that an earlier filter of the same table omits, and truncation",
 breaks="the filters are only refused after the destination was emptied",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,1);")
dst = db("d.db", S + "INSERT INTO t VALUES (5,5);")
try:
    run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst), "filters": {"main.t": [{"op": "omit", "columns": ["n"]}, {"op": "null", "columns": ["n"]}]}}, truncate=True)
    check(False, "accepted")
except ValueError:
    pass
check(rows(dst, "SELECT * FROM t") == [(5, 5)], rows(dst, "SELECT * FROM t"))
'''),
dict(id="c17-missing-after-truncate", property="C17",
 edits=[("sampler.py", """        insert_order = output.insert_order()
        if truncate:
            output.truncate()
        output.prepare()
""", """        if truncate:
            output.truncate()
        insert_order = output.insert_order()
        output.prepare()
""")],
 needs="truncation, and a sampled table that is missing at the destination",
 breaks="the destination is emptied before the run is refused",
 demo='''
src = db("s.db", PC + "INSERT INTO p VALUES (1,1);")
dst = db("d.db", "CREATE TABLE p (id INTEGER PRIMARY KEY, n INT); INSERT INTO p VALUES (5,5);")
try:
    run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}}, {"output": to(dst)}, truncate=True)
    check(False, "accepted")
except ValueError:
    pass
check(rows(dst, "SELECT * FROM p") == [(5, 5)], rows(dst, "SELECT * FROM p"))
'''),
dict(id="c19-columns-before-omit", property="C19",
 edits=[("filters.py", """        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = filter_view.columns_out
""", """        for filter_config in filter_configs:
            filter_view = filter_config.construct_filter(cols_out, filter_context=filter_context)  # type: ignore
            cols_out = tuple(sorted(filter_view.columns_out, key=cols_in.index))
            filter_view.columns_out = cols_out if filter_view is None else filter_view.columns_out
""")],
 needs="-", breaks="-", demo="check(True, '')"),
dict(id="c19-boundary", property="C19",
 edits=[("filters.py", """            return value <= self.value
""", """            return not value > self.value + 0 if isinstance(value, float) else value < self.value
""")],
 needs="a multiplex condition '<=' on a whole number that equals the limit",
 breaks="the alternative is not applied to rows at the limit",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,1),(2,2);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst), "filters": {"main.t": [{"op": "multiplex", "column": "id", "conditions": [{"op": "<=", "value": 1, "apply": {"op": "null", "columns": ["n"]}}]}]}})
got = rows(dst, "SELECT id, n FROM t ORDER BY id")
check(got == [(1, None), (2, 2)], got)
'''),
dict(id="c19-zero-in-place", property="C19",
 edits=[("filters.py", """            elif isinstance(value, str):
                yield ""
            elif isinstance(value, int):
                yield 0
""", """            elif isinstance(value, str):
                yield value[:0]
            elif isinstance(value, int) and value > 0:
                yield 0
            elif isinstance(value, int):
                yield value
""")],
 needs="a zero filter over a negative whole number",
 breaks="the source value of a filtered column reaches the output",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,-5);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst), "filters": {"main.t": [{"op": "zero", "columns": ["n"]}]}})
got = rows(dst, "SELECT n FROM t")
check(got == [(0,)], got)
'''),
dict(id="c20-ignore-by-name", property="C20",
 edits=[("planner.py", """                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
""", """                if fk.dst_table != dst_table_name
""")],
 needs="two schemas with tables of the same name, a table that refers to both, one of the references ignored",
 breaks="the reference to the other table is ignored too",
 demo='''
import sqlite3
from subsetter.planner import Planner
from subsetter.metadata import ForeignKey
src = db("s.db", "CREATE TABLE c (id INTEGER PRIMARY KEY, p INT, q INT);CREATE TABLE p (id INTEGER PRIMARY KEY);")
two = db("t.db", "CREATE TABLE p (id INTEGER PRIMARY KEY);")
from subsetter.config_model import SubsetterConfig
cfg = SubsetterConfig.model_validate({"source": {"dialect": "sqlite", "database": src, "sqlite_databases": {"two": two}}, "planner": {"select": ["main.*", "two.*"], "targets": {"main.p": {"all": True}}, "ignore_fks": [{"src_table": "main.c", "dst_table": "main.p"}]}})
pl = Planner(cfg.source, cfg.planner)
from subsetter.metadata import DatabaseMetadata
pl.meta, _ = DatabaseMetadata.from_engine(pl.engine, ["main.*", "two.*"])
t = pl.meta.tables[("main", "c")]
t.foreign_keys = [ForeignKey(("p",), "main", "p", ("id",)), ForeignKey(("q",), "two", "p", ("id",))]
pl._remove_ignore_fks()
check([fk.dst_schema for fk in t.foreign_keys] == ["two"], t.foreign_keys)
'''),
dict(id="c20-inferred-once-per-column", property="C20",
 edits=[("metadata.py", """            fks = set(table.foreign_keys)
""", """            fk_columns = {col for fk in table.foreign_keys for col in fk.columns}
"""), ("metadata.py", """                    if fk not in fks:
""", """                    if col.name not in fk_columns:
""")],
 needs="a column with a declared foreign key to one table and the name of the primary key of another",
 breaks="the second relationship is not inferred",
 demo='''
S = "CREATE TABLE p (pid INTEGER PRIMARY KEY); CREATE TABLE q (id INTEGER PRIMARY KEY, u INT UNIQUE); CREATE TABLE c (id2 INTEGER PRIMARY KEY, pid INT REFERENCES q(u));"
src = db("s.db", S)
p = plan(src, {"select": ["main.*"], "targets": {"main.c": {"all": True}}, "infer_foreign_keys": "schema"})
check("main.p" in p.queries, list(p.queries))
'''),
dict(id="c21-remapped-passthrough-shifted", property="C21",
 edits=[("sampler.py", """            if source_table in self.passthrough_tables:
                continue

            schema, table_name = self._remap_table(*parse_table_name(source_table))
            self.table_offsets[(schema, table_name)] = {}
""", """            schema, table_name = self._remap_table(*parse_table_name(source_table))
            if f"{schema}.{table_name}" in self.passthrough_tables:
                continue

            self.table_offsets[(schema, table_name)] = {}
""")],
 needs="merging, and a passthrough table that is remapped",
 breaks="the keys of the passthrough table are shifted",
 demo='''
src = db("s.db", "CREATE TABLE t (id INTEGER PRIMARY KEY); CREATE TABLE k (id INTEGER PRIMARY KEY); INSERT INTO t VALUES (1); INSERT INTO k VALUES (1),(2);")
dst = db("d.db", "CREATE TABLE t (id INTEGER PRIMARY KEY); CREATE TABLE k2 (id INTEGER PRIMARY KEY); INSERT INTO k2 VALUES (1);")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}, "passthrough": ["main.k"]}, {"output": to(dst, merge=True, remap=[{"search": "k$", "replace": "k2"}])})
got = rows(dst, "SELECT id FROM k2 ORDER BY id")
check(got == [(1,), (2,)], got)
'''),
dict(id="c24-verify-needs-root", property="C24",
 edits=[("common.py", """                elif server_verify == "cert":
                    sslmode = "verify-ca"
""", """                elif server_verify == "cert" and server_rootcert:
                    sslmode = "verify-ca"
""")],
 needs="postgres, verification of the certificate, and no root certificate configured",
 breaks="the certificate is not verified",
 demo='''
from subsetter.common import DatabaseConfig
c = DatabaseConfig.model_validate({"dialect": "postgres", "ssl": {"require": True, "server": {"verify": "cert"}}})
a = c.ssl.get_connect_args("postgres", env_prefix="NONE_")
check(a.get("sslmode") == "verify-ca", a)
'''),
dict(id="c24-port-from-environment", property="C24",
 edits=[("common.py", """        port = port or int(os.getenv(f"{env_prefix}PORT", "0"))
""", """        port = int(os.getenv(f"{env_prefix}PORT", "0")) or port
""")],
 needs="a port that is configured and another one in the environment",
 breaks="the environment wins over the configuration",
 demo='''
from subsetter.common import DatabaseConfig
os.environ["SUBSET_SOURCE_PORT"] = "1111"
u = DatabaseConfig.model_validate({"dialect": "postgres", "port": 2222}).database_url(env_prefix="SUBSET_SOURCE_")
check(u.port == 2222, u)
'''),
dict(id="c25-null-does-not-win", property="C25",
 edits=[("__main__.py", """                if key in result:
                    result[key] = _dict_merge(result[key], val)
                else:
                    result[key] = val
            return result
        return rhs
""", """                result[key] = _dict_merge(result.get(key), val)
            return result
        return lhs if rhs is None else rhs
""")],
 needs="a later file that sets a key to null",
 breaks="the value of the earlier file stays",
 demo='''
import subsetter.__main__ as m, types
a = os.path.join(ROOT, "a.yaml"); b = os.path.join(ROOT, "b.yaml")
open(a, "w").write("source: {dialect: sqlite, isolation_level: SERIALIZABLE}")
open(b, "w").write("source: {isolation_level: null}")
c = m._get_config(types.SimpleNamespace(config=[a, b], verbose=0))
check(c.source.isolation_level is None and c.source.dialect == "sqlite", c)
'''),
dict(id="c26-created-or-truncated", property="C26",
 edits=[("sampler.py", """        if truncate:
            output.truncate()
""", """        if truncate and not create:
            output.truncate()
""")],
 needs="a second run with both creation and truncation",
 breaks="the tables are not emptied",
 demo='''
S = "CREATE TABLE t (id INT, n INT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,1);")
dst = db("d.db", "")
for _ in range(2):
    run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst)}, create=True, truncate=True)
check(rows(dst, "SELECT * FROM t") == [(1, 1)], rows(dst, "SELECT * FROM t"))
'''),
dict(id="c27-limit-zero", property="C27",
 edits=[("plan_model.py", """        if self.limit is not None:
            # pylint: disable=not-callable
""", """        if self.limit:
            # pylint: disable=not-callable
""")],
 needs="a plan with a limit of zero",
 breaks="every row is selected",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY);"
src = db("s.db", S + "INSERT INTO t VALUES (1);")
dst = db("d.db", S)
sample(src, make_plan({"queries": {"main.t": {"statement": {"type": "select", "from": {"schema": "main", "table": "t"}, "limit": 0}}}}), {"output": to(dst)})
check(rows(dst, "SELECT * FROM t") == [], "rows")
'''),
]
