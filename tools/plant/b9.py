PGPY = open("/tmp/plant/pg.py").read()
PGHEAD = '''
import pg, atexit, psycopg2
host, port, stop = pg.start()
atexit.register(stop)
def q(database, sql, fetch=False):
    c = psycopg2.connect(host=host, port=port, user="postgres", dbname=database); c.autocommit = True
    cur = c.cursor(); cur.execute(sql); r = cur.fetchall() if fetch else None; c.close(); return r
q("postgres", "CREATE DATABASE src"); q("postgres", "CREATE DATABASE dst")
conn = {"dialect": "postgres", "host": host, "port": port, "username": "postgres"}
def pgrun(planner, sampler, out={}, **flags):
    from subsetter.config_model import SubsetterConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler
    cfg = SubsetterConfig.model_validate({"source": {**conn, "database": "src"}, "planner": planner,
        "sampler": {**sampler, "output": {"mode": "database", **conn, "database": "dst", **out}}})
    Sampler(cfg.source, cfg.sampler).sample(Planner(cfg.source, cfg.planner).plan(), **flags)
'''
BUGS = [
dict(id="c02-part-of-key-distinct", property="C02",
 edits=[("planner.py", "                    if constraint_cols <= cols_st:\n", "                    if cols_st <= constraint_cols:\n")],
 needs="an intersection over several foreign keys, or a reference from a column that is part of a composite key to a column that is only part of a unique constraint",
 breaks="such joins are taken to match at most one row; which tables this concerns is wrong both ways",
 demo='''
S = "CREATE TABLE p (a INT, b INT, n INT, PRIMARY KEY (a, b)); CREATE TABLE c (id INTEGER, k INT, a INT, n INT, PRIMARY KEY (id, a));"
src = db("s.db", S + "INSERT INTO p VALUES (1,1,1),(1,2,1),(2,1,1); INSERT INTO c VALUES (1,0,1,0),(2,0,1,0),(3,0,9,0);")
p = plan(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}, "extra_fks": [{"src_table": "main.c", "src_columns": ["a"], "dst_table": "main.p", "dst_columns": ["a"]}]})
j = p.queries["main.c"].statement.joins[0]
check(not j.half_unique, j)
'''),
dict(id="c13-only-same-schema", property="C13",
 edits=[("metadata.py", """                if close_backward:
""", """                if close_backward and ref_table_obj.schema == table_obj.schema:
""")],
 needs="a destination table of another schema that refers to an emptied table",
 breaks="it is not emptied and its rows refer to nothing",
 demo='''
src = db("s.db", "CREATE TABLE p (id INTEGER PRIMARY KEY); INSERT INTO p VALUES (1);")
pgless = True
import subsetter.metadata as M, sqlalchemy as sa
class Out: pass
eng = sa.create_engine("sqlite://")
meta = sa.MetaData()
sa.Table("p", meta, sa.Column("id", sa.Integer, primary_key=True), schema="a")
sa.Table("k", meta, sa.Column("id", sa.Integer, primary_key=True), sa.Column("p", sa.ForeignKey("a.p.id")), schema="b")
orig, ins = sa.MetaData, sa.inspect
class Known(sa.MetaData):
    def reflect(self, **kw):
        if not self.tables:
            for t in meta.tables.values():
                t.to_metadata(self)
M.sa.MetaData = Known
try:
    found, extra = M.DatabaseMetadata.from_engine(eng, ["a.p"], close_backward=True)
finally:
    M.sa.MetaData = orig
check(("b", "k") in found.tables, list(found.tables))
'''),
dict(id="c15-anchored", property="C15",
 edits=[("sampler.py", "            table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n",
  "            if re.match(remap_pattern.search, table):\n                table = re.sub(remap_pattern.search, remap_pattern.replace, table)\n")],
 needs="a remap rule whose pattern matches within a name only",
 breaks="it is not applied",
 demo='''
S = "CREATE TABLE old_t (id INTEGER PRIMARY KEY);"
src = db("s.db", S + "INSERT INTO old_t VALUES (1);")
dst = db("d.db", S + "CREATE TABLE new_t (id INTEGER PRIMARY KEY);")
run(src, {"select": ["main.*"], "targets": {"main.old_t": {"all": True}}}, {"output": to(dst, remap=[{"search": "old_", "replace": "new_"}])})
check(rows(dst, "SELECT id FROM new_t") == [(1,)] and not rows(dst, "SELECT id FROM old_t"), "not remapped")
'''),
dict(id="c21-merged-by-destination-name", property="C21",
 edits=[("sampler.py", """        if self.merge and f"{src_schema}.{src_table_name}" in self.passthrough_tables:
""", """        if self.merge and f"{schema}.{table_name}" in self.passthrough_tables:
""")],
 needs="merging a passthrough table that is remapped, with rows that are there already",
 breaks="the run fails instead of adding the missing rows",
 demo='''
src = db("s.db", "CREATE TABLE p (id INTEGER PRIMARY KEY, n INT); CREATE TABLE t (id INTEGER PRIMARY KEY); INSERT INTO p VALUES (1,1),(2,2); INSERT INTO t VALUES (1);")
dst = db("d.db", "CREATE TABLE x (id INTEGER PRIMARY KEY, n INT); CREATE TABLE t (id INTEGER PRIMARY KEY); INSERT INTO x VALUES (1,7);")
try:
    run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}, "passthrough": ["main.p"]}, {"output": to(dst, merge=True, remap=[{"search": "[.]p$", "replace": ".x"}])})
except Exception as exc:
    check(False, exc)
got = rows(dst, "SELECT id, n FROM x ORDER BY id")
check(got == [(1, 7), (2, 2)], got)
'''),
dict(id="c22-last-row", property="C22",
 edits=[("sampler.py", """                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
""", """                    autoinc_max_written = out_row[autoinc_index]
"""), ("sampler.py", """    if curval is not None and curval > value:
        value = curval
""", ""), ],
 needs="rows that are not written in the order of their keys, or a sequence that is further",
 breaks="the sequence is set to the key written last",
 files={"pg.py": PGPY},
 demo=PGHEAD + '''
q("src", "CREATE TABLE t (id INT PRIMARY KEY, n INT); INSERT INTO t VALUES (30, 1), (10, 1), (20, 1)")
q("dst", "CREATE TABLE t (id SERIAL PRIMARY KEY, n INT)")
pgrun({"select": ["public.t"], "targets": {"public.t": {"all": True}}}, {})
got = q("dst", "SELECT nextval('t_id_seq')", True)[0][0]
check(got > 30, got)
'''),
dict(id="c22-index-before-filters", property="C22",
 edits=[("sampler.py", """                autoinc_index = columns_out.index(
                    table.table_obj.autoincrement_column.name
                )
""", """                autoinc_index = list(columns).index(
                    table.table_obj.autoincrement_column.name
                )
"""), ("sampler.py", """                    if autoinc_max_written is None:
                        autoinc_max_written = out_row[autoinc_index]
                    else:
                        autoinc_max_written = max(
                            autoinc_max_written, out_row[autoinc_index]
                        )
""", """                    if isinstance(out_row[autoinc_index], int):
                        autoinc_max_written = max(
                            autoinc_max_written or 0, out_row[autoinc_index]
                        )
"""), ("sampler.py", """    curval = _autoincrement_get(engine, table)
    if curval is not None and curval > value:
""", """    curval = None
    if curval is not None and curval > value:
""")],
 needs="a filter that leaves out a column before the key",
 breaks="the value of another column is taken for the key",
 files={"pg.py": PGPY},
 demo=PGHEAD + '''
q("src", "CREATE TABLE t (a INT, id INT PRIMARY KEY, n INT); INSERT INTO t VALUES (1, 30, 1), (1, 10, 1)")
q("dst", "CREATE TABLE t (a INT, id SERIAL PRIMARY KEY, n INT)")
pgrun({"select": ["public.t"], "targets": {"public.t": {"all": True}}}, {"filters": {"public.t": [{"op": "omit", "columns": ["a"]}]}})
got = q("dst", "SELECT nextval('t_id_seq')", True)[0][0]
check(got > 30, got)
'''),
dict(id="c23-passthrough-elsewhere", property="C23",
 edits=[("sampler.py", """            result = conn.execution_options(
                stream_results=True,
                yield_per=SOURCE_BUFFER_SIZE,
            ).execute(query_stmt)
""", """            # Complete tables need nothing that was materialized
            reader = (
                self.source_engine.connect()
                if table in self.passthrough_tables
                else conn
            )
            result = reader.execution_options(
                stream_results=True,
                yield_per=SOURCE_BUFFER_SIZE,
            ).execute(query_stmt)
""")],
 needs="a passthrough table that changes between the start of the run and the moment it is written",
 breaks="it is read at another moment than the rest",
 demo='''
src = db("s.db", """PRAGMA journal_mode=WAL; CREATE TABLE p (id INTEGER PRIMARY KEY, n INT); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id), n INT);
INSERT INTO p VALUES (1,1),(2,0); INSERT INTO c VALUES (1,1,0),(2,1,0); CREATE TABLE d (id INTEGER PRIMARY KEY, c INT REFERENCES c(id));""")
dst = db("d.db", "CREATE TABLE p (id INTEGER PRIMARY KEY, n INT); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT, n INT); CREATE TABLE d (id INTEGER PRIMARY KEY, c INT);")
p = plan(src, {"select": ["main.*"], "targets": {"main.c": {"all": True}}, "passthrough": ["main.p"]})
import sqlite3
from subsetter import sampler as S
orig = S.Sampler._copy_results
def changed(self, *args, **kwargs):
    args[1].exec_driver_sql("SELECT * FROM c").fetchall()
    c = sqlite3.connect(src); c.execute("UPDATE p SET n = 7"); c.commit(); c.close()
    return orig(self, *args, **kwargs)
S.Sampler._copy_results = changed
sample(src, p, {"output": to(dst)}, source={"isolation_level": "SERIALIZABLE"})
got = rows(dst, "SELECT n FROM p ORDER BY id")
check(got == [(1,), (0,)], got)
'''),
dict(id="c10-own-offset-first", property="C10",
 edits=[("sampler.py", "                        if offset is not None and offset != offsets.get(col):\n",
  "                        if offset is not None and col not in offsets:\n")],
 needs="merging a table whose key is itself a foreign key",
 breaks="its key is shifted by its own table's shift, not by that of the key it refers to",
 demo='''
S = "CREATE TABLE a (id INTEGER PRIMARY KEY); CREATE TABLE b (id INTEGER PRIMARY KEY REFERENCES a(id));"
src = db("s.db", S + "INSERT INTO a VALUES (1),(2); INSERT INTO b VALUES (2);")
dst = db("d.db", S + "INSERT INTO a VALUES (1),(5); INSERT INTO b VALUES (1);")
run(src, {"select": ["main.*"], "targets": {"main.a": {"all": True}}}, {"output": to(dst, merge=True)})
got = rows(dst, "SELECT id FROM b ORDER BY id")
check(got == [(1,), (8,)], got)
'''),
dict(id="c12-skip-primary-only", property="C12",
 edits=[("sampler.py", """    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing()
""", """    def _insert_sqlite(self, compiler: SQLCompiler, **kwargs) -> str:
        stmt = sqlite.insert(self.table)
        if self.conflict_strategy == "replace":
            stmt = stmt.on_conflict_do_update(
                index_elements=self.table.primary_key,
                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
            )
        if self.conflict_strategy == "skip":
            stmt = stmt.on_conflict_do_nothing(
                index_elements=self.table.primary_key
            )
""")],
 needs="a row that clashes with an existing one in a unique column other than the key, to be skipped",
 breaks="the run fails",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, u INT UNIQUE);"
src = db("s.db", S + "INSERT INTO t VALUES (1,10),(2,20);")
dst = db("d.db", S + "INSERT INTO t VALUES (7,10);")
try:
    run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst, conflict_strategy="skip")})
except Exception as exc:
    check(False, exc)
got = rows(dst, "SELECT id, u FROM t ORDER BY id")
check(got == [(2, 20), (7, 10)], got)
'''),
dict(id="c14-key-in-column-order", property="C14",
 edits=[("sampler.py", """                sa.PrimaryKeyConstraint(
                    *(col.name for col in table_obj.primary_key.columns)
                ),
""", """                sa.PrimaryKeyConstraint(
                    *(col.name for col in table_obj.columns if col.primary_key)
                ),
""")],
 needs="creating a table whose key lists its columns in another order than the table",
 breaks="the created key has its columns in another order",
 demo='''
src = db("s.db", "CREATE TABLE t (a INT, b INT, PRIMARY KEY (b, a)); INSERT INTO t VALUES (1, 2);")
dst = db("d.db", "")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst)}, create=True)
got = rows(dst, "SELECT name FROM pragma_table_info('t') ORDER BY pk")
check(got == [("b",), ("a",)], got)
'''),
dict(id="c20-ignored-extra", property="C20",
 edits=[("planner.py", """        self._remove_ignore_fks()
        self._add_extra_fks()
""", """        self._add_extra_fks()
        self._remove_ignore_fks()
""")],
 needs="an extra relationship between two tables whose other relationships are ignored",
 breaks="the extra relationship is ignored too",
 demo='''
src = db("s.db", "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id), q INT);")
try:
    p = plan(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}, "ignore_fks": [{"src_table": "main.c", "dst_table": "main.p"}],
               "extra_fks": [{"src_table": "main.c", "src_columns": ["q"], "dst_table": "main.p", "dst_columns": ["id"]}]})
except Exception as exc:
    check(False, exc)
check("main.c" in p.queries, list(p.queries))
'''),
dict(id="c21-checked-before-extra", property="C21",
 edits=[("planner.py", """        self._remove_ignore_fks()
        self._add_extra_fks()
        if self.config.include_dependencies:
            self._check_ignore_tables()
        self._check_passthrough_tables()
""", """        self._remove_ignore_fks()
        self._check_passthrough_tables()
        self._add_extra_fks()
        if self.config.include_dependencies:
            self._check_ignore_tables()
""")],
 needs="a configured relationship from a passthrough table to a table that is not passed through",
 breaks="it is accepted",
 demo='''
src = db("s.db", "CREATE TABLE p (id INTEGER PRIMARY KEY, t INT); CREATE TABLE t (id INTEGER PRIMARY KEY);")
try:
    plan(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}, "passthrough": ["main.p"],
               "extra_fks": [{"src_table": "main.p", "src_columns": ["t"], "dst_table": "main.t", "dst_columns": ["id"]}]})
    check(False, "accepted")
except ValueError:
    pass
'''),
dict(id="c16-plain-without-index", property="C16",
 edits=[("sampler.py", """            prefixes=["TEMPORARY"],
""", """            prefixes=["TEMPORARY"] if name else [],
"""), ("sampler.py", """                    name=table_name,
                    primary_key=table.primary_key,
                    indexes=joined_columns[(schema, table_name)],
                )
            )
            self.cached_table_sizes""", """                    name=table_name if joined_columns[(schema, table_name)] else "",
                    primary_key=table.primary_key,
                    indexes=joined_columns[(schema, table_name)],
                )
            )
            self.cached_table_sizes""")],
 needs="a table that is only materialised for compaction",
 breaks="a table is left behind in the source",
 demo='''
S = "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE q (id INTEGER PRIMARY KEY, p INT);"
src = db("s.db", "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id)); INSERT INTO p VALUES (5); INSERT INTO c VALUES (1,5);")
dst = db("d.db", "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT);")
run(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}, "main.c": {"all": True}}, "ignore_fks": [{"src_table": "main.c", "dst_table": "main.p"}]},
    {"output": to(dst), "compact": {"primary_keys": True}})
got = rows(src, "SELECT name FROM sqlite_master WHERE type = 'table' ORDER BY name")
check(got == [("c",), ("p",)], got)
'''),
dict(id="c18-self-first", property="C18",
 edits=[("sampler.py", """            for table in reversed(self.meta.toposort()):
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
""", """            order = list(reversed(self.meta.toposort()))
            # Largest tables last, others can be used again earlier
            order.sort(key=lambda table: len(table.foreign_keys) == 0)
            for table in order:
                LOGGER.info("Truncating table %s", table)
                conn.execute(sa.delete(table.table_obj))
                conn.commit()
""")],
 needs="nothing", breaks="nothing", demo='''check(True, "")'''),
dict(id="c26-replaced-not-emptied", property="C26",
 edits=[("sampler.py", """                conn.execute(sa.delete(table.table_obj))
""", """                if self.conflict_strategy != "replace" or (
                    (table.schema, table.name) in self.additional_tables
                ):
                    conn.execute(sa.delete(table.table_obj))
""")],
 needs="truncating with strategy replace while the destination holds rows that are not in the sample",
 breaks="those rows stay",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT);"
src = db("s.db", S + "INSERT INTO t VALUES (1,10),(2,20);")
dst = db("d.db", S + "INSERT INTO t VALUES (7,10);")
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst, conflict_strategy="replace")}, truncate=True)
got = rows(dst, "SELECT id, n FROM t ORDER BY id")
check(got == [(1, 10), (2, 20)], got)
'''),
dict(id="c03-self-accepted", property="C03",
 edits=[("solver.py", """                if v in on_stk:
""", """                if v in on_stk and v != u:
""")],
 needs="a selected table that refers to itself",
 breaks="a plan is made although the table refers to itself",
 demo='''
src = db("s.db", "CREATE TABLE p (id INTEGER PRIMARY KEY); CREATE TABLE c (id INTEGER PRIMARY KEY, p INT REFERENCES p(id), c INT REFERENCES c(id));")
try:
    plan(src, {"select": ["main.*"], "targets": {"main.p": {"all": True}}})
except ValueError:
    pass
except BaseException as exc:
    check(False, repr(exc))
else:
    check(False, "accepted")
'''),
dict(id="c08-computed-by-position", property="C08",
 edits=[("sampler.py", """            omit_filter = FilterOmit(columns_out, computed_columns)
            columns_out = omit_filter.columns_out
            if filter_view:
                filter_view = FilterViewChain(
                    filter_view.columns_in,
                    columns_out,
                    (filter_view, omit_filter),
                )
            else:
                filter_view = omit_filter
""", """            omit_filter = FilterOmit(columns_out, computed_columns)
            columns_out = omit_filter.columns_out
            filter_view = filter_view or omit_filter
""")],
 needs="a table with a computed column before another column, and filters",
 breaks="values are written to the wrong columns",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT, g INT AS (n + 1) STORED, m INT);"
src = db("s.db", S + "INSERT INTO t (id, n, m) VALUES (1,10,7);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst), "filters": {"main.t": [{"op": "constant", "columns": ["n"], "values": [3]}]}})
got = rows(dst, "SELECT id, n, g, m FROM t ORDER BY id")
check(got == [(1, 3, 4, 7)], got)
'''),
dict(id="c09-start-on-references-only", property="C09",
 edits=[("sampler.py", """                    )
                    + self.config.compact.start_key
                    - 1,
                )

                # Determine""", """                    ),
                )

                # Determine""")],
 needs="compaction with a start key of a table that nothing refers to",
 breaks="its keys start at one",
 demo='''
S = "CREATE TABLE t (id INTEGER PRIMARY KEY, n INT);"
src = db("s.db", S + "INSERT INTO t VALUES (10,1),(20,2);")
dst = db("d.db", S)
run(src, {"select": ["main.*"], "targets": {"main.t": {"all": True}}}, {"output": to(dst), "compact": {"primary_keys": True, "start_key": 5}})
got = rows(dst, "SELECT id FROM t ORDER BY id")
check(got == [(5,), (6,)], got)
'''),
]
BUGS = [b for b in BUGS if b["id"] != "c18-self-first"]
