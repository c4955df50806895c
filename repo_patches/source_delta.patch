From ad0d97f9b75d38bc4217e75f7606a7fb98186d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 01/47] fix: keep joins when simplifying a union of selects

A target that other sampled tables refer to lost its joins, and with them every
restriction, when its two selections were merged into one.
---
 subsetter/plan_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eaa86ff..ebd0890 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -367,6 +367,8 @@ class SQLStatementUnion(BaseModel):
                 break
             if statement.limit is not None:
                 break
+            if statement.joins:
+                break
         else:
             return SQLStatementSelect(
                 type_="select",
-- 
2.43.0


From acf5333ef0bd0c03d126b55851a7f389685105c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 02/47] fix: allow limited selects within a union on sqlite

---
 subsetter/plan_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index ebd0890..2ac83f0 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -342,7 +342,14 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
-        return sa.union(*(statement.build(context) for statement in self.statements))
+        selects = []
+        for statement in self.statements:
+            select = statement.build(context)
+            if statement.limit is not None:
+                # Not every dialect accepts ORDER BY/LIMIT directly within a UNION
+                select = sa.select(select.subquery())
+            selects.append(select)
+        return sa.union(*selects)
 
     def simplify(self) -> "SQLStatement":
         simp_statements = [
-- 
2.43.0


From c808adbc2f00c2e80b5b08f653b892722c2c04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 03/47] fix: let a target's 'all' override 'amount'

References from sampled tables are dropped for such a target because all of
its rows are expected to be sampled.
---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 66b17e3..7bc317a 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -435,7 +435,7 @@ class Planner:
                         table_name=table.name,
                     ),
                     where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
-                    limit=target.amount,
+                    limit=None if target.all_ else target.amount,
                 )
             )
 
-- 
2.43.0


From 862f6771119bfc30a433f00d731e8e351096db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 04/47] fix: multiply foreign key columns by the columns they
 refer to

The foreign key's own column names were compared with the names of the
multiplied columns of the table it refers to.
---
 subsetter/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6333ea8..f06358e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1137,7 +1137,11 @@ class Sampler:
                 start_len = len(cols)
                 for fk in table.foreign_keys:
                     dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
-                    cols.update(set(fk.columns) & dst_mapped)
+                    cols.update(
+                        col
+                        for col, dst_col in zip(fk.columns, fk.dst_columns)
+                        if dst_col in dst_mapped
+                    )
 
                 if cols and table_name in ignore_tables:
                     raise ValueError(
-- 
2.43.0


From 77ad36d78ccd0234a73e49a39c3a7b68c552104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 05/47] fix: do not fail planning on foreign keys to unselected
 tables

With include_dependencies turned off a selected table may refer to a table that
was not selected.
---
 subsetter/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6bcb932..6a8c77c 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -182,7 +182,10 @@ class DatabaseMetadata:
     def compute_reverse_keys(self) -> None:
         for table in self.tables.values():
             for fk in table.foreign_keys:
-                self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
+                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None:
+                    continue
+                dst_table.rev_foreign_keys.append(
                     ForeignKey(
                         columns=fk.dst_columns,
                         dst_schema=table.schema,
-- 
2.43.0


From 954774b87a6d7ddfe8ace2e99f996ff5335fadc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 06/47] fix: create tables with foreign keys to tables that are
 not sampled

---
 subsetter/sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f06358e..ab0e2d6 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -539,6 +539,12 @@ class DatabaseOutput(SamplerOutput):
                         sa.CheckConstraint(constraint.sqltext)
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
+                    referred_table = constraint.referred_table
+                    if (
+                        f"{referred_table.schema}.{referred_table.name}"
+                        not in table_obj_map
+                    ):
+                        continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
-- 
2.43.0


From 1fd062d9a4abd02d2d9e65c3a79ff2ded4b71b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 07/47] fix: merge tables with foreign keys to tables that are
 not sampled

---
 subsetter/sampler.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ab0e2d6..0d6e0e4 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -471,12 +471,8 @@ class DatabaseOutput(SamplerOutput):
             for fk in src_table.foreign_keys:
                 if len(fk.columns) != 1:
                     continue
-                if (
-                    fk.dst_columns
-                    != self.source_meta.tables[
-                        (fk.dst_schema, fk.dst_table)
-                    ].primary_key
-                ):
+                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                     continue
                 offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                 if offset is not None:
-- 
2.43.0


From 68cff2fe7e011c6f2916dfc827fb72ea1c00e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 08/47] fix: allow a primary key column to be omitted from the
 output

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 0d6e0e4..f0eaa64 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -176,7 +176,7 @@ class ConflictInsert(Executable, ClauseElement):
             self.conflict_strategy = "error"
         else:
             for column in self.table.primary_key:
-                self.non_pk_columns.remove(column.name)
+                self.non_pk_columns.discard(column.name)
             if self.conflict_strategy == "replace" and not self.non_pk_columns:
                 # If there are no other columns outside of the primary key the replace
                 # strategy is meaningless and we should just skip.
-- 
2.43.0


From 2718dafd2e30c264d4a67d054a65cc25b32e4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 09/47] fix: replace only written columns on conflict on sqlite

Columns that are not part of the output (omitted, computed or only present in
the destination) were reset or made the statement fail.
---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f0eaa64..5b51873 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -219,7 +219,7 @@ class ConflictInsert(Executable, ClauseElement):
         if self.conflict_strategy == "replace":
             stmt = stmt.on_conflict_do_update(
                 index_elements=self.table.primary_key,
-                set_=stmt.excluded,  # type: ignore
+                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
             )
         if self.conflict_strategy == "skip":
             stmt = stmt.on_conflict_do_nothing()
-- 
2.43.0


From f87e11f2dd987f49534d1a32f235e5e8e87f4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 10/47] fix: refuse an invalid compaction before the
 destination is changed

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5b51873..ee0f050 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -736,6 +736,7 @@ class Sampler:
         self._validate_filters(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
+        self.compact_columns = self._get_compact_columns(meta)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
         if create:
@@ -745,7 +746,6 @@ class Sampler:
             output.truncate()
         output.prepare()
 
-        self.compact_columns = self._get_compact_columns(meta)
         with self.source_engine.execution_options().connect() as conn:
             self._materialize_tables(meta, conn, plan)
             self._copy_results(
-- 
2.43.0


From 5ddf16ee92f8c8c64e44a1a707edeb93e60b6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 11/47] fix: check explicitly compacted columns against foreign
 keys

The check was skipped if neither primary_keys nor auto_increment_keys was set.
---
 subsetter/sampler.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ee0f050..1146690 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -777,14 +777,11 @@ class Sampler:
             else:
                 compact_columns[table_key] = set(cols)
 
-        if (
-            not self.config.compact.primary_keys
-            and not self.config.compact.auto_increment_keys
-        ):
-            return compact_columns
-
+        compact_keys = (
+            self.config.compact.primary_keys or self.config.compact.auto_increment_keys
+        )
         for table_key, table_meta in meta.tables.items():
-            if len(table_meta.primary_key) != 1:
+            if not compact_keys or len(table_meta.primary_key) != 1:
                 continue
             if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
                 continue
-- 
2.43.0


From d665128e5e8ae195a11c3f0932125f62ea4fe16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 12/47] fix: fail if a sampled table is missing from the
 destination

Such tables were silently left out of the output.
---
 subsetter/sampler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 1146690..a189ab1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -594,6 +594,14 @@ class DatabaseOutput(SamplerOutput):
         return parse_table_name(table)
 
     def insert_order(self) -> List[str]:
+        missing_tables = sorted(
+            table
+            for table in self.table_remap
+            if parse_table_name(table) not in self.meta.tables
+        )
+        if missing_tables:
+            raise ValueError(f"Destination is missing expected tables {missing_tables}")
+
         result = []
         insert_order_mapped = [str(table) for table in self.meta.toposort()]
         for table in insert_order_mapped:
-- 
2.43.0


From 722020305eb35e433e23c6c4bd146e377ead799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 13/47] fix: use the default sampler configuration if the
 section is left out

---
 subsetter/__main__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index d18eb16..0d5263a 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -6,7 +6,11 @@ from typing import Any
 
 import yaml
 
-from subsetter.config_model import DatabaseOutputConfig, SubsetterConfig
+from subsetter.config_model import (
+    DatabaseOutputConfig,
+    SamplerConfig,
+    SubsetterConfig,
+)
 from subsetter.plan_model import SubsetPlan
 from subsetter.planner import Planner
 from subsetter.sampler import Sampler
@@ -192,7 +196,7 @@ def _main_sample(args):
         )
         sys.exit(1)
 
-    Sampler(config.source, config.sampler).sample(
+    Sampler(config.source, config.sampler or SamplerConfig()).sample(
         plan,
         truncate=args.truncate,
         create=args.create,
@@ -208,7 +212,7 @@ def _main_subset(args):
         sys.exit(1)
 
     plan = Planner(config.source, config.planner).plan()
-    Sampler(config.source, config.sampler).sample(
+    Sampler(config.source, config.sampler or SamplerConfig()).sample(
         plan,
         truncate=args.truncate,
         create=args.create,
-- 
2.43.0


From df3fe1e0a5a46c6f72768d63fb154e118b488c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 14/47] fix: create a missing output directory

---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index a189ab1..5dd3213 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -352,6 +352,9 @@ class DirectoryOutput(SamplerOutput):
         self.plan = plan
         self.source_meta = source_meta
 
+    def prepare(self) -> None:
+        os.makedirs(self.directory, exist_ok=True)
+
     def insert_order(self) -> List[str]:
         return list(self.plan.queries)
 
-- 
2.43.0


From b6cf5f4feabeaaac5b699053a1e4e965c5a724bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 15/47] fix: apply table constraints to targets

Table constraints were silently ignored for tables that are targets.
---
 subsetter/planner.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 7bc317a..b31af91 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -284,6 +284,16 @@ class Planner:
         assert not foreign_keys or not rev_foreign_keys
         assert target or foreign_keys or rev_foreign_keys
 
+        conf_constraints = self.config.table_constraints.get(
+            f"{table.schema}.{table.name}", []
+        )
+        conf_constraints_sql: List[SQLWhereClause] = []
+        if conf_constraints and rev_foreign_keys:
+            raise ValueError(
+                f"Cannot apply table constraints to {table} without violating "
+                "foreign key constraints of previously sampled tables",
+            )
+
         # If we're a target we can only have reverse foreign key constraints.
         # If we're selecting all rows we can just ignore them.
         if target:
@@ -341,16 +351,6 @@ class Planner:
                 )
             )
 
-        conf_constraints = self.config.table_constraints.get(
-            f"{table.schema}.{table.name}", []
-        )
-        conf_constraints_sql: List[SQLWhereClause] = []
-        if conf_constraints and rev_foreign_keys:
-            raise ValueError(
-                f"Cannot apply table constraints to {table} without violating "
-                "foreign key constraints of previously sampled tables",
-            )
-
         for conf_constraint in conf_constraints:
             if conf_constraint.column not in table.table_obj.columns:
                 raise ValueError(
@@ -426,6 +426,7 @@ class Planner:
 
             if target.all_:
                 target_constraints.clear()
+            target_constraints.extend(conf_constraints_sql)
 
             statements.append(
                 SQLStatementSelect(
-- 
2.43.0


From 0863ed03654b0505d8318e3e0e4e9d298d785370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 16/47] fix: sample the configured percentage on sqlite

random() is a 64-bit integer in sqlite, so that any percentage selected half of
the rows.
---
 subsetter/plan_model.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 2ac83f0..63546c3 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -3,6 +3,8 @@ from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
 from pydantic import BaseModel, ConfigDict, Field
+from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.sql.functions import FunctionElement
 from typing_extensions import Annotated
 
 from subsetter.common import SQLKnownOperator, SQLLiteralType
@@ -13,6 +15,25 @@ from subsetter.common import SQLKnownOperator, SQLLiteralType
 SQLBuildContext = Callable[["SQLTableIdentifier"], sa.Table]
 
 
+class _RandomUnit(FunctionElement):  # pylint: disable=too-many-ancestors
+    """A random number drawn uniformly from [0, 1) for each row"""
+
+    name = "random_unit"
+    type = sa.Float()
+    inherit_cache = True
+
+
+@compiles(_RandomUnit)
+def _compile_random_unit(_element, compiler, **kwargs):
+    return compiler.process(sa.func.random(), **kwargs)
+
+
+@compiles(_RandomUnit, "sqlite")
+def _compile_random_unit_sqlite(_element, _compiler, **_kwargs):
+    # random() is a signed 64-bit integer in sqlite
+    return "(random() / 18446744073709551616.0 + 0.5)"
+
+
 class SQLTableIdentifier(BaseModel):
     table_schema: str = Field(..., alias="schema")
     table_name: str = Field(..., alias="table")
@@ -189,8 +210,7 @@ class SQLWhereClauseRandom(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        # pylint: disable=not-callable
-        return sa.func.random() < self.threshold
+        return _RandomUnit() < self.threshold
 
     def simplify(self) -> "SQLWhereClause":
         if self.threshold <= 0:
-- 
2.43.0


From bb54b9db6bf3b5b2e1f36ad20a867794eb2d237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 17/47] fix: never move a postgresql sequence backwards or miss
 it

The last value of a sequence was asked for in a new session, where it is not
defined, so that a sequence ahead of the sampled keys was set back; keys already
present in the table were not considered, and names that need quoting failed.
---
 subsetter/sampler.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5dd3213..16363c1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -243,33 +243,33 @@ def _autoincrement_needs_updating(engine) -> bool:
 
 def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
     """
-    Get the current auto-increment state.
+    Get the current auto-increment state; this is the last value generated or
+    the largest value present in the table if that is greater.
     """
     if not _autoincrement_needs_updating(engine) or table.autoincrement_column is None:
         return None
     assert engine.dialect.name == "postgresql"
 
-    try:
-        with engine.connect() as conn:
-            result = conn.execute(
-                sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
-                {
-                    "tab": f"{table.schema}.{table.name}",
-                    "col": table.autoincrement_column.name,
-                },
-            )
-            row = next(iter(result), None)
-            return row[0] if row else None
-    except sa.exc.OperationalError as exc:
-        if "not yet defined in this session" not in str(exc):
-            raise
-        return None
+    with engine.connect() as conn:
+        last_value = conn.scalar(
+            sa.text(
+                "SELECT pg_sequence_last_value(pg_get_serial_sequence(:tab, :col)::regclass)"
+            ),
+            {
+                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "col": table.autoincrement_column.name,
+            },
+        )
+        max_value = conn.scalar(sa.select(sa.func.max(table.autoincrement_column)))
+    return max(
+        (value for value in (last_value, max_value) if value is not None), default=None
+    )
 
 
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
     """
     Update the auto-increment state to ensure the next generated value is greater
-    than value.
+    than value and never less than it was before.
     """
     if (
         not _autoincrement_needs_updating(engine)
@@ -281,13 +281,15 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
 
     curval = _autoincrement_get(engine, table)
     if curval is not None and curval > value:
+        value = curval
+    if value < 1:
         return
 
     with engine.connect() as conn:
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": f"{table.schema}.{table.name}",
+                "tab": engine.dialect.identifier_preparer.format_table(table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From 6edbdb00a3d67abc3372c7e0d5d2f05c4b4162a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 18/47] fix: compact composite foreign keys by the row they
 refer to

---
 subsetter/sampler.py | 60 +++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 16363c1..2047dbc 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -21,7 +21,7 @@ from subsetter.config_model import (
     SamplerConfig,
 )
 from subsetter.filters import FilterOmit, FilterView, FilterViewChain
-from subsetter.metadata import DatabaseMetadata
+from subsetter.metadata import DatabaseMetadata, ForeignKey
 from subsetter.plan_model import SQLLeftJoin, SQLTableIdentifier
 from subsetter.planner import SubsetPlan
 from subsetter.solver import toposort
@@ -980,11 +980,7 @@ class Sampler:
                     if dst_col in self.compact_columns.get(
                         (fk.dst_schema, fk.dst_table), set()
                     ):
-                        remote_compact_cols[src_col] = (
-                            fk.dst_schema,
-                            fk.dst_table,
-                            dst_col,
-                        )
+                        remote_compact_cols[src_col] = fk
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
@@ -1007,33 +1003,45 @@ class Sampler:
                 # pre-materialized table.
                 cols: List[sa.ColumnElement] = []
                 select_from: sa.FromClause = subq
+                joined_fks: Dict[ForeignKey, sa.FromClause] = {}
                 joined_tables = set()
                 for col in src_table.table_obj.columns:
                     if col.name in compact_cols:
                         cols.append(id_col.label(col.name))
                     elif col.name in remote_compact_cols:
-                        dst_schema, dst_table_name, dst_col = remote_compact_cols[
-                            col.name
-                        ]
-                        dst_table = build_ctx(
-                            SQLTableIdentifier(
-                                table_schema=dst_schema,
-                                table_name=dst_table_name,
-                                sampled=True,
+                        # Join once per foreign key on all of its columns so that
+                        # exactly the row that is referred to is found.
+                        fk = remote_compact_cols[col.name]
+                        if fk not in joined_fks:
+                            dst_table = build_ctx(
+                                SQLTableIdentifier(
+                                    table_schema=fk.dst_schema,
+                                    table_name=fk.dst_table,
+                                    sampled=True,
+                                )
+                            )
+                            if dst_table in joined_tables:
+                                dst_table = dst_table.alias()
+                            else:
+                                joined_tables.add(dst_table)
+                            joined_fks[fk] = dst_table
+                            select_from = sa.join(
+                                select_from,
+                                dst_table,
+                                sa.and_(
+                                    *(
+                                        subq.columns[fk_col] == dst_table.columns[dst_col]
+                                        for fk_col, dst_col in zip(
+                                            fk.columns, fk.dst_columns
+                                        )
+                                    )
+                                ),
+                                isouter=True,
                             )
-                        )
-                        if dst_table in joined_tables:
-                            dst_table = dst_table.alias()
-                        else:
-                            joined_tables.add(dst_table)
                         cols.append(
-                            dst_table.columns[SUBSETTER_COMPACT_COLUMN].label(col.name)
-                        )
-                        select_from = sa.join(
-                            select_from,
-                            dst_table,
-                            subq.columns[col.name] == dst_table.columns[dst_col],
-                            isouter=True,
+                            joined_fks[fk]
+                            .columns[SUBSETTER_COMPACT_COLUMN]
+                            .label(col.name)
                         )
                     else:
                         cols.append(subq.columns[col.name])
-- 
2.43.0


From a4a0f157b9fec392b08e5101a09e0491be4d6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 19/47] fix: compact tables that refer to themselves on mysql

---
 subsetter/sampler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 2047dbc..f8c4870 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -850,7 +850,9 @@ class Sampler:
                 key = (fk.dst_schema, fk.dst_table)
                 compact_cols = self.compact_columns.get(key, set())
                 if any(col in compact_cols for col in fk.dst_columns):
-                    counter[key] = counter.get(key, 0) + 1
+                    # A table that refers to itself is also read at the same time
+                    counter.setdefault(key, int(key == parse_table_name(table)))
+                    counter[key] += 1
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -966,7 +968,11 @@ class Sampler:
 
             build_ctx = meta.sql_build_context()
             if (schema, table_name, 0) in meta.temp_tables:
-                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
+                query_stmt = build_ctx(
+                    SQLTableIdentifier(
+                        table_schema=schema, table_name=table_name, sampled=True
+                    )
+                ).select()
             else:
                 query_stmt = query.build(build_ctx)
 
-- 
2.43.0


From 770d93d15d0c1c89fd02d1bd9aa36a3654c04d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 20/47] fix: keep missing values of JSON columns

---
 subsetter/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f8c4870..6f92994 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -655,6 +655,11 @@ class DatabaseOutput(SamplerOutput):
             else:
                 filter_view = omit_filter
 
+        # Write missing values as NULL instead of as the JSON value 'null'
+        for column in table.table_obj.columns:
+            if isinstance(column.type, sa.JSON) and column.nullable:
+                column.type.none_as_null = True
+
         offsets = None
         if table_offsets := self.table_offsets.get((schema, table_name)):
             offsets = [
-- 
2.43.0


From ef902ff30f347368bec79a09da81271e6ebd5a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 21/47] fix: verify the server certificate on mysql as
 configured

---
 subsetter/common.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 43e29b8..f76f544 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
@@ -144,12 +145,12 @@ class DatabaseConfig(BaseModel):
                     "cert": client_cert,
                 }
                 result = {key: value for key, value in result.items() if value}
-                if server_verify == "identity":
-                    result["verify_identity"] = True
-                elif server_verify == "cert":
-                    result["verify_cert"] = True
-                else:
-                    result["verify_cert"] = False
+                result["check_hostname"] = server_verify == "identity"
+                if server_verify in ("cert", "identity"):
+                    result["verify_mode"] = True
+                    if not server_rootcert:
+                        # pymysql skips verification if it is given no authorities
+                        result["capath"] = ssl.get_default_verify_paths().openssl_capath
                 return {"ssl": result}
 
             raise ValueError("Dialect does not support ssl")
-- 
2.43.0


From 49199d5fbc8b7d6ed6109aa116d1ccd486de0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 22/47] fix: honour a dialect given by the environment for all
 settings

---
 subsetter/common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index f76f544..914a282 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -185,9 +185,13 @@ class DatabaseConfig(BaseModel):
         self,
         env_prefix: Optional[str] = None,
     ) -> sa.engine.Engine:
+        dialect = self.dialect
+        if dialect is None and env_prefix is not None:
+            dialect = os.getenv(f"{env_prefix}DIALECT", None) or None  # type: ignore
+
         if self.isolation_level:
             isolation_level = self.isolation_level
-        elif self.dialect == "sqlite":
+        elif dialect == "sqlite":
             isolation_level = "SERIALIZABLE"
         else:
             isolation_level = "READ COMMITTED"
@@ -197,7 +201,7 @@ class DatabaseConfig(BaseModel):
             isolation_level=isolation_level,
             pool_pre_ping=True,
             connect_args=self.ssl.get_connect_args(
-                self.dialect or DEFAULT_DIALECT,
+                dialect or DEFAULT_DIALECT,
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
@@ -207,7 +211,7 @@ class DatabaseConfig(BaseModel):
         def _set_session_sqls(dbapi_connection, _):
             cursor = dbapi_connection.cursor()
             try:
-                if self.dialect == "sqlite":
+                if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
-- 
2.43.0


From e4f53aadea95230a782edada779cd0722028bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 23/47] fix: let explicitly empty connection settings override
 the environment

---
 subsetter/common.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 914a282..d99474d 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -42,9 +42,12 @@ def database_url(
         dialect = dialect or os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
         host = host or os.getenv(f"{env_prefix}HOST", "localhost")
         port = port or int(os.getenv(f"{env_prefix}PORT", "0"))
-        database = database or os.getenv(f"{env_prefix}DATABASE", None)
-        username = username or os.getenv(f"{env_prefix}USERNAME", None)
-        password = password or os.getenv(f"{env_prefix}PASSWORD", None)
+        if database is None:
+            database = os.getenv(f"{env_prefix}DATABASE", None)
+        if username is None:
+            username = os.getenv(f"{env_prefix}USERNAME", None)
+        if password is None:
+            password = os.getenv(f"{env_prefix}PASSWORD", None)
 
     if dialect is None:
         dialect = DEFAULT_DIALECT
-- 
2.43.0


From 94e169338d3c6f1eeebb62ba0df21f903df06184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 24/47] fix: refuse unknown connection and filter settings

---
 subsetter/common.py       | 14 +++++++++-----
 subsetter/config_model.py | 13 +++++++------
 subsetter/filters.py      |  6 +++++-
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index d99474d..0b9f12f 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -4,7 +4,7 @@ import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
-from pydantic import BaseModel
+from pydantic import BaseModel, ConfigDict
 
 DatabaseDialect = Literal[
     "mysql",
@@ -88,13 +88,17 @@ IsolationLevel = Literal[
 ]
 
 
-class DatabaseConfig(BaseModel):
-    class SSLConfig(BaseModel):
-        class SSLClientConfig(BaseModel):
+class ForbidBaseModel(BaseModel):
+    model_config = ConfigDict(extra="forbid")
+
+
+class DatabaseConfig(ForbidBaseModel):
+    class SSLConfig(ForbidBaseModel):
+        class SSLClientConfig(ForbidBaseModel):
             cert: Optional[str] = None
             key: Optional[str] = None
 
-        class SSLServerConfig(BaseModel):
+        class SSLServerConfig(ForbidBaseModel):
             rootcert: Optional[str] = None
             verify: Literal["none", "cert", "identity"] = "none"
 
diff --git a/subsetter/config_model.py b/subsetter/config_model.py
index 90a79fa..195e322 100644
--- a/subsetter/config_model.py
+++ b/subsetter/config_model.py
@@ -1,16 +1,17 @@
 from typing import Dict, List, Literal, Optional, Union
 
-from pydantic import BaseModel, ConfigDict, Field, model_validator
+from pydantic import Field, model_validator
 from typing_extensions import Annotated
 
-from subsetter.common import DatabaseConfig, SQLKnownOperator, SQLLiteralType
+from subsetter.common import (
+    DatabaseConfig,
+    ForbidBaseModel,
+    SQLKnownOperator,
+    SQLLiteralType,
+)
 from subsetter.filters import FilterConfig
 
 
-class ForbidBaseModel(BaseModel):
-    model_config = ConfigDict(extra="forbid")
-
-
 class PlannerConfig(ForbidBaseModel):
     class TargetConfig(ForbidBaseModel):
         all_: bool = Field(False, alias="all")
diff --git a/subsetter/filters.py b/subsetter/filters.py
index cbd0824..26c6f33 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -20,7 +20,7 @@ from typing import (
 from uuid import uuid4
 
 from faker import Faker
-from pydantic import BaseModel, Field
+from pydantic import BaseModel, ConfigDict, Field
 from typing_extensions import Annotated
 
 EPOCH = datetime(1970, 1, 1, 0, 0)
@@ -127,6 +127,8 @@ class FilterViewChain(FilterView):
 
 
 class SingleFilterConfig(BaseModel, abc.ABC):
+    model_config = ConfigDict(extra="forbid")
+
     @abc.abstractmethod
     def construct_filter(
         self, columns_in: Iterable[str], *, filter_context=FilterContext()
@@ -554,6 +556,8 @@ SimpleFilterConfig: Type[SingleFilterConfig] = Annotated[  # type: ignore
 
 
 class MultiplexCondition(BaseModel):
+    model_config = ConfigDict(extra="forbid")
+
     op: Literal[
         "is", "is not", "in", "not in", "=", "!=", "<", ">", "<=", ">=", "matches"
     ]
-- 
2.43.0


From e3624a7dfdec5a5abfa825e4fc88fae4072779ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 25/47] fix: create primary keys in the order of the source

---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6f92994..e76044a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -514,6 +514,9 @@ class DatabaseOutput(SamplerOutput):
                     )
                     for col in table_obj.columns
                 ),
+                sa.PrimaryKeyConstraint(
+                    *(col.name for col in table_obj.primary_key.columns)
+                ),
                 schema=remap_schema,
             )
             tables_created.add(table_obj_map[table])
-- 
2.43.0


From c3be3b8879aae642bcc6f36e73bb9381feb44a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 26/47] fix: keep missing values of JSON columns of tables
 created in the same run

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e76044a..39442ee 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -661,7 +661,7 @@ class DatabaseOutput(SamplerOutput):
         # Write missing values as NULL instead of as the JSON value 'null'
         for column in table.table_obj.columns:
             if isinstance(column.type, sa.JSON) and column.nullable:
-                column.type.none_as_null = True
+                column.type = column.type.adapt(type(column.type), none_as_null=True)
 
         offsets = None
         if table_offsets := self.table_offsets.get((schema, table_name)):
-- 
2.43.0


From a15baf468effcd8d23ec54099f69cc30976e1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 27/47] fix: copy MySQL DOUBLE values without rounding them

---
 subsetter/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6a8c77c..dac8143 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -83,6 +83,12 @@ class DatabaseMetadata:
         for schema in inspector.get_schema_names():
             metadata_obj.reflect(bind=engine, schema=schema)
 
+        # Some dialects read floating point numbers as rounded decimals by default
+        for table_obj in metadata_obj.tables.values():
+            for column in table_obj.columns:
+                if isinstance(column.type, sa.Float):
+                    column.type.asdecimal = False
+
         table_set: Set[Tuple[str, str]] = set()
         table_queue: List[Tuple[str, str]] = []
         for table_id, table_obj in metadata_obj.tables.items():
-- 
2.43.0


From 99910cca44c2c3fcd188801b0b975e4ac88fadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 28/47] fix: keep keys that are zero in MySQL AUTO_INCREMENT
 columns

---
 subsetter/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 0b9f12f..2a2dbdd 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -224,6 +224,12 @@ class DatabaseConfig(ForbidBaseModel):
                         cursor.execute(
                             f"ATTACH DATABASE '{escaped_db_file}' as {db_alias}"
                         )
+                elif (dialect or DEFAULT_DIALECT) == "mysql":
+                    # Keep zeros written to AUTO_INCREMENT columns
+                    cursor.execute(
+                        "SET SESSION sql_mode = "
+                        "CONCAT(@@SESSION.sql_mode, ',NO_AUTO_VALUE_ON_ZERO')"
+                    )
 
                 for session_sql in self.session_sqls:
                     cursor.execute(session_sql)
-- 
2.43.0


From 4430b1940ed9ad5778d14c2fd36dd0c0295fa108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 29/47] fix: read a sqlite source within one transaction if
 serializable isolation is configured

---
 subsetter/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 39442ee..f0a77d0 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -736,6 +736,7 @@ class Sampler:
     def __init__(self, source: DatabaseConfig, config: SamplerConfig) -> None:
         self.config = config
         self.source_engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
+        self.snapshot_source = source.isolation_level == "SERIALIZABLE"
         self.compact_columns: Dict[Tuple[str, str], Set[str]] = {}
         self.temp_tables = TempTableCreator()
         self.passthrough_tables: Set[str] = set()
@@ -768,6 +769,9 @@ class Sampler:
         output.prepare()
 
         with self.source_engine.execution_options().connect() as conn:
+            if self.snapshot_source and conn.dialect.name == "sqlite":
+                # The driver only begins a transaction by itself at the first write
+                conn.exec_driver_sql("BEGIN")
             self._materialize_tables(meta, conn, plan)
             self._copy_results(
                 output, conn, meta, plan, insert_order, table_column_multipliers
-- 
2.43.0


From ac80ed425f79184454d5fa6821bbc038fb3bcb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 30/47] fix: allow raw SQL queries for tables that others refer
 to or that are compacted

---
 subsetter/sampler.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f0a77d0..5485e0c 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -40,6 +40,14 @@ DESTINATION_BUFFER_SIZE = 1024
 SUBSETTER_COMPACT_COLUMN = "_sbsttr_id"
 
 
+def _as_select(stmt, table_obj: sa.Table):
+    """Allows to select from raw SQL that returns the columns of `table_obj`"""
+    if isinstance(stmt, sa.TextClause):
+        columns = (sa.column(col.name, col.type) for col in table_obj.columns)
+        return sa.select(stmt.columns(*columns).subquery())
+    return stmt
+
+
 class TempTableCreator:
     """
     Help generate temporary tables. Attempts to give the temporary tables
@@ -899,7 +907,9 @@ class Sampler:
             table = meta.tables[(schema, table_name)]
             query = plan.queries[f"{schema}.{table_name}"]
 
-            table_q = query.build(meta.sql_build_context())
+            table_q = _as_select(
+                query.build(meta.sql_build_context()), table.table_obj
+            )
             if (schema, table_name) in self.compact_columns:
                 subq = table_q.subquery()
                 table_q = sa.select(
@@ -1003,7 +1013,7 @@ class Sampler:
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
             if remote_compact_cols or compact_cols:
-                subq = query_stmt.subquery()
+                subq = _as_select(query_stmt, src_table.table_obj).subquery()
                 id_col = subq.columns.get(
                     SUBSETTER_COMPACT_COLUMN,
                     sa.func.row_number(type_=sa.Integer).over(
-- 
2.43.0


From 0a90ce0c1f7de9fde65936c32e71de2e6c283816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 31/47] fix: keep the settings made by session_sqls when a
 transaction is rolled back

---
 subsetter/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 2a2dbdd..5a5c8f0 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -233,6 +233,8 @@ class DatabaseConfig(ForbidBaseModel):
 
                 for session_sql in self.session_sqls:
                     cursor.execute(session_sql)
+                # Settings are not to be undone by a later rollback
+                dbapi_connection.commit()
             finally:
                 cursor.close()
 
-- 
2.43.0


From 8029de898752bce6d74282891cfedd46845366b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 32/47] fix: skip empty config files and refuse config files
 that are not mappings

---
 subsetter/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index 0d5263a..fcde0e2 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -123,7 +123,7 @@ def _get_config(args) -> SubsetterConfig:
         for config_file in config_files:
             try:
                 with _open_config_path(config_file) as fconfig:
-                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
+                    file_data = yaml.safe_load(fconfig)
             except IOError as exc:
                 LOGGER.error(
                     "Could not open subsetter config file %r: %s",
@@ -132,6 +132,11 @@ def _get_config(args) -> SubsetterConfig:
                     exc_info=args.verbose > 1,
                 )
                 sys.exit(1)
+            if file_data is None:
+                continue  # nothing but comments
+            if not isinstance(file_data, dict):
+                raise ValueError(f"{config_file!r} does not contain a mapping")
+            config_data = _dict_merge(config_data, file_data)
         config = SubsetterConfig.model_validate(config_data)
     except ValueError as exc:
         LOGGER.error(
-- 
2.43.0


From 69de78a59566c33ff0fab3315a1694d0c5bdf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 33/47] fix: do not reuse foreign key names for tables created
 under another name

---
 subsetter/sampler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5485e0c..1fa4740 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -562,7 +562,14 @@ class DatabaseOutput(SamplerOutput):
                         sa.ForeignKeyConstraint(
                             _remap_cols(constraint.columns),
                             fk_cols,
-                            name=constraint.name,
+                            # MySQL constraint names are unique by schema, another table
+                            # may have taken the name in the schema remapped to.
+                            name=(
+                                constraint.name
+                                if (remapped_table_obj.schema, remapped_table_obj.name)
+                                == (table_obj.schema, table_obj.name)
+                                else None
+                            ),
                             use_alter=True,
                         )
                     )
-- 
2.43.0


From 54cb1cfee7e9b4eff1dbf3083c10c53065d349d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:51 +0000
Subject: [PATCH 34/47] fix: update postgresql sequences of tables with a
 percent sign in their name

---
 subsetter/sampler.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 1fa4740..83434e8 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -249,6 +249,18 @@ def _autoincrement_needs_updating(engine) -> bool:
     return engine.dialect.name == "postgresql"
 
 
+def _quoted_table_name(table: sa.Table) -> str:
+    """
+    Returns the quoted name of the table to pass as a value. The dialect's identifier
+    preparer also escapes percent signs, which only is right within a statement.
+    """
+    return ".".join(
+        '"' + name.replace('"', '""') + '"'
+        for name in (table.schema, table.name)
+        if name
+    )
+
+
 def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
     """
     Get the current auto-increment state; this is the last value generated or
@@ -264,7 +276,7 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
                 "SELECT pg_sequence_last_value(pg_get_serial_sequence(:tab, :col)::regclass)"
             ),
             {
-                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "tab": _quoted_table_name(table),
                 "col": table.autoincrement_column.name,
             },
         )
@@ -297,7 +309,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "tab": _quoted_table_name(table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From 29eccc8236c8dace961385eceaa0fc833f7d5251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:51 +0000
Subject: [PATCH 35/47] fix: create indexes on tables with long names

---
 subsetter/sampler.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 83434e8..859f6b1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import functools
+import hashlib
 import json
 import logging
 import os
@@ -38,6 +39,7 @@ LOGGER = logging.getLogger(__name__)
 SOURCE_BUFFER_SIZE = 1024
 DESTINATION_BUFFER_SIZE = 1024
 SUBSETTER_COMPACT_COLUMN = "_sbsttr_id"
+MAX_IDENTIFIER_LENGTH = 63
 
 
 def _as_select(stmt, table_obj: sa.Table):
@@ -325,6 +327,15 @@ def _multiply_column(
     return value * multiplier + iteration
 
 
+def _index_name(table_name: str, index: int) -> str:
+    """Returns a name for the index of a created table that every dialect accepts"""
+    name = f"idx_subsetter_{table_name}_{index}"
+    if len(name.encode()) > MAX_IDENTIFIER_LENGTH:
+        digest = hashlib.sha256(table_name.encode()).hexdigest()[:16]
+        name = f"idx_subsetter_{digest}_{index}"
+    return name
+
+
 class SamplerOutput(abc.ABC):
     def output_result_set(
         self,
@@ -588,7 +599,7 @@ class DatabaseOutput(SamplerOutput):
 
             for index_idx, index in enumerate(table_obj.indexes):
                 sa.Index(
-                    f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
+                    _index_name(remapped_table_obj.name, index_idx),
                     *(
                         (
                             remapped_table_obj.columns[col.name]
-- 
2.43.0


From 5d2643fc8c9cfab4c93c06b23c0a759cda349976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 36/47] fix: give temporary tables distinct names on every
 dialect

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 859f6b1..8011d6f 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -64,7 +64,9 @@ class TempTableCreator:
         self.name_counts: Dict[str, int] = {}
 
     def _generate_name(self, name: str) -> str:
-        name = "".join(ch for ch in name if ch.isalnum())[:40]
+        # Limited to ASCII as the length of names is limited by the number of bytes and
+        # to lower case as sqlite does not tell apart names that only differ by case.
+        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum()).lower()[:40]
         if not name:
             name = "anon"
         cnt = self.name_counts.get(name, 0)
-- 
2.43.0


From 9665df6eea7ac5bfd6cb0144714d538fa62b2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 37/47] fix: shift foreign keys that refer to shifted foreign
 keys when merging

---
 subsetter/sampler.py | 47 +++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 8011d6f..3580683 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -467,7 +467,6 @@ class DatabaseOutput(SamplerOutput):
         if not self.merge:
             return
 
-        pk_max_values = {}
         self.table_offsets.clear()
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
@@ -496,27 +495,39 @@ class DatabaseOutput(SamplerOutput):
             with self.engine.connect() as conn:
                 max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))
 
-            pk_max_values[source_table] = max_pk_val
             if max_pk_val is not None:
                 self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
 
-        for source_table in self.plan.queries:
-            if source_table in self.passthrough_tables:
-                continue
-
-            src_schema, src_table_name = parse_table_name(source_table)
-            src_table = self.source_meta.tables[(src_schema, src_table_name)]
-            for fk in src_table.foreign_keys:
-                if len(fk.columns) != 1:
-                    continue
-                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
-                if dst_table is None or fk.dst_columns != dst_table.primary_key:
+        # Foreign keys are shifted like the columns they refer to. Those may be foreign
+        # keys themselves so this has to be repeated until nothing changes anymore.
+        for _ in self.plan.queries:
+            changed = False
+            for source_table in self.plan.queries:
+                if source_table in self.passthrough_tables:
                     continue
-                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
-                if offset is not None:
-                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
-                        fk.columns[0]
-                    ] = (offset + 1)
+
+                src_schema, src_table_name = parse_table_name(source_table)
+                src_table = self.source_meta.tables[(src_schema, src_table_name)]
+                offsets = self.table_offsets[
+                    self._remap_table(src_schema, src_table_name)
+                ]
+                for fk in src_table.foreign_keys:
+                    dst_source_table = f"{fk.dst_schema}.{fk.dst_table}"
+                    if (
+                        dst_source_table not in self.plan.queries
+                        or dst_source_table in self.passthrough_tables
+                    ):
+                        continue
+                    dst_offsets = self.table_offsets[
+                        self._remap_table(fk.dst_schema, fk.dst_table)
+                    ]
+                    for col, dst_col in zip(fk.columns, fk.dst_columns):
+                        offset = dst_offsets.get(dst_col)
+                        if offset is not None and offset != offsets.get(col):
+                            offsets[col] = offset
+                            changed = True
+            if not changed:
+                break
 
     def create(self) -> None:
         """Create any missing tables in destination from the source schema"""
-- 
2.43.0


From 4c3a22e91cc8473b3cd4f72ceb993e6328989068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 38/47] fix: compact foreign keys that refer to foreign keys

---
 subsetter/sampler.py | 159 +++++++++++++++++++++++++++++++------------
 1 file changed, 116 insertions(+), 43 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3580683..ccfce3e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -783,6 +783,19 @@ class DatabaseOutput(SamplerOutput):
         _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
 
 
+def _column_references(
+    meta: DatabaseMetadata, table_key: Tuple[str, str], col_name: str
+) -> Iterable[Tuple[ForeignKey, Tuple[str, str], str]]:
+    """
+    Yields each foreign key the column is part of with the table and column referred to
+    """
+    table = meta.tables.get(table_key)
+    for fk in table.foreign_keys if table else ():
+        for src_col, dst_col in zip(fk.columns, fk.dst_columns):
+            if src_col == col_name:
+                yield fk, (fk.dst_schema, fk.dst_table), dst_col
+
+
 class Sampler:
     def __init__(self, source: DatabaseConfig, config: SamplerConfig) -> None:
         self.config = config
@@ -883,6 +896,54 @@ class Sampler:
 
         return compact_columns
 
+    def _get_compact_paths(
+        self, meta: DatabaseMetadata, table_key: Tuple[str, str]
+    ) -> Dict[str, List[Tuple[ForeignKey, ...]]]:
+        """
+        Returns for each column of the table that refers to a compacted column the chains
+        of foreign keys that lead to it. Columns that directly refer to a compacted column
+        have a single chain of one foreign key. Other columns may refer to columns that are
+        foreign keys themselves, these have one chain for each of their foreign keys.
+        """
+        result: Dict[str, List[Tuple[ForeignKey, ...]]] = {}
+        for column in meta.tables[table_key].table_obj.columns:
+            paths = []
+            for fk, dst_key, dst_col in _column_references(meta, table_key, column.name):
+                if dst_col in self.compact_columns.get(dst_key, set()):
+                    paths = [(fk,)]
+            if not paths:
+                for fk, dst_key, dst_col in _column_references(
+                    meta, table_key, column.name
+                ):
+                    path = self._find_compact_path(meta, dst_key, dst_col)
+                    if path:
+                        paths.append((fk, *path))
+            if paths:
+                result[column.name] = paths
+        return result
+
+    def _find_compact_path(
+        self, meta: DatabaseMetadata, table_key: Tuple[str, str], col_name: str
+    ) -> Tuple[ForeignKey, ...]:
+        """
+        Returns the shortest chain of foreign keys that leads from the column to a
+        compacted column, an empty tuple if there is none.
+        """
+        queue: List[Tuple[Tuple[str, str], str, Tuple[ForeignKey, ...]]] = [
+            (table_key, col_name, ())
+        ]
+        seen = {(table_key, col_name)}
+        for src_key, src_col, path in queue:
+            for fk, dst_key, dst_col in _column_references(meta, src_key, src_col):
+                if dst_col in self.compact_columns.get(dst_key, set()):
+                    return (*path, fk)
+                if (dst_key, dst_col) not in seen:
+                    seen.add((dst_key, dst_col))
+                    # This is intended and well-defined behavior
+                    # pylint: disable=modified-iterating-list
+                    queue.append((dst_key, dst_col, (*path, fk)))
+        return ()
+
     def _materialization_order(
         self, meta: DatabaseMetadata, plan: SubsetPlan
     ) -> List[Tuple[str, str, int]]:
@@ -909,13 +970,19 @@ class Sampler:
 
             # For calculating max ref count also need to count joins needed at sampling time
             # to facilitate compaction.
-            for fk in meta.tables[parse_table_name(table)].foreign_keys:
-                key = (fk.dst_schema, fk.dst_table)
-                compact_cols = self.compact_columns.get(key, set())
-                if any(col in compact_cols for col in fk.dst_columns):
-                    # A table that refers to itself is also read at the same time
-                    counter.setdefault(key, int(key == parse_table_name(table)))
-                    counter[key] += 1
+            joins = {
+                path[:length]
+                for paths in self._get_compact_paths(
+                    meta, parse_table_name(table)
+                ).values()
+                for path in paths
+                for length in range(1, len(path) + 1)
+            }
+            for join in joins:
+                key = (join[-1].dst_schema, join[-1].dst_table)
+                # A table that refers to itself is also read at the same time
+                counter.setdefault(key, int(key == parse_table_name(table)))
+                counter[key] += 1
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -1045,13 +1112,7 @@ class Sampler:
             # We must update the value for that column in this table to match
             # the new compacted column.
             src_table = meta.tables[(schema, table_name)]
-            remote_compact_cols = {}
-            for fk in src_table.foreign_keys:
-                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
-                    if dst_col in self.compact_columns.get(
-                        (fk.dst_schema, fk.dst_table), set()
-                    ):
-                        remote_compact_cols[src_col] = fk
+            remote_compact_cols = self._get_compact_paths(meta, (schema, table_name))
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
@@ -1074,7 +1135,7 @@ class Sampler:
                 # pre-materialized table.
                 cols: List[sa.ColumnElement] = []
                 select_from: sa.FromClause = subq
-                joined_fks: Dict[ForeignKey, sa.FromClause] = {}
+                joined_fks: Dict[Tuple[ForeignKey, ...], sa.FromClause] = {}
                 joined_tables = set()
                 for col in src_table.table_obj.columns:
                     if col.name in compact_cols:
@@ -1082,37 +1143,49 @@ class Sampler:
                     elif col.name in remote_compact_cols:
                         # Join once per foreign key on all of its columns so that
                         # exactly the row that is referred to is found.
-                        fk = remote_compact_cols[col.name]
-                        if fk not in joined_fks:
-                            dst_table = build_ctx(
-                                SQLTableIdentifier(
-                                    table_schema=fk.dst_schema,
-                                    table_name=fk.dst_table,
-                                    sampled=True,
-                                )
-                            )
-                            if dst_table in joined_tables:
-                                dst_table = dst_table.alias()
-                            else:
-                                joined_tables.add(dst_table)
-                            joined_fks[fk] = dst_table
-                            select_from = sa.join(
-                                select_from,
-                                dst_table,
-                                sa.and_(
-                                    *(
-                                        subq.columns[fk_col] == dst_table.columns[dst_col]
-                                        for fk_col, dst_col in zip(
-                                            fk.columns, fk.dst_columns
+                        paths = remote_compact_cols[col.name]
+                        values: List[sa.ColumnElement] = []
+                        for path in paths:
+                            left_table: sa.FromClause = subq
+                            for length, fk in enumerate(path, 1):
+                                if path[:length] not in joined_fks:
+                                    dst_table = build_ctx(
+                                        SQLTableIdentifier(
+                                            table_schema=fk.dst_schema,
+                                            table_name=fk.dst_table,
+                                            sampled=True,
                                         )
                                     )
-                                ),
-                                isouter=True,
-                            )
+                                    if dst_table in joined_tables:
+                                        dst_table = dst_table.alias()
+                                    else:
+                                        joined_tables.add(dst_table)
+                                    joined_fks[path[:length]] = dst_table
+                                    select_from = sa.join(
+                                        select_from,
+                                        dst_table,
+                                        sa.and_(
+                                            *(
+                                                left_table.columns[fk_col]
+                                                == dst_table.columns[dst_col]
+                                                for fk_col, dst_col in zip(
+                                                    fk.columns, fk.dst_columns
+                                                )
+                                            )
+                                        ),
+                                        isouter=True,
+                                    )
+                                left_table = joined_fks[path[:length]]
+                            values.append(left_table.columns[SUBSETTER_COMPACT_COLUMN])
+                        if any(len(path) > 1 for path in paths):
+                            # Not necessarily a reference in every row
+                            values.append(subq.columns[col.name])
                         cols.append(
-                            joined_fks[fk]
-                            .columns[SUBSETTER_COMPACT_COLUMN]
-                            .label(col.name)
+                            (
+                                sa.func.coalesce(*values)
+                                if len(values) > 1
+                                else values[0]
+                            ).label(col.name)
                         )
                     else:
                         cols.append(subq.columns[col.name])
-- 
2.43.0


From 72eb904abad8efbb667ffa0afa693771e728122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 39/47] fix: keep temporary table names apart from names of
 aliases

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ccfce3e..0480c11 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -72,7 +72,8 @@ class TempTableCreator:
         cnt = self.name_counts.get(name, 0)
         self.name_counts[name] = cnt + 1
         if cnt:
-            return f"{self.NAME_PREFIX}{name}_{cnt}"
+            # Unlike any name that an anonymous alias of another table is given (name_1)
+            return f"{self.NAME_PREFIX}{name}_n{cnt}"
         return f"{self.NAME_PREFIX}{name}"
 
     def create(
-- 
2.43.0


From 42a1da0a044014b4f676de8a16ef39886f33649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 40/47] fix: keep raw SQL conditions apart from other
 conditions

---
 subsetter/plan_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 63546c3..6537072 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -228,7 +228,8 @@ class SQLWhereClauseSQL(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        clause = sa.text(self.sql)
+        # Parenthesized as it may be combined with other conditions
+        clause = sa.text(f"({self.sql}\n)")
         if self.sql_params is not None:
             clause = clause.bindparams(**self.sql_params)
         return clause
-- 
2.43.0


From e15a301aa202329922cca7eb61b5cd73f8271df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 41/47] fix: keep parameters of raw SQL conditions of a query
 apart

---
 subsetter/plan_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 6537072..d103b81 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -231,7 +231,13 @@ class SQLWhereClauseSQL(BaseModel):
         # Parenthesized as it may be combined with other conditions
         clause = sa.text(f"({self.sql}\n)")
         if self.sql_params is not None:
-            clause = clause.bindparams(**self.sql_params)
+            # Other conditions of a query can use the same parameter names
+            clause = clause.bindparams(
+                *(
+                    sa.bindparam(name, value, unique=True)
+                    for name, value in self.sql_params.items()
+                )
+            )
         return clause
 
     def simplify(self) -> "SQLWhereClause":
-- 
2.43.0


From 3b51fd2c215ef405531db0ac487a3b61ee3e0a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 42/47] fix: read foreign keys to tables in the PostgreSQL
 search path

---
 subsetter/metadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index dac8143..fa6fcb8 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -80,8 +80,13 @@ class DatabaseMetadata:
 
         inspector = sa.inspect(engine)
         metadata_obj = sa.MetaData()
-        for schema in inspector.get_schema_names():
-            metadata_obj.reflect(bind=engine, schema=schema)
+        with engine.connect() as conn:
+            if engine.dialect.name == "postgresql":
+                # Foreign keys to tables in the search path are otherwise reflected
+                # without the schema of the table that they refer to.
+                conn.execute(sa.text("SET LOCAL search_path TO ''"))
+            for schema in inspector.get_schema_names():
+                metadata_obj.reflect(bind=conn, schema=schema)
 
         # Some dialects read floating point numbers as rounded decimals by default
         for table_obj in metadata_obj.tables.values():
-- 
2.43.0


From 3b9d697f94399c6df3fba76498400bd1d910b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:39 +0000
Subject: [PATCH 43/47] fix: keep the snapshot of a mysql source when temporary
 tables are indexed

---
 subsetter/sampler.py | 56 ++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 0480c11..3f9bed8 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -50,6 +50,16 @@ def _as_select(stmt, table_obj: sa.Table):
     return stmt
 
 
+class InlineIndex(sa.schema.ColumnCollectionConstraint):
+    """An index that is created by the statement that creates its table (MySQL only)"""
+
+
+@compiles(InlineIndex, "mysql")
+def _inline_index_mysql(index: InlineIndex, compiler, **_) -> str:
+    columns = (compiler.preparer.quote(col.name) for col in index.columns)
+    return f"INDEX ({', '.join(columns)})"
+
+
 class TempTableCreator:
     """
     Help generate temporary tables. Attempts to give the temporary tables
@@ -117,31 +127,47 @@ class TempTableCreator:
 
         # Create the temporary table from the select statement. Mark the requested
         # columns as part of the primary key.
-        metadata = sa.MetaData()
-        table_obj = sa.Table(
-            temp_name,
-            metadata,
-            schema=temp_schema,
-            prefixes=["TEMPORARY"],
-            *(
-                sa.Column(col.name, col.type, primary_key=col.name in primary_key)
-                for col in select.selected_columns
-            ),
-        )
+        def make_table(*inline_indexes: InlineIndex) -> sa.Table:
+            return sa.Table(
+                temp_name,
+                sa.MetaData(),
+                schema=temp_schema,
+                prefixes=["TEMPORARY"],
+                *(
+                    sa.Column(col.name, col.type, primary_key=col.name in primary_key)
+                    for col in select.selected_columns
+                ),
+                *inline_indexes,
+            )
+
+        indexes = [cols for cols in indexes if cols != primary_key]
+        inline_indexes = []
+        if dialect.name == "mysql":
+            # On MySQL creating an index ends the transaction, and with it the snapshot
+            # that we are reading; creating a temporary table does not.
+            inline_indexes, indexes = [InlineIndex(*cols) for cols in indexes], []
+        table_obj = make_table(*inline_indexes)
         try:
-            metadata.create_all(conn)
+            table_obj.metadata.create_all(conn)
         except Exception as exc:  # pylint: disable=broad-exception-caught
+            if inline_indexes and isinstance(exc, sa.exc.OperationalError):
+                # See below, we do our best but some columns cannot be indexed
+                LOGGER.warning(
+                    "Failed to create indexes on temporary table %s",
+                    temp_name,
+                    exc_info=True,
+                )
+                table_obj = make_table()
+                table_obj.metadata.create_all(conn)
             # TODO: Is this still needed?
             #
             # Some client/server combinations report a read-only error even though the temporary
             # table creation actually succeeded. We'll just swallow the error here and if there
             # was a real issue it'll get flagged again when we query against it.
-            if "--read-only" not in str(exc):
+            elif "--read-only" not in str(exc):
                 raise
 
         for idx, index_cols in enumerate(indexes):
-            if index_cols == primary_key:
-                continue
             # For some dialects/data types we may not be able to construct an index. We just do our
             # best here instead of hard failing.
             try:
-- 
2.43.0


From 4bbb02d6719fed29f198ea4287082fdbadece6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 44/47] fix: build the inline indexes of temporary tables with
 less change

Same behaviour as before, the table is created by the same statements.
---
 subsetter/sampler.py | 47 ++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3f9bed8..229f5f2 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -127,28 +127,31 @@ class TempTableCreator:
 
         # Create the temporary table from the select statement. Mark the requested
         # columns as part of the primary key.
-        def make_table(*inline_indexes: InlineIndex) -> sa.Table:
-            return sa.Table(
-                temp_name,
-                sa.MetaData(),
-                schema=temp_schema,
-                prefixes=["TEMPORARY"],
-                *(
-                    sa.Column(col.name, col.type, primary_key=col.name in primary_key)
-                    for col in select.selected_columns
-                ),
-                *inline_indexes,
-            )
+        metadata = sa.MetaData()
+        table_obj = sa.Table(
+            temp_name,
+            metadata,
+            schema=temp_schema,
+            prefixes=["TEMPORARY"],
+            *(
+                sa.Column(col.name, col.type, primary_key=col.name in primary_key)
+                for col in select.selected_columns
+            ),
+        )
 
-        indexes = [cols for cols in indexes if cols != primary_key]
-        inline_indexes = []
+        # On MySQL creating an index ends the transaction, and with it the snapshot that we
+        # are reading; creating a temporary table does not.
+        inline_indexes: List[InlineIndex] = []
         if dialect.name == "mysql":
-            # On MySQL creating an index ends the transaction, and with it the snapshot
-            # that we are reading; creating a temporary table does not.
-            inline_indexes, indexes = [InlineIndex(*cols) for cols in indexes], []
-        table_obj = make_table(*inline_indexes)
+            inline_indexes = [
+                InlineIndex(*cols) for cols in indexes if cols != primary_key
+            ]
+            indexes = ()
+        for inline_index in inline_indexes:
+            table_obj.append_constraint(inline_index)
+
         try:
-            table_obj.metadata.create_all(conn)
+            metadata.create_all(conn)
         except Exception as exc:  # pylint: disable=broad-exception-caught
             if inline_indexes and isinstance(exc, sa.exc.OperationalError):
                 # See below, we do our best but some columns cannot be indexed
@@ -157,8 +160,8 @@ class TempTableCreator:
                     temp_name,
                     exc_info=True,
                 )
-                table_obj = make_table()
-                table_obj.metadata.create_all(conn)
+                table_obj.constraints.difference_update(inline_indexes)
+                metadata.create_all(conn)
             # TODO: Is this still needed?
             #
             # Some client/server combinations report a read-only error even though the temporary
@@ -168,6 +171,8 @@ class TempTableCreator:
                 raise
 
         for idx, index_cols in enumerate(indexes):
+            if index_cols == primary_key:
+                continue
             # For some dialects/data types we may not be able to construct an index. We just do our
             # best here instead of hard failing.
             try:
-- 
2.43.0


From f09398ced3d38e9cd374a8bbb0d503e90cb7bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 45/47] fix: do not treat the names of tables in plans as
 patterns

---
 subsetter/planner.py | 4 +++-
 subsetter/sampler.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index b31af91..8cb83d0 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -1,3 +1,4 @@
+import glob
 import logging
 from typing import Dict, Iterable, List, Optional, Set, Tuple
 
@@ -44,7 +45,8 @@ class Planner:
         LOGGER.info("Scanning schema")
         meta, extra_tables = DatabaseMetadata.from_engine(
             self.engine,
-            self.config.select + self.config.passthrough,
+            self.config.select
+            + [glob.escape(table) for table in self.config.passthrough],
             close_forward=self.config.include_dependencies,
         )
         self.meta = meta
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 229f5f2..0b19f3d 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import functools
+import glob
 import hashlib
 import json
 import logging
@@ -485,7 +486,7 @@ class DatabaseOutput(SamplerOutput):
 
         self.meta, self.additional_tables = DatabaseMetadata.from_engine(
             self.engine,
-            list(self.table_remap),
+            [glob.escape(table) for table in self.table_remap],
             close_backward=True,
         )
 
@@ -846,7 +847,9 @@ class Sampler:
         create: bool = False,
     ) -> None:
         self.passthrough_tables = set(plan.passthrough)
-        meta, _ = DatabaseMetadata.from_engine(self.source_engine, list(plan.queries))
+        meta, _ = DatabaseMetadata.from_engine(
+            self.source_engine, [glob.escape(table) for table in plan.queries]
+        )
         if self.config.infer_foreign_keys != "none":
             meta.infer_missing_foreign_keys(
                 infer_all=self.config.infer_foreign_keys == "all"
-- 
2.43.0


From 76824e6c1c860b825cb6c95ca209b80ce23c990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:09 +0000
Subject: [PATCH 46/47] fix: refuse to multiply references to columns that are
 not multiplied

---
 subsetter/sampler.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 0b19f3d..b7adf8a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1365,4 +1365,18 @@ class Sampler:
                         "must be integral when using multiplicity"
                     )
 
+            # Verify that no reference is broken by multiplying only one of its sides
+            for fk in table.foreign_keys:
+                dst_name = f"{fk.dst_schema}.{fk.dst_table}"
+                if dst_name not in plan.queries:
+                    continue
+                for col_name, dst_col in zip(fk.columns, fk.dst_columns):
+                    if col_name in result.get(
+                        table_name, set()
+                    ) and dst_col not in result.get(dst_name, set()):
+                        raise ValueError(
+                            f"Multiplied column {table_name}.{col_name} references "
+                            f"{dst_name}.{dst_col}, which is not multiplied"
+                        )
+
         return result
-- 
2.43.0


From 439912a741bb95f298e076884c764bc1f537c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:10 +0000
Subject: [PATCH 47/47] fix: keys that refer to another table were shifted by
 their own table's offset when the other is not shifted

---
 subsetter/sampler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b7adf8a..85eec10 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -525,6 +525,16 @@ class DatabaseOutput(SamplerOutput):
                 )
                 continue
 
+            # A key that refers to another table is shifted like the column it refers to
+            src_table = self.source_meta.tables[parse_table_name(source_table)]
+            if any(
+                pk_col.name in fk.columns
+                and f"{fk.dst_schema}.{fk.dst_table}" in self.plan.queries
+                and f"{fk.dst_schema}.{fk.dst_table}" != source_table
+                for fk in src_table.foreign_keys
+            ):
+                continue
+
             with self.engine.connect() as conn:
                 max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))
 
-- 
2.43.0

