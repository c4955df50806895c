#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here as data so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
PL, SA, SO, ME, PM, FI, CO, MA, CM = ("subsetter/planner.py", "subsetter/sampler.py", "subsetter/solver.py", "subsetter/metadata.py",
    "subsetter/plan_model.py", "subsetter/filters.py", "subsetter/common.py", "subsetter/__main__.py", "subsetter/config_model.py")

p("C01", "The sample is closed under the foreign keys the plan follows",
  "Whenever a subset run succeeds on a source database that satisfies its foreign keys, every non-null foreign key value in the written sample refers to a row that is also in the written sample, for every declared, inferred or extra foreign key between two sampled tables that was not ignored. This holds for every mix of targets, union and intersection tables, composite and repeated foreign keys, passthrough tables and constraints.",
  ["inputs", "configurations"], "all source schemas without foreign key cycles, all table contents, all planner configurations that are accepted",
  "The live tests run seven fixed datasets; closure depends on the joint shape of schema, data and targets, and no test asserts closure at all (they compare with stored rows).",
  [PL, PM, SA], [("join construction per table", "Planner._plan_table"), ("select with joins", "SQLStatementSelect.build"), ("materialisation", "Sampler._materialize_tables")],
  ["rows in the destination database after Sampler.sample returns"])
p("C02", "Each non-target table holds exactly its union or intersection rows",
  "A table reached only through references to already sampled tables contains exactly the rows whose followed foreign keys all match sampled rows and which satisfy the table's constraints; a table reached because sampled tables refer to it contains exactly the rows that at least one sampled row refers to. A target that other sampled tables refer to contains exactly the union of its own selection and those referred-to rows.",
  ["inputs", "configurations"], "all schemas, data and planner configurations, including composite keys, null key columns, tables without a primary key and keys that refer to non-unique columns",
  "Tests have a handful of tables with one or two references each; no test has a target that is also referred to, a composite key, a non-unique reference or a missing primary key.",
  [PL, PM, SA], [("direction and joins", "Planner._plan_table"), ("inner/outer/exists joins", "SQLStatementSelect.build"), ("union merging", "SQLStatementUnion.simplify")],
  ["rows in the destination database", "the plan document"])
p("C03", "A plan exists exactly for acyclic selections and is one-directional",
  "Planning succeeds on the tables weakly connected to the targets exactly when the followed foreign keys among them form no directed cycle (and no other documented rule is broken); otherwise it fails with an error that names a real cycle. In every plan each table connected to a target appears, no unconnected table does, and each table is sampled from previously sampled tables in one direction only: all along its own foreign keys or all along foreign keys into it.",
  ["inputs", "configurations"], "all foreign key graphs and all choices of targets",
  "The fuzz test of the solver covers 1000 random acyclic graphs with a single source and never a cycle reached indirectly, several targets, or the planner on top of it.",
  [SO, PL], [("layered ordering", "order_graph / toposort_reachable"), ("target pseudo-node", "Planner._solve_order")],
  ["order_graph result or CycleException", "Planner.plan result or error"],
  [("H", "current layer of the ordering", "order_graph"), ("vis", "nodes already placed", "order_graph")])
p("C04", "A target's own selection is exactly what its filters say",
  "The rows a target selects on its own are exactly the rows satisfying all of its 'in', 'like', 'sql' and table-constraint conditions, cut down at random to at most 'amount' rows (exactly min(amount, matching)); 'percent' keeps each row independently with that probability on every database engine; 'all' overrides every other target filter. Conditions follow SQL null semantics.",
  ["inputs", "configurations"], "all combinations of target filters and constraints over all table contents, on sqlite, postgres and mysql",
  "Tests use only single 'in' filters; no test combines filters, uses amount, percent, like, sql, all or table constraints.",
  [PL, PM], [("target constraint assembly", "Planner._plan_table"), ("where clause building", "SQLWhereClause*.build")],
  ["rows in the destination database"])
p("C05", "A random selection is drawn once and used everywhere",
  "When a table's selection is random or its source rows change during the run, the rows written for a table from which other tables are sampled are exactly the rows those other tables were sampled from: each such selection is evaluated once per run. Two uses of the same sampled table can never see different samples.",
  ["inputs", "schedules"], "all plans with random targets, all interleavings of source writes with the steps of a run",
  "No test uses amount or percent and no test changes the source while sampling.",
  [SA, PM], [("temporary table materialisation", "Sampler._materialize_tables"), ("copying from the temporary table", "Sampler._copy_results"), ("sampled table lookup", "DatabaseMetadata.sql_build_context")],
  ["rows in the destination database"],
  [("temp_tables", "materialised samples", "DatabaseMetadata.temp_tables")])
p("C06", "A saved plan samples exactly what a direct subset run samples",
  "Writing a plan to a document and sampling from that document writes the same rows to the destination as running plan and sample together, and loading a saved plan yields a plan equal to the original. This holds for every planner configuration, including values of mixed types and names that need quoting.",
  ["configurations", "inputs"], "all planner configurations and the plans they produce",
  "Tests compare one in-memory plan per dataset and never go through the saved document.",
  [MA, PM], [("plan dump", "_main_plan"), ("plan load", "_main_sample"), ("model aliases", "plan_model")],
  ["plan file", "destination rows of the command line tool"])
p("C07", "Simplifying a query never changes the rows it selects",
  "For every query the plan language can express, its simplified form selects exactly the same rows as the original for every source database and every sample of the tables it refers to.",
  ["inputs", "programs"], "all plan queries (nested and/or/true/false/random/in/operator conditions, joins, limits, column lists and unions) and all table contents",
  "There is no test of query simplification; live tests only see the simplified plans of seven configurations.",
  [PM], [("simplification", "SQLWhereClauseAnd/Or/Random.simplify, SQLStatementSelect.simplify, SQLStatementUnion.simplify")],
  ["rows returned by the database for both forms"])
p("C08", "Every sampled row is written exactly once and unchanged",
  "For every table the multiset of rows written is the multiset of sampled rows: none lost, none duplicated, every column value unchanged (computed columns excepted), whatever the number of rows and for tables with or without a primary key. This holds for database output and for directory output, where each table's file holds one JSON object per row.",
  ["inputs", "configurations"], "all row counts (in particular around multiples of the internal buffer sizes), all supported column types, null values, both output modes",
  "The largest test table has 10 rows, so no buffer boundary is ever crossed; directory output is never tested.",
  [SA], [("buffered insertion", "DatabaseOutput.output_result_set"), ("JSON output", "DirectoryOutput.output_result_set"), ("streaming", "Sampler._copy_results")],
  ["destination rows", "JSON files"])
p("C09", "Compaction renumbers keys densely and consistently",
  "With compaction enabled each compacted column of a table with N sampled rows takes exactly the values start..start+N-1, in the order of the original primary key, and every foreign key column that refers to it, directly or through columns that are foreign keys themselves, is changed to the new value of the very row it referred to (null stays null). Apart from that renumbering the output equals the uncompacted sample, row for row.",
  ["inputs", "configurations"], "all schemas, samples, compaction settings and start keys, whether or not the table is referred to, on all database engines",
  "Two fixed datasets with start key 1 and only automatic key selection are tested.",
  [SA], [("row_number materialisation", "Sampler._materialize_tables"), ("compact joins", "Sampler._copy_results"), ("column choice", "Sampler._get_compact_columns")],
  ["destination rows with and without compaction"])
p("C10", "Merging adds shifted rows and never touches existing ones",
  "In merge mode all rows that were in the destination are still there unchanged, and what is added for each table is exactly the sample with its primary key shifted by one more than the largest key already present (not shifted if the table is empty) and every foreign key to such a table shifted by that table's shift; a key column that is itself a foreign key is shifted by the shift of the column it refers to. Passthrough tables keep their keys and only rows whose key is missing are added; repeated merges preserve all of this.",
  ["inputs", "histories", "configurations"], "all samples, all prior destination contents, all sequences of merges, with and without remapping, compaction and multiplicity",
  "The live tests run merge once and check only that it does not raise.",
  [SA], [("offset computation", "DatabaseOutput.prepare"), ("offset application", "DatabaseOutput.output_result_set")],
  ["destination rows before and after"],
  [("table_offsets", "shift per table and column", "DatabaseOutput.table_offsets")])
p("C11", "Multiplicity writes m disjoint, internally consistent copies",
  "With multiplier m, each multiplied table holds exactly m copies of its sample, copy i having every primary key column, every listed extra column and every foreign key column that refers to a multiplied column mapped to value*m+i (null stays null) and all else unchanged, so each copy's foreign keys refer only to rows of the same copy. Passthrough and ignored tables are written once and unchanged; configurations where that is impossible are refused.",
  ["inputs", "configurations"], "all schemas (including foreign key columns named differently from the key they refer to), samples, multipliers and multiplicity settings",
  "There is no test with a multiplier.",
  [SA], [("column closure", "Sampler._get_multiplied_columns"), ("row mapping", "_multiply_column / output_result_set")],
  ["destination rows", "JSON files"])
p("C12", "Conflict strategy decides the fate of rows whose key already exists",
  "Sampling into a non-empty destination without merge: with 'skip' existing rows stay unchanged and only rows with new primary keys are added; with 'replace' a row with an existing key gets the sampled value in every written column and keeps the rest; with 'error' (and for tables without primary key) a key clash makes the run fail and no existing row is changed. Rows with keys that do not clash are never affected.",
  ["inputs", "configurations", "histories"], "all samples, all prior destination contents, all three strategies, tables with only key columns, omitted and computed columns, on all database engines",
  "No test sets a conflict strategy.",
  [SA], [("upsert statement", "ConflictInsert")],
  ["destination rows before and after"])
p("C13", "Truncation empties exactly the affected tables, children first",
  "With truncation requested, the destination tables about to be written and all destination tables that directly or indirectly refer to them are emptied, no other table loses a row, and at every commit on the way no remaining row refers to a deleted one. Without the request no run ever deletes a destination row.",
  ["inputs", "crash_points", "configurations"], "all destination schemas and contents, all sets of sampled tables, every commit point",
  "No test passes truncate, and none has tables in the destination outside the sample.",
  [SA, ME], [("backward closure", "DatabaseMetadata.from_engine"), ("delete order", "DatabaseOutput.truncate")],
  ["destination rows after every commit"])
p("C14", "Table creation adds faithful missing tables and leaves others alone",
  "With creation requested, afterwards every sampled table exists in the destination under its remapped name; each one that was missing has the source table's columns, types, nullability, primary key, unique constraints and unique indexes, and those foreign keys that stay within the sampled tables (where the engine can add them), and tables that already existed are left exactly as they were. Without the request no table is ever created, and a sampled table that is missing from the destination makes the run fail instead of being left out.",
  ["configurations", "inputs"], "all source schemas, all subsets of already existing destination tables, all remappings",
  "Live tests always create every table and look only at the rows.",
  [SA, ME], [("schema copy", "DatabaseOutput.create"), ("insert order", "DatabaseOutput.insert_order")],
  ["destination schema before and after"])
p("C15", "Each table's rows go to exactly its remapped destination table",
  "The rows of every sampled table are written to the destination table obtained by applying the search/replace rules in order to its full name, and to no other; if two sampled tables would get the same name the run fails before anything is written. All other features (truncation, creation, merging, foreign key order) act on the remapped tables.",
  ["configurations", "inputs"], "all lists of rename rules and all sets of sampled tables",
  "All tests use the same single rule that appends a suffix to the schema.",
  [SA], [("remapping", "DatabaseOutput._remap_table / __init__")],
  ["destination tables"])
p("C16", "The source database is never modified",
  "No plan, sample or subset run, whether it succeeds, is refused, fails midway or is cut short at any statement, changes any row or table of the source database or leaves an object behind in it.",
  ["inputs", "crash_points", "configurations"], "all configurations and all failure points",
  "Tests never look at the source after a run.",
  [SA, ME], [("temporary tables on one connection", "TempTableCreator.create"), ("no commit on the source connection", "Sampler.sample")],
  ["source schema and rows before and after"])
p("C17", "A refused configuration leaves the destination data untouched",
  "A run that is refused because of its configuration or plan (invalid filters, multiplication of non-integer keys, compaction of a foreign key column, two tables remapped to one name, missing destination tables, cyclic destination foreign keys, or any planning error) fails with an error before any destination row is deleted or written, even when truncation was requested.",
  ["configurations"], "all combinations of a configuration error with any destination contents and flags",
  "There is no test of a refused run.",
  [SA, PL], [("validation before output", "Sampler.sample")],
  ["destination rows before and after the refused run"])
p("C18", "At every moment the destination satisfies its own foreign keys",
  "If the destination satisfies its foreign keys at the start and the complete output would, then it satisfies them after every commit of the run and after an abort at any statement; and at every such point each table holds, besides what it held before, only rows of the complete output. Aborting therefore never leaves partial or dangling rows.",
  ["crash_points", "fault_sequences", "inputs"], "all schemas, samples and modes, aborting at every destination statement",
  "Tests only look at the destination after a successful run.",
  [SA, ME, SO], [("insertion order", "DatabaseOutput.insert_order"), ("topological sort", "toposort"), ("transaction per batch", "_flush_buffer")],
  ["destination rows after every commit and after an injected failure"])
p("C19", "Filters change exactly the named columns of every row, in order",
  "For a table with filters every written row is the sampled row with the filters applied in the listed order: each filter replaces the values of exactly its named columns by values of its documented kind, 'omit' removes its columns, 'multiplex' applies only the first matching alternative, and no other column or row is affected. In particular the source value of a filtered column never reaches the output, and a filter that is to write a column which the table does not have is refused.",
  ["inputs", "configurations"], "all filter chains over all column sets and row values, including nulls, nested multiplex filters and omitted columns",
  "Unit tests apply each filter class once to all columns of a single row; chains, multiplex, omit followed by other filters and filters in a real run are untested.",
  [FI, SA], [("filter chain", "FilterViewChain.construct_filter"), ("column indexing", "_validate_and_index / FilterColumns.filter_view"), ("multiplex", "FilterMultiplex")],
  ["output of the constructed filter", "destination rows"])
p("C20", "Exactly the configured tables and relationships take part",
  "The tables considered are those matching the select patterns plus, if dependencies are included, all tables reachable from them over declared foreign keys; the relationships followed are the declared ones, plus those inferred from a column name that equals the single-column primary key of exactly one other table (within the same schema or overall, as configured), minus ignored ones, plus valid extra ones. References to ignored tables, targets outside the selection and constraints that would break references are refused; unknown names are only reported.",
  ["configurations", "inputs"], "all schemas, select patterns and relationship settings",
  "Every live test selects all tables of one schema and none uses ignore, extra, inferred keys, patterns or dependency exclusion.",
  [ME, PL], [("pattern selection and closure", "DatabaseMetadata.from_engine"), ("inference", "DatabaseMetadata.infer_missing_foreign_keys"), ("ignore/extra keys", "Planner._remove_ignore_fks / _add_extra_fks"), ("refusals", "Planner._check_ignore_tables, _solve_order")],
  ["tables and rows of the resulting sample", "planning errors"])
p("C21", "Passthrough tables are copied in full and never steer the sample",
  "Every existing passthrough table is written with all of its source rows, and the rows of all other tables are the same as if relationships with passthrough tables did not exist. Passthrough tables are never compacted, multiplied or shifted, and a passthrough table that refers to a non-passthrough table is refused.",
  ["configurations", "inputs"], "all schemas, data and choices of passthrough tables, combined with merge, multiplicity and compaction",
  "No test has a passthrough table.",
  [PL, SA], [("passthrough queries", "Planner._plan_internal"), ("exclusion", "Sampler._get_compact_columns / _get_multiplied_columns / DatabaseOutput.prepare")],
  ["destination rows"])
p("C22", "After sampling, generated keys never collide with existing ones",
  "On destinations where sampled keys do not advance the key generator by themselves, after a successful run the next generated key of every table whose keys were written is larger than every key in the table, whatever the table and its generator held before and however many runs have been made.",
  ["histories", "inputs"], "all prior table and sequence states, all samples, repeated runs, merge, multiplicity and compaction",
  "Tests never insert into the destination after sampling.",
  [SA], [("sequence update", "_autoincrement_get / _autoincrement_update")],
  ["next value of the sequence against the table contents on postgres"])
p("C23", "With snapshot isolation the sample comes from one source state",
  "If the source connection is configured for repeatable read or stricter, then whatever other clients commit to the source while the run is in progress, the sample equals the sample of the source as it was at one single moment. A concurrent change therefore never makes the sample inconsistent.",
  ["schedules"], "all interleavings of committed source transactions with the statements of a run",
  "Tests have no concurrent activity.",
  [SA, CO], [("single connection and transaction for all source reads", "Sampler.sample"), ("isolation level", "DatabaseConfig.database_engine")],
  ["destination rows"])
p("C24", "Connection settings are honoured and never weakened",
  "For source and destination every explicitly configured connection setting is used, an environment variable fills in only what is not configured, and documented defaults fill the rest; the statements given for new sessions run on every connection. A configured (or environment-requested) TLS requirement, certificate and verification level always reaches the database driver at least as strict as requested.",
  ["configurations"], "all combinations of set and unset options, environment variables and dialects",
  "No test sets an environment variable or TLS option.",
  [CO], [("URL construction", "database_url"), ("TLS arguments", "DatabaseConfig.SSLConfig.get_connect_args"), ("session statements", "DatabaseConfig.database_engine")],
  ["arguments the database driver receives on connect"])
p("C25", "Config files layer key by key and failures exit non-zero",
  "When several config files are given the effective configuration is the recursive key-by-key merge with later files winning, unknown or invalid settings are refused, and leaving out the optional sampler section means directory output to 'output'. Every command exits with status 0 exactly if it did its whole job and non-zero otherwise, and the plan command writes nothing to any database.",
  ["configurations", "fault_sequences"], "all lists of config files, all commands, all failure causes",
  "The command line entry point has no test.",
  [MA, CM], [("config merge", "_get_config"), ("error reporting", "main")],
  ["exit status", "output files", "destination rows"])
p("C26", "Repeating a truncating run gives the same destination",
  "If the source has not changed and the selection is not random, running the same plan again with truncation leaves the destination with exactly the rows it had after the first run, no matter what was done to the destination tables in between or whether an earlier run was aborted.",
  ["histories", "crash_points"], "all sequences of runs, aborts and foreign modifications of the destination followed by a truncating run",
  "No test runs twice with truncation.",
  [SA], [("truncate then fill", "Sampler.sample / DatabaseOutput.truncate")],
  ["destination rows after each run"])
p("C27", "The sampler executes every plan as its plan language reads",
  "For every plan, including hand-edited ones, each table receives exactly the rows its query denotes: comparison, membership (also negated and over sub-queries), like, and/or and raw SQL conditions under SQL null semantics, column lists, limits, inner joins as 'a match in every listed table', outer joins as 'a match in at least one', unions without duplicates, and references to sampled tables meaning the rows sampled for them. The order in which queries are listed does not matter.",
  ["programs", "inputs"], "all plan documents over all table contents, on all database engines",
  "Tests run only the planner's own plans for seven configurations.",
  [PM, SA, ME], [("statement building", "plan_model build methods"), ("materialisation order", "Sampler._materialization_order"), ("sampled table lookup", "DatabaseMetadata.sql_build_context")],
  ["destination rows"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
