"""The plan language: random plan documents, their projection to the abstract
syntax of spec/PlanLang.tla, and their execution by the code under test."""
import itertools
import os
import random
import re
import shutil

import drive
from drive import outcome, release, db_doc, output_doc, read_dir, read_rows
from world import INTS, NULL, Codec, chars, colnames, coltype, literal, qtable, quote, split
from gen import WORDS, gen_rows, gen_schema, Opts

PATS = ["a%", "%b", "_b%", "%", "c_b", "%1%", "b_", "%c%"]


# -------------------------------------------------- document -> abstract syntax
class Unreadable(Exception):
    pass


SQLATOM = re.compile(r"^\W*(\w+)\W* (=|<|>|<>) (?::(\w+)|(-?\d+)|'(\w*)')$")


def ref(d):
    return {"t": d["schema"] + "." + d["table"], "sampled": bool(d["sampled"])}


def cond(d, cd):
    k = d["type"]
    if k in ("true", "false"):
        return {"k": k}
    if k == "operator":
        return {"k": "op", "op": d["operator"], "col": d["column"], "val": cd.enc(d["value"])}
    if k in ("and", "or"):
        return {"k": k, "args": [cond(c, cd) for c in d["conditions"]]}
    if k == "random":
        n = d["threshold"] * 3
        if 0 < n < 3 and abs(n - round(n)) > 1e-9:
            raise Unreadable(f"threshold {d['threshold']}")
        return {"k": "random", "n": max(-1, min(4, round(n)))}
    if k == "in":
        sub = isinstance(d["values"], dict)
        return {"k": "in", "cols": list(d["columns"]), "neg": bool(d["negated"]), "sub": [stmt(d["values"], cd)] if sub else [],
                "vals": [] if sub else [[cd.enc(v) for v in row] for row in d["values"]]}
    if k == "sql":
        for word in ("OR", "AND"):
            parts = d["sql"].split(f" {word} ")
            if len(parts) > 1:
                return {"k": word.lower(), "args": [cond({**d, "sql": x}, cd) for x in parts]}
        m = SQLATOM.match(d["sql"])
        if not m:
            raise Unreadable(d["sql"])
        col, op, par, num, txt = m.groups()
        if par is not None:
            v = (d.get("sql_params") or {}).get(par)
            if v is None:
                raise Unreadable(f"no parameter {par}")
        else:
            v = int(num) if num is not None else txt
        return {"k": "op", "op": op, "col": col, "val": cd.enc(v)}
    raise Unreadable(k)


def select(d, cd):
    return {"k": "select", "from": ref(d["from"]), "cols": list(d["columns"] or []), "where": [cond(d["where"], cd)] if d["where"] else [],
            "limit": -1 if d["limit"] is None else d["limit"],
            "joins": [{"right": ref(j["right"]), "lcols": list(j["left_columns"]), "rcols": list(j["right_columns"])} for j in d["joins"] or []],
            "outer": bool(d["joins_outer"]) and len(d["joins"] or []) > 0}


def stmt(d, cd):
    if d["type"] == "select":
        return select(d, cd)
    if d["type"] == "union":
        return {"k": "union", "parts": [select(x, cd) for x in d["statements"]]}
    raise Unreadable(d["type"])


# -------------------------------------------------- abstract syntax -> document
class Decoder:
    """codes back to values"""

    def __init__(self, cd):
        self.inv = {c: s for s, c in cd.sidx.items()}

    def __call__(self, v):
        return None if v == NULL else self.inv.get(v, v)


def ref_doc(r):
    s, n = split(r["t"])
    d = {"schema": s, "table": n}
    if r["sampled"]:
        d["sampled"] = True
    return d


def cond_doc(c, de):
    k = c["k"]
    if k in ("true", "false"):
        return {"type": k}
    if k == "op":
        return {"type": "operator", "operator": c["op"], "column": c["col"], "value": de(c["val"])}
    if k in ("and", "or"):
        return {"type": k, "conditions": [cond_doc(a, de) for a in c["args"]]}
    if k == "random":
        return {"type": "random", "threshold": c["n"] / 3}
    return {"type": "in", "columns": c["cols"], "negated": c["neg"],
            "values": stmt_doc(c["sub"][0], de) if c["sub"] else [[de(v) for v in r] for r in c["vals"]]}


def stmt_doc(st, de):
    if st["k"] == "union":
        return {"type": "union", "statements": [stmt_doc(p, de) for p in st["parts"]]}
    d = {"type": "select", "from": ref_doc(st["from"])}
    if st["cols"]:
        d["columns"] = st["cols"]
    if st["where"]:
        d["where"] = cond_doc(st["where"][0], de)
    if st["limit"] >= 0:
        d["limit"] = st["limit"]
    if st["joins"]:
        d["joins"] = [{"right": ref_doc(j["right"]), "left_columns": j["lcols"], "right_columns": j["rcols"]} for j in st["joins"]]
        d["joins_outer"] = st["outer"]
    return d


# ----------------------------------------------------------- random documents
class World:
    def __init__(self, rng, dialect, tables, rows, sampled=()):
        self.rng, self.dialect, self.tables, self.rows = rng, dialect, tables, rows
        self.sampled = list(sampled)        # tables that may be referred to as sampled
        self.names = list(tables)           # tables that may be referred to at all
        self.chance = 5                     # random conditions left

    def cols(self, t, ty):
        return [c["name"] for c in self.tables[t]["cols"] if (c["type"] in INTS) == (ty == "int") and c["type"] in ("int", "text")]

    def value(self, t, col, nulls=0.0):
        rng = self.rng
        if rng.random() < nulls:
            return None
        names = colnames(self.tables[t])
        have = [r[names.index(col)] for r in self.rows.get(t, []) if r[names.index(col)] is not None]
        if have and rng.random() < .7:
            return rng.choice(have)
        return rng.randint(-2, 14) if coltype(self.tables[t], col) in INTS else rng.choice(WORDS)

    def anyref(self):
        rng = self.rng
        if self.sampled and rng.random() < .65:
            return {"t": rng.choice(self.sampled), "sampled": True}
        return {"t": rng.choice(self.names), "sampled": False}

    def pairs(self, t, u, n):
        """n pairs of columns of t and u with the same type"""
        rng = self.rng
        out = []
        for _ in range(n):
            ty = "int" if rng.random() < .8 else "text"
            a, b = self.cols(t, ty), self.cols(u, ty)
            if a and b:
                p = (rng.choice(a), rng.choice(b))
                if p not in out:
                    out.append(p)
        return out

    def cond(self, t, depth, sql=True, det=False, deepest=2):
        rng = self.rng
        r = rng.random()
        if depth < deepest and r < .38:
            k = rng.choice(["and", "or"])
            return {"type": k, "conditions": [self.cond(t, depth + 1, sql, det, deepest)
                                              for _ in range(rng.choice([0, 1, 2, 2, 2, 3]) if depth else rng.choice([1, 2, 2, 3]))]}
        if r < .44:
            return {"type": rng.choice(["true", "false"])}
        if r < .52 and not det and self.chance > 0:
            self.chance -= 1
            return {"type": "random", "threshold": rng.choice([0, 1 / 3, 2 / 3, 1 / 3, 2 / 3, 1, -.5, 1.5])}
        if r < .60 and sql:
            col = rng.choice(self.cols(t, "int") + self.cols(t, "text"))
            v = self.value(t, col)
            if re.fullmatch(r"\w+", str(v).lstrip("-")) and re.fullmatch(r"\w+", col):
                d = {"type": "sql", "sql": f"{quote(self.dialect, col)} {rng.choice(['=', '<', '>', '<>'])} "}
                if rng.random() < .5 and re.fullmatch(r"\w+", c2 := rng.choice(self.cols(t, "int") or ["-"])):
                    d["sql"] = f"{quote(self.dialect, c2)} {rng.choice(['=', '<', '>', '<>'])} {rng.randint(-2, 12)} {rng.choice(['OR', 'OR', 'AND'])} " + d["sql"]
                if rng.random() < .5:
                    d["sql"] += ":par"
                    d["sql_params"] = {"par": v}
                    if rng.random() < .5:                  # two different parameters of the same statement
                        d["sql"] = d["sql"][:-3] + (p := f"p{rng.randint(0, 999)}")
                        d["sql_params"] = {p: v}
                else:
                    d["sql"] += literal(self.dialect, v)
                return d
        if r < .78:
            neg = rng.random() < .4
            if rng.random() < .5 and depth < deepest + 1:
                u = self.anyref()
                ps = self.pairs(t, u["t"], rng.choice([1, 1, 2]))
                if ps:
                    sub = {"type": "select", "from": ref_doc(u), "columns": [p[1] for p in ps]}
                    if rng.random() < .6:
                        sub["where"] = self.cond(u["t"], depth + 1, sql, True, deepest)
                    if rng.random() < .25:
                        sub2 = dict(sub)
                        sub2.pop("where", None)
                        if rng.random() < .7:
                            sub2["where"] = self.cond(u["t"], depth + 1, sql, True, deepest)
                        if rng.random() < .35:             # other columns of the same types
                            sub2["columns"] = [rng.choice(self.cols(u["t"], "int" if coltype(self.tables[u["t"]], c) in INTS else "text"))
                                               for c in sub["columns"]]
                        sub = {"type": "union", "statements": [sub, sub2]}
                    return {"type": "in", "columns": [p[0] for p in ps], "values": sub, "negated": neg}
            cols = rng.sample(self.cols(t, "int") + self.cols(t, "text"), 1 if rng.random() < .65 else 2)
            vals = [[self.value(t, c) for c in cols] for _ in range(rng.choice([0, 1, 2, 3, 3]))]
            return {"type": "in", "columns": cols, "values": vals, "negated": neg}
        if rng.random() < .3 and self.cols(t, "text"):
            return {"type": "operator", "operator": rng.choice(["like", "not like"]), "column": rng.choice(self.cols(t, "text")),
                    "value": rng.choice(PATS)}
        col = rng.choice(self.cols(t, "int") + self.cols(t, "text"))
        return {"type": "operator", "operator": rng.choice(["=", "<", ">", "<>", "!="]), "column": col, "value": self.value(t, col)}

    def select(self, t, columns=None, limits=True, fromsampled=False):
        rng = self.rng
        d = {"type": "select", "from": ref_doc({"t": t, "sampled": fromsampled})}
        if columns:
            d["columns"] = columns
        joins = []
        if rng.random() < .45:
            for _ in range(rng.choice([1, 1, 2, 3])):
                u = self.anyref()
                ps = self.pairs(t, u["t"], rng.choice([1, 1, 1, 2]))
                if ps:
                    j = {"right": ref_doc(u), "left_columns": [p[0] for p in ps], "right_columns": [p[1] for p in ps]}
                    if rng.random() < .5:
                        j["half_unique"] = rng.random() < .5
                    joins.append(j)
        if joins:
            d["joins"] = joins
            if rng.random() < .6:
                d["joins_outer"] = rng.random() < .6
        if rng.random() < .7:
            d["where"] = self.cond(t, 0, sql=not joins)
        if limits and rng.random() < .2:
            d["limit"] = rng.choice([0, 1, 2, 3, 50])
        return d

    def statement(self, t, columns=None, unions=.35):
        rng = self.rng
        if rng.random() > unions:
            return self.select(t, columns)
        return {"type": "union", "statements": [self.select(t, columns) for _ in range(rng.choice([1, 2, 2, 3]))]}


# ------------------------------------------------------------- C27: execution
def make_plan(rng, dialect, tables, rows):
    """a random plan document; returns (queries, abstract statements need a codec)"""
    names = [t for t in tables if rng.random() < .85] or list(tables)[:1]
    rng.shuffle(names)
    w = World(rng, dialect, tables, rows)
    w.names = names                                        # the sampler only knows the tables of the plan
    queries, raw = {}, {}
    referred = set()
    for t in names:
        w.chance = 3
        r = rng.random()
        if r < .12:
            cols = colnames(tables[t])
            d = {"type": "select", "from": ref_doc({"t": t, "sampled": False}), "columns": list(cols)}
            text = "SELECT " + ", ".join(quote(dialect, c) for c in cols) + " FROM " + qtable(dialect, t)
            params = {}
            ic = [c for c in w.cols(t, "int") if re.fullmatch(r"\w+", c)]
            if ic and rng.random() < .8:
                c, op, v = rng.choice(ic), rng.choice(["=", "<", ">", "<>"]), rng.randint(-2, 12)
                d["where"] = {"type": "operator", "operator": op, "column": c, "value": v}
                if rng.random() < .5:
                    text += f" WHERE {quote(dialect, c)} {op} :x"
                    params = {"x": v}
                else:
                    text += f" WHERE {quote(dialect, c)} {op} {v}"
            raw[t] = d
            queries[t] = {"sql": text, "sql_params": params} if params or rng.random() < .3 else {"sql": text}
        else:
            queries[t] = {"statement": w.statement(t)}
        w.sampled.append(t)

    def refs(x):
        if isinstance(x, dict):
            if x.get("sampled"):
                referred.add(x["schema"] + "." + x["table"])
            for y in x.values():
                refs(y)
        elif isinstance(x, list):
            for y in x:
                refs(y)
    refs(queries)
    for t in names:                                        # column lists where nobody depends on all columns
        if t in referred or t in raw or rng.random() < .65:
            continue
        spec = tables[t]
        must = set(spec["pk"]) | {c["name"] for c in spec["cols"] if not c.get("null", True)}
        cols = [c["name"] for c in spec["cols"] if not c.get("computed") and (c["name"] in must or rng.random() < .5)]
        if len(cols) > len(must) and rng.random() < .5:
            rng.shuffle(cols)
        st = queries[t]["statement"]
        for p in st["statements"] if st["type"] == "union" else [st]:
            p["columns"] = list(cols)
    order = list(queries)
    rng.shuffle(order)
    return {t: queries[t] for t in order}, raw


def scenario(rng, i, dialect, sfx):
    kind = rng.choice(["dir", "db", "db"])
    o = Opts({"tables": (2, 4), "rows": (0, 6), "p_computed": .1 if kind == "dir" else 0, "p_nopk": .15, "p_comp": .2, "p_textpk": .08,
              "maxfks": 3 if kind == "dir" and rng.random() < .5 else 0, "sfx": sfx})
    o["p_computed"] = o["p_computed"] if dialect != "mysql" else 0
    schemas, tables = gen_schema(rng, dialect, o)
    rows = gen_rows(rng, tables, o)
    queries, raw = make_plan(rng, dialect, tables, rows)
    return {"id": i, "dialect": dialect, "schemas": schemas, "tables": tables, "rows": rows, "queries": queries, "raw": raw, "kind": kind,
            "isolation": None}


def run_scenario(sc, place):
    cd = Codec()
    dialect, tables = sc["dialect"], sc["tables"]
    src = place.db(dialect, "src", sc["schemas"])
    src.build(tables, sc["rows"])
    data = {t: cd.rows(read_rows(src, t, colnames(s), [c["type"] for c in s["cols"]])) for t, s in tables.items()}
    cd.text("")
    for p in PATS:
        cd.text(p)
    outdir = os.path.join(place.root, "out")
    shutil.rmtree(outdir, ignore_errors=True)
    run = {"kind": sc["kind"]}
    dst = place.db(dialect, "dst", sc["schemas"]) if sc["kind"] == "db" else None
    plan = drive.SubsetPlan.model_validate({"queries": sc["queries"], "passthrough": []})

    def go():
        drive.Sampler(drive.DatabaseConfig.model_validate(db_doc(src)),
                      drive.SamplerConfig.model_validate({"output": output_doc(run, dst, outdir)})).sample(plan, create=sc["kind"] == "db")
    ok, err, _ = outcome(go)
    release()
    doc = plan.model_dump(by_alias=True)
    sts, cols, rows = {}, {}, {}
    if ok and sc["kind"] == "dir":
        D, got, junk = read_dir(outdir, cd, tables)
    for t in sc["queries"]:
        st = doc["queries"][t]["statement"]
        if t in sc["raw"]:
            st = drive.SubsetPlan.model_validate({"queries": {t: {"statement": sc["raw"][t]}}}).model_dump(by_alias=True)["queries"][t]["statement"]
        sts[t] = stmt(st, cd)
        want = (sts[t]["parts"][0] if sts[t]["k"] == "union" else sts[t])["cols"] or colnames(tables[t])
        cols[t], rows[t] = want, []
        if not ok:
            continue
        if sc["kind"] == "dir":
            if t not in got:
                cols[t] = []
            else:
                rows[t] = got[t]
                if got[t]:
                    cols[t] = D[t]["cols"]
        elif t not in dst.tables():
            cols[t] = []
        else:
            rows[t] = cd.rows(read_rows(dst, t, want, [coltype(tables[t], c) for c in want]))
    extra = []
    if ok:
        there = set(got) if sc["kind"] == "dir" else {t for t in dst.tables() if dst.rows(t, dst.columns(t))}
        extra = sorted(there - set(sc["queries"]))
    return {"id": sc["id"], "kind": "exec", "S": {"cols": {t: colnames(s) for t, s in tables.items()}, "src": data, "strs": cd.strs},
            "st": sts, "ok": ok, "err": err, "cols": cols, "rows": rows, "extra": extra, "doc": sc["queries"]}


def stats_of(rec):
    def count(x, k):
        if isinstance(x, dict):
            return int(x.get("k") == k) + sum(count(y, k) for y in x.values())
        return sum(count(y, k) for y in x) if isinstance(x, list) else 0
    return {"runs": 1, "ok": int(rec["ok"]), "failed": int(not rec["ok"]), "rows": sum(map(len, rec["rows"].values())),
            **{n: count(rec["st"], n) for n in ("union", "in", "and", "or", "random", "op", "select")}}


def short(rec, job):
    return {"scenario": job.key, "plan": rec["doc"], "ok": rec["ok"], "error": rec["err"][:200], "rows": {t: len(x) for t, x in rec["rows"].items()}}


# -------------------------------------------------------- C07: simplification
def simp_record(i, S, X, doc, cd, execute=None):
    """one query and what the code makes of it"""
    q = drive.SubsetPlan.model_validate({"queries": {"q": {"statement": doc}}}).queries["q"].statement
    a = stmt(q.model_dump(by_alias=True), cd)
    ok, err, s = outcome(q.simplify)
    r = {"id": i, "kind": "simp", "S": S, "X": X, "a": a, "b": [], "runs": [], "err": err, "doc": doc}
    if ok:
        try:
            r["b"] = [stmt(s.model_dump(by_alias=True), cd)]
        except (Unreadable, KeyError, TypeError, AttributeError) as exc:
            r["err"] = f"the result cannot be read: {exc}"
        if r["b"] and execute:
            for form, obj in ((a, q), (r["b"][0], s)):
                ok, err, rows = outcome(lambda obj=obj: execute(obj))
                r["runs"].append({"st": form, "ok": ok, "rows": cd.rows(rows or []), "err": err})
    if not S["strs"]:
        S["strs"] = cd.strs
    return r


def engine_for(tables, rows, X):
    """sqlite tables: the source, and the samples as temporary look-alikes"""
    import sqlalchemy as sa
    eng = sa.create_engine("sqlite://")
    meta = sa.MetaData()
    obj = {}
    ty = {"int": sa.Integer, "text": sa.String}
    for t, spec in tables.items():
        for s in (False, True):
            obj[t, s] = sa.Table(("smp_" if s else "") + split(t)[1], meta,
                                 *(sa.Column(c["name"], ty[c["type"]], primary_key=c["name"] in spec["pk"]) for c in spec["cols"]))
    conn = eng.connect()
    meta.create_all(conn)
    for t, spec in tables.items():
        for s, rs in ((False, rows[t]), (True, X[t])):
            if rs:
                conn.execute(obj[t, s].insert(), [dict(zip(colnames(spec), r)) for r in rs])
    conn.commit()

    def ctx(ident):
        return obj[f"{ident.table_schema}.{ident.table_name}", ident.sampled]

    def execute(st):
        return [list(r) for r in conn.execute(st.build(ctx)).fetchall()]
    return execute


def deterministic(doc):
    if isinstance(doc, dict):
        return doc.get("type") != "random" and all(deterministic(x) for x in doc.values())
    return all(deterministic(x) for x in doc) if isinstance(doc, list) else True


def random_simp(seed, i):
    rng = random.Random(f"simp:{seed}:{i}")
    C = lambda n, ty, null=True: {"name": n, "type": ty, "null": null}
    tables = {"m.a": {"cols": [C("id", "int", False), C("v", "int"), C("w", "text")], "pk": ["id"]},
              "m.b": {"cols": [C("id", "int", False), C("r", "int"), C("w", "text")], "pk": ["id"]}}
    rows = {t: [[k + 1, rng.choice([None, 0, 1, 2, 3]), rng.choice([None] + WORDS)] for k in range(rng.randint(2, 5))] for t in tables}
    X = {t: [r for r in rows[t] if rng.random() < .6] for t in tables}
    w = World(rng, "sqlite", tables, rows, ["m.a", "m.b"])
    cols = rng.choice([None, None, ["v", "id"], ["id"]])
    doc = w.statement("m.a", cols, unions=.5)
    parts = doc["statements"] if doc["type"] == "union" else [doc]
    if cols and len(parts) > 1 and rng.random() < .25:     # the same columns in another order, or others
        rng.choice(parts)["columns"] = rng.choice([["id", "v"], ["v", "id"]]) if len(cols) == 2 else ["v"]
    if rng.random() < .15:
        for p in parts if rng.random() < .5 else parts[:1]:
            p["from"]["sampled"] = True
    if doc["type"] == "union" and rng.random() < .5:       # make merging likely
        keep = [p for p in parts if not p.get("joins") and "limit" not in p]
        doc["statements"] = keep or parts
    cd = Codec()
    cd.text("")
    for p in PATS + WORDS:
        cd.text(p)
    S = {"cols": {t: colnames(s) for t, s in tables.items()}, "src": {t: cd.rows(r) for t, r in rows.items()}, "strs": []}
    XC = {t: cd.rows(r) for t, r in X.items()}
    ex = None
    if deterministic(doc) and rng.random() < .3:
        ex = engine_for(tables, rows, X)
    return simp_record(i, S, XC, doc, cd, ex)
