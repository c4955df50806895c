"""Scenario families: what each property's check runs against the code."""
import json
import random

import gen
from gen import ORDERED, Opts, P, gen_planner, gen_rows, gen_schema
from drive import remap_name
from world import INTS, ODD, colnames, coltype, literal, qtable, quote, split

DEF = dict(p_pass=.12, p_ignore=.06, p_ignorefk=.08, p_extra=.1, p_infer=.1, p_constraint=.1, p_self=.05, p_cycle=.02,
           p_nodeps=.06, oddnames=.2, namedpk=.2, p_undeclared=.4, p_computed=.06)
# schemas and planner options under which a plan normally exists
CALM = dict(p_pass=.1, p_extra=.05, p_infer=.05, p_constraint=.08, oddnames=.15, namedpk=.15, p_undeclared=.3,
            simpleselect=True, p_computed=.06)


def source(rng, dialect, o, sfx=""):
    o = Opts(o)
    o["sfx"] = sfx if dialect == "mysql" else ""
    schemas, tables = gen_schema(rng, dialect, o)
    rows = gen_rows(rng, tables, o)
    return schemas, tables, rows


def scenario(rng, i, dialect, o, sfx, runs, omode="obs", det=False):
    o = Opts(o)
    if det:
        o["p_random"] = 0
    schemas, tables, rows = source(rng, dialect, o, sfx)
    pl = gen_planner(rng, dialect, schemas, tables, rows, o)
    return dict(id=i, dialect=dialect, schemas=schemas, tables=tables, rows=rows, planner=pl, runs=runs, omode=omode)


# ------------------------------------------------------------- sampling
def f_sample(rng, i, dialect, sfx, o=None):
    return scenario(rng, i, dialect, {**DEF, **(o or {})}, sfx, [dict(create=True)])


def f_closure(rng, i, dialect, sfx):
    keyless = dict(p_nopk=.5, p_comp=.7, p_all=.1) if rng.random() < .2 else {}   # (composite references of tables without keys)
    return f_sample(rng, i, dialect, sfx, {**dict(tables=(3, 6), maxfks=3, p_comp=.25, p_share=.15, p_extra=.2, p_infer=.2,
                                                  rows=(1, 7), p_random=.4, p_constraint=.15, p_pass=.15), **keyless})


def f_union(rng, i, dialect, sfx):
    sc = f_sample(rng, i, dialect, sfx, dict(tables=(3, 6), rows=(2, 8), types=ORDERED, p_type=.15, p_constraint=.2, p_all=.3, p_random=.15, p_ignore=.02))
    if rng.random() < .12:                     # references by a key to values that several rows have
        ts, pl = sc["tables"], sc["planner"]
        keys = [t for t, x in ts.items() if len(x["pk"]) == 1 and coltype(x, x["pk"][0]) == "int" and t not in pl["targets"] and sc["rows"][t]]
        vals = [t for t, x in ts.items() if "v" in colnames(x) and coltype(x, "v") == "int" and ["v"] not in x["uniq"] and t in pl["targets"]
                and not any(c["name"] == "v" and c.get("computed") for c in x["cols"]) and sc["rows"][t]]
        if keys and vals:
            k, v = rng.choice(keys), rng.choice(vals)
            refs = [r[colnames(ts[k]).index(ts[k]["pk"][0])] for r in sc["rows"][k]]
            for r in sc["rows"][v]:
                if rng.random() < .8:
                    r[colnames(ts[v]).index("v")] = rng.choice(refs[:3])
            pl["targets"] = {v: rng.choice([{"all": True}, {"all": True}, {"amount": 4}])}
            pl.pop("infer_foreign_keys", None)
            pl["extra_fks"] = [{"src_table": k, "src_columns": list(ts[k]["pk"]), "dst_table": v, "dst_columns": ["v"]}]
    return sc


def f_target(rng, i, dialect, sfx):
    return f_sample(rng, i, dialect, sfx, dict(tables=(1, 3), rows=(2, 10), types=ORDERED, p_type=.3, p_all=.15, p_random=.45, p_constraint=.3, p_cycle=0,
                                               p_self=0, p_ignore=0, simpleselect=True))


def f_random(rng, i, dialect, sfx):
    sc = f_sample(rng, i, dialect, sfx, dict(tables=(3, 6), rows=(3, 9), p_all=.05, p_random=.85, p_constraint=.05, p_cycle=0,
                                             p_self=0, p_ignore=0, simpleselect=True, p_nopk=.04, p_same=rng.choice([0, .7])))
    r = rng.random()
    if r < .3:                 # (what is compacted or multiplied must be what was drawn)
        sc["runs"][0]["compact"] = {"pk": True, "start": rng.choice([1, 40])}
    elif r < .4:
        sc["runs"][0]["mult"] = {"m": 2}
    return sc


def f_moving(rng, i, dialect, sfx):
    """rows are added and filter columns change while the run is in progress"""
    sc = scenario(rng, i, dialect, {**CALM, "tables": (2, 4), "rows": (2, 6), "p_pass": .05, "p_constraint": 0, "p_random": .3,
                                    "p_nopk": 0, "p_computed": 0, "p_textpk": 0}, sfx, [dict(create=True), dict(create=True, fresh=True)])
    sc["wal"] = dialect == "sqlite"
    ch = []
    for _ in range(rng.choice([1, 2, 3])):
        t = rng.choice(list(sc["tables"]))
        ch.append({rng.choice(["frac", "read", "read"]): rng.random(), "sql": source_change(rng, sc, t)})
    sc["runs"][1]["srcchange"] = ch
    return sc


def source_change(rng, sc, t):
    """SQL that adds rows to t or changes filter columns, respecting keys"""
    d = sc["dialect"]
    spec = sc["tables"][t]
    rows = sc["rows"][t]
    names = colnames(spec)
    out = []
    if rng.random() < .65 and rows and spec["pk"]:
        base = list(rng.choice(rows))
        for k, c in enumerate(spec["cols"]):
            n = c["name"]
            if n == "tag":
                base[k] = f"new{rng.randint(0, 10**6)}"
            elif n in spec["pk"] and n not in {x for f in spec["fks"] for x in f["cols"]} or [n] in spec["uniq"]:
                base[k] = rng.randint(1000, 10**5) if c["type"] in INTS else f"k{rng.randint(0, 10**6)}"
        if not any(n in {x for f in spec["fks"] for x in f["cols"]} for n in spec["pk"]):
            keep = [k for k, c in enumerate(spec["cols"]) if not c.get("computed")]
            out.append(f"INSERT INTO {qtable(d, t)} (" + ", ".join(quote(d, names[k]) for k in keep) + ") VALUES ("
                       + ", ".join(literal(d, base[k]) for k in keep) + ")")
    if not out or rng.random() < .4:
        out.append(f"UPDATE {qtable(d, t)} SET {quote(d, 'v')} = {rng.randint(0, 12)}"
                   + ("" if rng.random() < .5 else f" WHERE {quote(d, 'v')} > {rng.randint(0, 4)}"))
    return out


def twins(rng, i, dialect, sfx):
    """one table with several relationships to tables of the same or like names, declared, inferred, added and ignored"""
    a, b = ("s_" + (sfx if dialect == "mysql" else "") + x for x in "ab")
    if dialect == "sqlite" and rng.random() < .3:
        a = "main"
    s2 = rng.choice([a, b, b])
    c, p, q = a + ".kid", a + ".folk", s2 + (".folk" if s2 == b and rng.random() < .7 else ".kin")
    parents = [p, q] + ([b + ".more"] if rng.random() < .3 else [])
    tables = {}
    for t in parents:
        pk = rng.choice(["pid", "pid", "id", "qid"])
        tables[t] = {"cols": [{"name": pk, "type": "int", "null": False}, {"name": "u", "type": "int", "null": False}, {"name": "tag", "type": "text", "null": True}],
                     "pk": [pk], "uniq": [["u"]], "fks": [], "serial": None, "tag": "tag"}
        if tables.get(p) and t != p and rng.random() < .25:
            tables[t]["cols"].append({"name": tables[p]["pk"][0], "type": "int", "null": True}) if pk != tables[p]["pk"][0] else None
    cols = [{"name": rng.choice(["id", "kid_id"]), "type": "int", "null": False}, {"name": "tag", "type": "text", "null": True}]
    fks = []
    for n in rng.sample(["pid", "qid", "r", "u"], rng.choice([1, 2, 2, 3])):
        cols.append({"name": n, "type": "int", "null": rng.random() < .7})
        for _ in range(rng.choice([0, 1, 1, 2])):
            t = rng.choice(parents)
            if dialect == "sqlite" and t.split(".")[0] != a:
                continue
            fk = {"cols": [n], "dst": t, "dcols": [rng.choice(tables[t]["pk"] * 2 + ["u"])]}
            if fk not in fks and not any(f["cols"] == [n] and f["dst"] == t for f in fks):
                fks.append(fk)
    tables[c] = {"cols": cols, "pk": [cols[0]["name"]], "uniq": [], "fks": fks, "serial": None, "tag": "tag"}
    rows = gen_rows(rng, tables, Opts(rows=(1, 4), keyrange=(1, 6)))
    pl = {"select": rng.choice([[a + ".*", b + ".*"], [a + ".*"], [c], [c] + rng.sample(parents, 1), ["*"] if dialect == "none" else [a + ".*", b + ".*"]]),
          "targets": {rng.choice([c, c, c, rng.choice(parents)]): {"all": True}}}
    if rng.random() < .6:
        pl["infer_foreign_keys"] = rng.choice(["schema", "all"])
    pairs = [(c, t) for t in parents] + [(q, p)]
    for s, d in rng.sample(pairs, rng.choice([0, 1, 1, 2])):
        pl.setdefault("ignore_fks", []).append({"src_table": s, "dst_table": d})
    if rng.random() < .3:
        t = rng.choice(parents)
        pl["extra_fks"] = [{"src_table": c, "src_columns": [rng.choice([x["name"] for x in cols if x["type"] == "int"])], "dst_table": t,
                            "dst_columns": [rng.choice(["u", tables[t]["pk"][0]])]}]
    if rng.random() < .15:
        pl["include_dependencies"] = False
    order = list(tables)
    if rng.random() < .2:
        pl["passthrough"] = [rng.choice([t for t in parents if t not in pl["targets"]] or parents)]
        pl["passthrough"] = [t for t in pl["passthrough"] if t not in pl["targets"]]
    return dict(id=i, dialect=dialect, schemas=[a, b], tables=tables, rows=rows, planner=pl, runs=[dict(create=True)] if rng.random() < .4 else [], omode="obs")


def f_select(rng, i, dialect, sfx):
    if rng.random() < .35:
        return twins(rng, i, dialect, sfx)
    sc = f_sample(rng, i, dialect, sfx, dict(tables=(3, 7), rows=(0, 4), p_ignore=.2, p_ignorefk=.25, p_extra=.3, p_infer=.4,
                                             namedpk=.6, p_nodeps=.25, p_pass=.25, p_constraint=.2, p_badtarget=.08, oddnames=.3))
    if rng.random() < .5:
        sc["runs"] = []
    return sc


def f_plan(rng, i, dialect, sfx):
    sc = f_sample(rng, i, dialect, sfx, dict(tables=(2, 7), rows=(0, 2), p_cycle=.35, p_self=.15, p_all=.3))
    if rng.random() < .75:
        sc["runs"] = []
    return sc


def f_pass(rng, i, dialect, sfx):
    det = rng.random() < .6
    sc = scenario(rng, i, dialect, {**DEF, "tables": (3, 6), "rows": (1, 6), "p_pass": .9, "p_extra": .2, "p_infer": .25}, sfx,
                  [dict(create=True)], omode="det" if det else "obs", det=det)
    if det:
        if rng.random() < .4:
            sc["runs"][0]["mult"] = {"m": 2}
        elif rng.random() < .5:
            c = sc["runs"][0]["compact"] = {rng.choice(["pk", "pk", "auto"]): True, "start": rng.choice([1, 5])}
            if rng.random() < .3:
                ts = [t for t in sc["planner"].get("passthrough", []) if t in sc["tables"] and "id" in sc["tables"][t]["pk"]
                      and coltype(sc["tables"][t], "id") == "int"]
                if ts:
                    c["cols"] = {ts[0]: ["id"]}
        elif rng.random() < .85:
            rules = gen_remap(rng, sc["schemas"], sc["tables"]) if rng.random() < .5 else []
            if rng.random() < .6:
                with_dest(rng, sc, dict(p_exists=.9, drows=(0, 5), p_dropfk=.1, p_kids=.2,
                                        dkeys=rng.choice([(-3, 45), (-3, 45), (1, 12)])), rules)
                share_keys(rng, sc, rules)
            else:
                sc["dschemas"] = dest_schema_names(sc["schemas"], rules)
            sc["runs"] = [dict(create=True, merge=rng.random() < .7, remap=rules), dict(merge=True, remap=rules)]
            if not sc["runs"][0]["merge"] and sc.get("dest"):
                sc["runs"][0]["conflict"] = rng.choice(["skip", "replace"])
    return sc


# ------------------------------------------------------- destinations
def dest_schema_names(schemas, rules):
    out = []
    for s in schemas:
        for r in [s] + [remap_name(rules, s + ".q").split(".")[0]]:
            if r not in out:
                out.append(r)
    return out


def gen_remap(rng, schemas, tables):
    names = list(tables)
    kind = rng.random()
    if kind < .25:
        return [{"kind": "schemasuffix", "a": "", "b": rng.choice(["_x", "2"])}]
    if kind < .4:
        return [{"kind": "suffix", "a": rng.choice([n[-2:] for n in names]), "b": rng.choice(["_new", "Q"])}]
    if kind < .55:
        t = rng.choice(names)
        return [{"kind": "prefix", "a": t, "b": t + "_moved"}]
    if kind < .7 and len(schemas) == 2:
        return [{"kind": "prefix", "a": schemas[1] + ".", "b": schemas[0] + ".b_"}]
    twice = sorted({c for n in names for c in split(n)[1] if split(n)[1].count(c) > 1 and not any(c in s for s in schemas)})
    if twice and rng.random() < .7:          # more than one place to replace
        a = rng.choice(twice)
        out = [{"kind": "all", "a": a, "b": rng.choice(["zz", "_", a + a, "x" + a])}]
        return out + ([{"kind": "schemasuffix", "a": "", "b": "_y"}] if rng.random() < .3 else [])
    out = [{"kind": "all", "a": rng.choice(["a", "ta", "et", "."]), "b": rng.choice(["aa", "o", "._"])}]
    if out[0]["a"] == ".":
        out[0]["b"] = ".p_"
    if out[0]["a"] == "a":                   # would also hit the schema names
        out = [{"kind": "suffix", "a": "a", "b": "a_z"}]
    if rng.random() < .5:
        out.append({"kind": "schemasuffix", "a": "", "b": "_y"})
    return out


def gen_dest(rng, dialect, schemas, tables, rules, o):
    """tables that already exist at the destination, with rows"""
    o = Opts(o)
    dt = {}
    names = {}
    for t, spec in tables.items():
        if P(rng, o.get("p_exists", 1)):
            names[t] = remap_name(rules, t)
    used = list(names.values())
    if len(set(used)) != len(used):
        names = {t: n for k, (t, n) in enumerate(names.items()) if n not in used[:k]}
    for t, n in names.items():
        spec = tables[t]
        cols = [dict(c) for c in spec["cols"]]
        for c in cols:
            c.pop("computed", None)
            if spec["cols"] and any(x.get("computed") and x["name"] == c["name"] for x in spec["cols"]) and rng.random() < .7:
                c["computed"] = "v + 1"
        if P(rng, o.p_extracol):
            cols.append({"name": "extra", "type": "int", "null": True, "default": rng.choice([None, 7])})
        if P(rng, o.p_dcomputed):
            cols.append({"name": "dc", "type": "int", "null": True, "computed": "v + 2"})
        if rng.random() < .2:
            rng.shuffle(cols)
        fks = []
        for f in spec["fks"]:
            if f["dst"] in names and (f["dst"] != t or o.selfdest) and not P(rng, o.get("p_dropfk", .15)):
                g = names[f["dst"]]
                if dialect != "sqlite" or split(g)[0] == split(n)[0]:
                    fks.append({"cols": f["cols"], "dst": g, "dcols": f["dcols"]})
        dt[n] = {"cols": cols, "pk": list(spec["pk"]), "uniq": [list(u) for u in spec["uniq"]] if not P(rng, .1) else [],
                 "fks": fks, "serial": spec["serial"], "tag": "tag"}
    # a unique constraint something refers to (or may be made to refer to) must stay
    for t, spec in tables.items():
        for f in spec["fks"]:
            e = dt.get(names.get(f["dst"]))
            if e and list(f["dcols"]) != e["pk"] and sorted(f["dcols"]) != sorted(e["pk"]) and list(f["dcols"]) not in e["uniq"]:
                e["uniq"].append(list(f["dcols"]))
    base = [n for n in dt if len(dt[n]["pk"]) == 1 and coltype(dt[n], dt[n]["pk"][0]) == "int"]
    kids = []
    for k in range(rng.choice([0, 1, 1, 2])) if P(rng, o.get("p_kids", .5)) and base else ():
        p = rng.choice(base + [x for x in kids])
        n = (rng.choice(schemas) if dialect != "sqlite" and rng.random() < .5 else split(p)[0]) + f".kid{k}"
        dt[n] = {"cols": [{"name": "id", "type": "int", "null": False}, {"name": "v", "type": "int", "null": True},
                          {"name": "ref", "type": "int", "null": rng.random() < .5}, {"name": "tag", "type": "text", "null": True}],
                 "pk": ["id"], "uniq": [], "fks": [{"cols": ["ref"], "dst": p, "dcols": list(dt[p]["pk"])}], "serial": "id", "tag": "tag"}
        kids.append(n)
    if P(rng, o.get("p_other", .5)):
        n = schemas[0] + ".bystander"
        dt[n] = {"cols": [{"name": "id", "type": "int", "null": False}, {"name": "v", "type": "int", "null": True},
                          {"name": "tag", "type": "text", "null": True}], "pk": ["id"], "uniq": [], "fks": [], "serial": "id", "tag": "tag"}
    if P(rng, o.p_destcycle) and len(dt) > 1:
        for a, b in [(a, b) for a in dt for b in base if dt[b]["fks"]]:
            if any(f["dst"] == a for f in dt[b]["fks"]) and (dialect != "sqlite" or split(a)[0] == split(b)[0]):
                dt[a]["cols"].append({"name": "back", "type": "int", "null": True})
                dt[a]["fks"].append({"cols": ["back"], "dst": b, "dcols": list(dt[b]["pk"])})
                break
    if P(rng, o.p_sandwich) and kids:
        # a sampled table refers to a table that is not sampled and that refers to a sampled table
        k = rng.choice(kids)
        above, todo = set(), [k]
        while todo:
            for f in dt[todo.pop()]["fks"]:
                if f["dst"] not in above:
                    above.add(f["dst"])
                    todo.append(f["dst"])
        xs = [n for n in names.values() if n not in above and (dialect != "sqlite" or split(n)[0] == split(k)[0])]
        if xs:
            x = rng.choice(xs)
            dt[x]["cols"].append({"name": "via", "type": "int", "null": True})
            dt[x]["fks"].append({"cols": ["via"], "dst": k, "dcols": ["id"]})
    ro = Opts(rows=o.get("drows", (0, 5)), tagprefix="z", keyrange=o.get("dkeys", (-3, 45)))
    # parents first
    order, left = [], dict(dt)
    while left:
        nxt = [n for n in left if all(f["dst"] not in left or f["dst"] == n for f in left[n]["fks"])]
        if not nxt:
            nxt = list(left)[:1]
        for n in nxt:
            order.append(n)
            left.pop(n)
    dt = {n: dt[n] for n in order}
    rows = gen_rows(rng, dt, ro)
    return {"tables": dt, "rows": rows}


def with_dest(rng, sc, o, rules=None):
    rules = rules or []
    sc["dest"] = gen_dest(rng, sc["dialect"], sc["schemas"], sc["tables"], rules, o)
    if o.get("p_destfk"):
        # foreign keys only the destination has: the source's are followed because the planner is told so
        moved = []
        for t, spec in sc["tables"].items():
            d = sc["dest"]["tables"].get(remap_name(rules, t))
            for f in list(spec["fks"]):
                g = remap_name(rules, f["dst"])
                if d and f["dst"] != t and rng.random() < o["p_destfk"] and any(x["cols"] == f["cols"] and x["dst"] == g for x in d["fks"]):
                    spec["fks"].remove(f)
                    moved.append({"src_table": t, "src_columns": list(f["cols"]), "dst_table": f["dst"], "dst_columns": list(f["dcols"])})
        if moved:
            sc["planner"].setdefault("extra_fks", []).extend(moved)
    sc["dschemas"] = dest_schema_names(sc["schemas"], rules)
    return sc


def share_keys(rng, sc, rules=None, p=.6):
    """give destination rows keys of source rows (references stay valid: only unreferenced tables are changed)"""
    dt, rows = sc["dest"]["tables"], sc["dest"]["rows"]
    referenced = {f["dst"] for d in dt.values() for f in d["fks"]}
    for t, spec in sc["tables"].items():
        n = remap_name(rules or [], t)
        if n not in dt or n in referenced or not spec["pk"] or not sc["rows"][t] or rng.random() > p:
            continue
        d = dt[n]
        cn, sn = colnames(d), colnames(spec)
        fkc = {c for f in d["fks"] for c in f["cols"]}
        if set(spec["pk"]) & fkc:
            continue
        have = {tuple(r[cn.index(c)] for c in spec["pk"]) for r in rows[n]}
        for r in rows[n]:
            if rng.random() < .5:
                s = rng.choice(sc["rows"][t])
                key = tuple(s[sn.index(c)] for c in spec["pk"])
                if key not in have:
                    have.add(key)
                    for c, v in zip(spec["pk"], key):
                        r[cn.index(c)] = v
    return sc


def share_unique(rng, sc):
    """give destination rows values of source rows in other unique columns than the key"""
    dt, rows = sc["dest"]["tables"], sc["dest"]["rows"]
    referenced = {f["dst"] for d in dt.values() for f in d["fks"]}
    for t, spec in sc["tables"].items():
        d = dt.get(t)
        if not d or t in referenced or not rows.get(t) or not sc["rows"][t]:
            continue
        cn, sn = colnames(d), colnames(spec)
        fkc = {c for f in d["fks"] for c in f["cols"]}
        plain = [c["name"] for c in d["cols"] if c["type"] == "int" and c["name"] in ("v", "u") and c["name"] in sn and c["name"] not in d["pk"] and not c.get("computed")]
        if not d["uniq"] and plain:
            vals = [r[cn.index(plain[0])] for r in rows[t]]
            if len(set(vals)) == len(vals):
                d["uniq"] = [[plain[0]]]
        for u in d["uniq"]:
            if set(u) & (fkc | set(d["pk"])) or not set(u) <= set(sn):
                continue
            have = {tuple(r[cn.index(c)] for c in u) for r in rows[t]}
            val = tuple(rng.choice(sc["rows"][t])[sn.index(c)] for c in u)
            if val not in have and None not in val:
                r = rng.choice(rows[t])
                for c, v in zip(u, val):
                    r[cn.index(c)] = v


# ------------------------------------------------------ transformations
COPY = {**CALM, "p_all": .5}


def f_copy(rng, i, dialect, sfx):
    """C08: every column type, tables with and without keys, duplicates, both outputs"""
    o = {**COPY, "types": ("float", "bool", "date", "dt", "num", "blob", "json", "big", "ltext"), "p_type": .45, "p_nopk": .3,
         "rows": (0, 8), "duptags": rng.random() < .5, "p_computed": .15}
    if rng.random() < .4:
        o.update(duprows=True, p_nopk=.6, p_extra=0, p_infer=0)
    if rng.random() < .5:
        o["types"] = tuple(ODD[dialect])
    sc = scenario(rng, i, dialect, o, sfx, [dict(create=True)], omode="det", det=True)
    if rng.random() < .35:
        sc["runs"] = [dict(kind="dir")]
        if rng.random() < .6:                  # into a directory with the files of an earlier run
            sc["runs"].append(dict(kind="dir", **({"mult": {"m": 2}} if rng.random() < .3 else {})))
            if rng.random() < .4:
                sc["runs"].reverse()
    elif rng.random() < .4:
        with_dest(rng, sc, dict(p_exists=.7, p_extracol=.4, p_dcomputed=.3, drows=(0, 0), p_kids=0))
    return sc


def f_big(rng, i, dialect, sfx):
    """more rows than any buffer holds"""
    kind = rng.random()
    n = rng.choice([1024, 1025, 1026, 2048, 2049, 2051, 1500])
    spec = {"cols": [{"name": "id", "type": "int", "null": False}, {"name": "v", "type": "int", "null": True}, {"name": "tag", "type": "text"}],
            "pk": ["id"], "uniq": [], "fks": [], "serial": "id", "tag": "tag"}
    nopk = rng.random() < .3
    if nopk:
        spec["pk"], spec["serial"] = [], None
    s = "s_" + (sfx if dialect == "mysql" else "") + "a"
    kid = {"cols": [{"name": "id", "type": "int", "null": False}, {"name": "r", "type": "int", "null": True}, {"name": "tag", "type": "text"}],
           "pk": ["id"], "uniq": [], "fks": [] if nopk else [{"cols": ["r"], "dst": s + ".big", "dcols": ["id"]}], "serial": "id", "tag": "tag"}
    off = rng.choice([0, 5])
    rows = {s + ".big": [[(k * 7) % 10007 + off if not nopk else k % 900, k % 5, "t"] for k in range(n)],
            s + ".kid": [[k + 1, ((k * 7) % 10007 + off) if k % 3 else None, "t"] for k in range(40)]}
    tg = {s + ".big": {"all": True}} if kind < .5 else {s + ".big": {"sql": [{"col": "v", "op": "<", "val": 9}]}}
    run = dict(create=True)
    r = rng.random()
    if r < .3 and not nopk:
        run["compact"] = {"pk": True, "start": rng.choice([1, 10])}
    elif r < .45 and not nopk:
        run["mult"] = {"m": 2}
    elif r < .6:
        run = dict(kind="dir")
    return dict(id=i, dialect=dialect, schemas=[s], tables={s + ".big": spec, s + ".kid": kid}, rows=rows,
                planner={"select": [s + ".*"], "targets": tg}, runs=[run], omode="det")


def f_compact(rng, i, dialect, sfx):
    o = {**COPY, "rows": (1, 8), "p_comp": .2, "p_nopk": .03, "p_all": .35, "p_self": .2, "p_pkfk": .02, "p_uniq": .35}
    if rng.random() < .35:             # foreign keys to columns that are foreign keys
        o.update(p_comp=.45, p_kafk=.7, p_pkfk=.15)
    sc = scenario(rng, i, dialect, o, sfx, [dict(create=True)], omode="det", det=True)
    r = rng.random()
    c = {"start": rng.choice([1, 1, 0, 7, 100])}
    if r < .6:
        c["pk"] = True
    elif r < .85:
        c["auto"] = True
    if r > .75 or rng.random() < .2:
        ts = [t for t, s in sc["tables"].items() if s["pk"]]
        if ts:
            t = rng.choice(ts)
            spec = sc["tables"][t]
            cand = [x["name"] for x in spec["cols"] if x["type"] == "int" and x["name"] in spec["pk"] + [u[0] for u in spec["uniq"]]
                    and (rng.random() < .15 or x["name"] not in {y for f in spec["fks"] for y in f["cols"]})]
            if cand:
                c["cols"] = {t: [rng.choice(cand)]}
    run = sc["runs"][0]
    run["compact"] = c
    if rng.random() < .25:
        run.update(kind="dir", create=False)
    if rng.random() < .2:
        run["infer"] = rng.choice(["schema", "all"])
    if rng.random() < .25:
        # a destination without foreign keys: the renumbering must not depend on them
        sc["runs"][0]["create"] = False
        with_dest(rng, sc, dict(p_dropfk=1, drows=(0, 0), p_kids=0))
    elif any(f["dst"] == t for t, s in sc["tables"].items() for f in s["fks"]) and not run.get("kind"):
        with_dest(rng, sc, dict(p_dropfk=0, drows=(0, 0), p_kids=0))
    return sc


def f_chain(rng, i, dialect, sfx):
    """references that pass a key on from table to table"""
    s = "s_" + (sfx if dialect == "mysql" else "") + "a"
    n = rng.randint(3, 6)
    names = [s + "." + x for x in rng.sample(["aa", "bb", "cc", "dd", "ee", "ff", "gg"], n)]       # names[k] refers to names[k + 1]
    tables, rows = {}, {}
    xs = list(range(rng.choice([-1, 1]), 12))
    for k in reversed(range(n)):
        last = k == n - 1
        spec = {"cols": [{"name": "id", "type": "int", "null": False}, {"name": "x", "type": "int", "null": False},
                         {"name": "y", "type": "int", "null": True}, {"name": "tag", "type": "text", "null": True}],
                "pk": ["id"], "uniq": [["x"]], "fks": [], "serial": rng.choice([None, "id"]), "tag": "tag"}
        if not last:
            spec["fks"].append({"cols": ["x"], "dst": names[k + 1], "dcols": ["x"]})
            if rng.random() < .4:
                spec["fks"].append({"cols": ["y"], "dst": names[rng.randint(k + 1, n - 1)], "dcols": [rng.choice(["id", "x"])]})
        xs = rng.sample(xs, max(1, len(xs) - rng.randint(0, 2)))
        rs = []
        for j, x in enumerate(xs):
            y = rng.randint(0, 5)
            for f in spec["fks"][1:]:
                y = rng.choice([None] + [r[0 if f["dcols"] == ["id"] else 1] for r in rows[f["dst"]]])
            rs.append([j + 1, x, y, f"t{k}{j}"])
        tables[names[k]], rows[names[k]] = spec, rs
    if rng.random() < .3:
        tables[names[-1]]["pk"], tables[names[-1]]["uniq"], tables[names[-1]]["serial"] = ["x"], [["id"]], None
    order = list(tables)
    m = {"m": rng.choice([2, 3])}
    if tables[names[-1]]["pk"] != ["x"]:
        m["extra"] = {names[-1]: ["x"]}
    else:
        m["extra"] = {names[-1]: ["id"]}
    run = dict(create=True, mult=m)
    if rng.random() < .3:
        run = dict(kind="dir", mult=m)
    return dict(id=i, dialect=dialect, schemas=[s], tables={t: tables[t] for t in order}, rows=rows,
                planner={"select": [s + ".*"], "targets": {names[rng.choice([0, 0, -1])]: {"all": True}}}, runs=[run], omode="det")


def f_mult(rng, i, dialect, sfx):
    if rng.random() < .2:
        return f_chain(rng, i, dialect, sfx)
    o = {**COPY, "rows": (1, 6), "p_comp": .3, "p_textpk": .04, "p_uniq": .3, "p_share": .15, "p_all": .35, "p_pass": .15}
    sc = scenario(rng, i, dialect, o, sfx, [dict(create=True)], omode="det", det=True)
    m = {"m": rng.choice([2, 2, 3, 1, 5])}
    ts = list(sc["tables"])
    if rng.random() < .25:
        m["ignore"] = [rng.choice(ts)]
    if rng.random() < .6:
        t = rng.choice(ts)
        spec = sc["tables"][t]
        cand = [c["name"] for c in spec["cols"] if c["type"] in ("int",) and not c.get("computed")]
        cand = [c for c in cand if [c] in spec["uniq"]] or cand
        m["extra"] = {t: [rng.choice(cand)]}
    # unique columns that are not multiplied would clash: multiply them
    if rng.random() < .9:
        for t, spec in sc["tables"].items():
            for u in spec["uniq"]:
                m.setdefault("extra", {}).setdefault(t, [])
                m["extra"][t] = sorted(set(m["extra"][t]) | set(u))
    both = [t for t in ts if len(sc["tables"][t]["pk"]) > 1 and any(f["dst"] == t and len(f["cols"]) > 1 for u in ts for f in sc["tables"][u]["fks"])]
    if both and rng.random() < .5:     # composite references of which some columns are multiplied
        t = rng.choice(both)
        m["ignpk"] = {t: [rng.choice(sc["tables"][t]["pk"])]}
    elif rng.random() < .15:
        t = rng.choice(ts)
        if sc["tables"][t]["pk"]:
            m["ignpk"] = {t: [sc["tables"][t]["pk"][0]]}
    run = sc["runs"][0]
    run["mult"] = m
    if rng.random() < .3:
        run.update(kind="dir", create=False)
    elif rng.random() < .3:
        run["create"] = False
        with_dest(rng, sc, dict(p_dropfk=1, drows=(0, 0), p_kids=0))
    if rng.random() < .2:
        run["infer"] = rng.choice(["schema", "all"])
    if rng.random() < .25:                                   # columns left out before multiplied ones
        t = rng.choice(ts)
        spec = sc["tables"][t]
        used = set(spec["pk"]) | {c for u in spec["uniq"] for c in u} | {c for f in spec["fks"] for c in f["cols"]}
        cand = [c["name"] for c in spec["cols"] if c["name"] not in used and c["name"] in ("v", "w", "x0") and c.get("null", True)]
        if cand:
            run["filters"] = {t: [{"op": "omit", "columns": [cand[0]]}]}
    return sc


def f_merge(rng, i, dialect, sfx):
    o = {**COPY, "rows": (1, 6), "p_comp": .08, "p_textpk": .04, "p_nopk": .04, "p_uniq": .12, "p_all": .35, "p_pass": .35,
         "p_computed": .03}
    if rng.random() < .3:              # foreign keys to columns that are foreign keys
        o.update(p_comp=.3, p_kafk=.7, p_pkfk=.3, p_pass=.1)
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    rules = gen_remap(rng, sc["schemas"], sc["tables"]) if rng.random() < .25 else []
    first = rng.random()
    create = False
    if first < .45:
        with_dest(rng, sc, dict(p_exists=.9, p_extracol=.2, drows=(0, 5), p_dropfk=.1,
                                dkeys=rng.choice([(-20, 60), (-20, 60), (-9, -1), (-3, 0), (-1, 0), (-1, 3)])), rules)
        create = True
        runs = [dict(merge=True, create=True, remap=rules)]
    else:
        sc["dschemas"] = dest_schema_names(sc["schemas"], rules)
        runs = [dict(create=True, remap=rules)]
        runs += [dict(merge=True, remap=rules)]
    if rng.random() < .5:
        runs.append(dict(merge=True, remap=rules))
    if rng.random() < .3:
        for r in runs:
            r["infer"] = "all"
    if rng.random() < .25:
        runs[-1]["mult"] = {"m": 2}
    elif rng.random() < .2:
        runs[-1]["compact"] = {"pk": True}
    passed = [t for t in sc["planner"].get("passthrough", []) if t in sc["tables"]]
    if rng.random() < (.5 if passed else .15):
        runs[-1]["conflict"] = rng.choice(["skip", "replace", "replace"])
    if passed and len(runs) > 1 and rng.random() < .7:     # rows of passthrough tables are not as in the source
        sqls = []
        for t in passed:
            keys = {c for u in [sc["tables"][t]["pk"], *sc["tables"][t]["uniq"], *(f["cols"] for f in sc["tables"][t]["fks"])] for c in u}
            free = [c["name"] for c in sc["tables"][t]["cols"] if c["type"] == "int" and not c.get("computed") and c["name"] not in keys]
            for c in free[:2]:
                sqls.append(f"UPDATE {qtable(dialect, remap_name(rules, t))} SET {quote(dialect, c)} = {rng.randint(60, 90)}")
        runs[-1]["beforeok"] = sqls
    sc["runs"] = runs
    return sc


def f_conflict(rng, i, dialect, sfx):
    o = {**COPY, "rows": (1, 6), "p_uniq": .15, "p_comp": .2, "p_all": .5, "types": ("float", "big"), "p_type": .2}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    st = rng.choice(["skip", "skip", "replace", "replace", "replace", "error", None])
    with_dest(rng, sc, dict(p_exists=.95, p_extracol=.5, p_dcomputed=.2, drows=(0, 6), p_dropfk=.3, p_sandwich=.2, p_destfk=rng.choice([0, 0, .5]),
                            dkeys=(-3, 45) if rng.random() < .6 or st in ("error", None) else (1, 12)))
    share_keys(rng, sc)
    run = dict(create=True, conflict=st)
    if rng.random() < .3:
        t = rng.choice(list(sc["tables"]))
        cand = [c["name"] for c in sc["tables"][t]["cols"] if c["name"] in ("v", "w", "x0") and c.get("null", True)]
        if cand:
            run["filters"] = {t: [{"op": rng.choice(["omit", "omit", "null"]), "columns": [rng.choice(cand)]}]}
    both = [t for t, s in sc["tables"].items() if s["pk"] and t in sc["dest"]["tables"]]
    if both and rng.random() < .15:                        # nothing but the key is written
        t = rng.choice(both)
        pk = sc["tables"][t]["pk"]
        dt = sc["dest"]["tables"][t]
        if not dt["uniq"]:
            for c in dt["cols"]:
                if c["name"] not in pk:
                    c["null"] = True
            run["filters"] = {t: [{"op": "omit", "columns": [c for c in colnames(sc["tables"][t]) if c not in pk]}]}
            if rng.random() < .6:
                run["conflict"] = "replace"
            share_keys(rng, sc, p=1)
    sc["runs"] = [run]
    if rng.random() < .3:
        sc["runs"].append(dict(conflict=rng.choice(["skip", "replace", "error"])))
    if run["conflict"] == "replace" and rng.random() < .25:
        share_unique(rng, sc)
    return sc


def f_truncate(rng, i, dialect, sfx):
    o = {**COPY, "rows": (0, 5), "p_uniq": .2}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    rules = gen_remap(rng, sc["schemas"], sc["tables"]) if rng.random() < .3 else []
    with_dest(rng, sc, dict(p_exists=rng.choice([1, .8]), p_kids=.8, p_other=.7, drows=(0, 5), p_dropfk=.2,
                            p_destcycle=.04, p_sandwich=.35, p_destfk=rng.choice([0, 0, .5])), rules)
    run = dict(truncate=rng.random() < .8, create=True, remap=rules, observe=True)
    if not run["truncate"]:
        run["conflict"] = rng.choice(["skip", "replace", None])
    if rng.random() < .15:
        run["merge"] = True
    sc["runs"] = [run]
    if rng.random() < .3:
        sc["runs"].append(dict(truncate=True, remap=rules, observe=True))
    return sc


def more_structure(rng, dialect, spec):
    """defaults, check constraints and indexes of all kinds (rows have different tags)"""
    for c in spec["cols"]:
        if c["name"] in ("v", "w") and rng.random() < .3:
            c["default"] = 3 if c["type"] == "int" else "it's"
    if rng.random() < .25:
        spec["checks"] = [rng.choice(["v < 1000", "v IS NULL OR v <> 555", "v >= -50 AND v <= 5000"])]
    r = rng.random()
    if r < .3:
        spec["uindexes"] = [rng.choice([["v", "tag"], ["tag", "v"], ["tag"]])]
    elif r < .55:
        kinds = [("", "v DESC", ""), ("", "tag, v", "")]
        if dialect == "postgres":
            kinds += [("", "lower(tag)", ""), ("", "(v + 1), tag", ""), ("", "tag", " WHERE v > 1"), ("UNIQUE ", "tag", " WHERE v IS NOT NULL")]
        elif dialect == "sqlite":
            kinds += [("", "tag", " WHERE v > 1"), ("UNIQUE ", "tag", " WHERE v IS NOT NULL"), ("", "tag COLLATE NOCASE", ""), ("", "lower(tag)", "")]
        else:
            kinds += [("", "tag(3)", ""), ("", "(v + 1)", ""), ("FULLTEXT ", "tag", "")]
        spec["ixsql"] = [rng.choice(kinds)]


def f_create(rng, i, dialect, sfx):
    o = {**COPY, "types": ("float", "bool", "date", "dt", "num", "blob", "json", "big", "ltext"), "p_type": .3, "p_nopk": .12,
         "rows": (0, 4), "p_comp": .3, "p_uniq": .4, "p_share": .1, "p_computed": .1, "p_self": .1}
    if rng.random() < .4:
        o["types"] = tuple(ODD[dialect])
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    for t, spec in sc["tables"].items():
        more_structure(rng, dialect, spec)
    rules = gen_remap(rng, sc["schemas"], sc["tables"]) if rng.random() < .35 else []
    if rng.random() < .5:
        with_dest(rng, sc, dict(p_exists=.45, p_extracol=.3, drows=(0, 2), dkeys=(200, 260)), rules)
    else:
        sc["dschemas"] = dest_schema_names(sc["schemas"], rules)
    sc["runs"] = [dict(create=rng.random() < .85, truncate=rng.random() < .3, remap=rules)]
    if rng.random() < .25:
        sc["planner"]["select"] = rng.sample(list(sc["tables"]), rng.randint(1, len(sc["tables"])))
    return sc


def f_remap(rng, i, dialect, sfx):
    o = {**COPY, "rows": (1, 5), "tables": (2, 5)}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    rules = gen_remap(rng, sc["schemas"], sc["tables"])
    if rng.random() < .12:
        ts = list(sc["tables"])
        a, b = rng.choice(ts), rng.choice(ts)
        rules = rules + [{"kind": "prefix", "a": remap_name(rules, a), "b": remap_name(rules, b)}]
    if rng.random() < .15 and len(sc["tables"]) > 1:      # exchange two names in a chain of rules
        a, b = rng.sample(list(sc["tables"]), 2)
        if not (a.startswith(b) or b.startswith(a)):
            rules = [{"kind": "prefix", "a": a, "b": split(a)[0] + ".tmp0"}, {"kind": "prefix", "a": b, "b": a},
                     {"kind": "prefix", "a": split(a)[0] + ".tmp0", "b": b}]
    if rng.random() < .45:
        with_dest(rng, sc, dict(p_exists=.8, drows=(0, 4), dkeys=(100, 160), p_kids=.4), rules)
    else:
        sc["dschemas"] = dest_schema_names(sc["schemas"], rules)
    run = dict(create=rng.random() < .9, remap=rules, truncate=rng.random() < .4, observe=rng.random() < .3)
    sc["runs"] = [run]
    r = rng.random()
    if r < .3:
        sc["runs"].append(dict(remap=rules, merge=True))
    elif r < .5:
        sc["runs"].append(dict(remap=rules, conflict="replace"))
    elif r < .7:
        sc["runs"].append(dict(remap=rules, truncate=True, compact={"pk": True}))
    return sc


# --------------------------------------------------- faults and refusals
def f_source(rng, i, dialect, sfx):
    """the source is left alone, whatever happens"""
    o = {**DEF, "rows": (1, 5), "tables": (2, 5), "p_cycle": .05, "p_nopk": rng.choice([.08, .3])}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    runs = [dict(create=True)]
    r = rng.random()
    if r < .45:
        runs[0]["compact"] = {"pk": True}
    elif r < .6:
        runs[0]["mult"] = {"m": 2}
    for _ in range(3):
        runs.append({**runs[0], "fresh": True, "cutfrac": rng.random(), "same": 1, "kill": rng.random() < .3})
    sc["runs"] = runs
    return sc


def f_abort(rng, i, dialect, sfx):
    o = {**COPY, "rows": (1, 5), "tables": (2, 4)}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    calm = False
    if rng.random() < .7:
        calm = rng.random() < .6
        with_dest(rng, sc, dict(p_exists=.9, drows=(0, 4), p_dropfk=.1, p_kids=.7, p_sandwich=.65, p_destfk=.6 if calm else 0))
    run = dict(create=True, truncate=rng.random() < .7)
    r = rng.random()
    if r < .2 and not calm:
        run["merge"] = True
    elif r < .4:
        run["conflict"] = rng.choice(["skip", "replace"])
    if rng.random() < .2 and not calm:
        run["mult"] = {"m": 2}
    if rng.random() < .2 and not calm:
        run["compact"] = {"pk": True}
    runs = [dict(run, observe=True)]
    for k in range(3):
        runs.append(dict(run, fresh=True, cutfrac=rng.random(), same=1, observe=k == 0, kill=k == 2))
    sc["runs"] = runs
    return sc


def f_rerun(rng, i, dialect, sfx):
    o = {**COPY, "rows": (1, 5), "tables": (2, 4), "p_pass": rng.choice([.1, .6])}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    if rng.random() < .6:
        with_dest(rng, sc, dict(p_exists=.8, drows=(0, 4), p_dropfk=.1, p_kids=.6, p_sandwich=.2))
    run = dict(create=True, truncate=True)
    r = rng.random()
    if r < .2:
        run["merge"] = True
    elif r < .6:
        run["conflict"] = rng.choice(["skip", "replace"])
    if rng.random() < .3:
        run["mult"] = {"m": 2}
    if rng.random() < .25:
        run["compact"] = {"pk": True}
    d = sc["dialect"]
    runs = [run]
    if rng.random() < .6:
        runs.append(dict(run, cutfrac=rng.random(), same=1, kill=rng.random() < .3, after=1))
    before = []
    for t in sc["tables"]:
        r = rng.random()
        if r < .25:
            before.append(f"UPDATE {qtable(d, t)} SET {quote(d, 'v')} = 77")
        elif r < .4:
            before.append(f"UPDATE {qtable(d, t)} SET {quote(d, 'tag')} = 'changed'")
        elif r < .55 and not any(f["dst"] == t for s in sc["tables"].values() for f in s["fks"]) and not sc.get("dest"):
            before.append(f"DELETE FROM {qtable(d, t)}")
        elif r < .7 and not sc["tables"][t]["fks"] and sc["tables"][t]["pk"] == ["id"] and not sc["tables"][t]["uniq"] \
                and coltype(sc["tables"][t], "id") == "int":
            before.append(f"INSERT INTO {qtable(d, t)} ({quote(d, 'id')}, {quote(d, 'v')}, {quote(d, 'tag')}) VALUES (9001, 1, 'junk')")
    runs.append(dict(run, same=1, beforeok=before))
    sc["runs"] = runs
    return sc


def f_refuse(rng, i, dialect, sfx):
    """configurations that must be refused before the destination is touched"""
    o = {**COPY, "rows": (1, 5), "tables": (2, 4), "p_textpk": .15, "p_pass": .2}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    ts = list(sc["tables"])
    t = rng.choice(ts)
    spec = sc["tables"][t]
    run = dict(truncate=rng.random() < .85, create=rng.random() < .4, observe=True)
    kind = rng.choice(["filters", "filters", "mult", "compact", "compact2", "remap", "missing", "cycle", "none"])
    rules = []
    cols = colnames(spec)
    if kind == "filters":
        run["filters"] = {t: rng.choice([
            [{"op": "null", "columns": ["nosuch"]}],
            [{"op": "zero", "columns": []}],
            [{"op": "null", "columns": ["v"]}, {"op": "constant", "columns": ["v", "tag"], "values": [1]}],
            [{"op": "omit", "columns": ["v"]}, {"op": "null", "columns": ["v"]}],
            [{"op": "random_int", "columns": ["v", "v"], "low": 1, "high": 2}],
            [{"op": "multiplex", "column": "nosuch", "conditions": []}],
            [{"op": "multiplex", "column": "v", "conditions": [{"op": "=", "value": 1, "apply": {"op": "omit", "columns": ["tag"]}}]}],
            [{"op": "multiplex", "column": "v", "conditions": [{"op": "=", "value": 1, "apply": {"op": "null", "columns": ["zz"]}}]}],
        ])}
    elif kind == "mult":
        run["mult"] = {"m": 2}
        r = rng.random()
        if r < .4:
            run["mult"]["extra"] = {t: ["tag"]}
        elif r < .7:
            run["mult"]["ignore"] = [t]
    elif kind == "compact":
        run["compact"] = {"pk": True}
    elif kind == "compact2":
        run["compact"] = {"cols": {t: [f["cols"][0] for f in spec["fks"]][:1] or [c["name"] for c in spec["cols"]
                                  if c["name"] in spec["pk"] and c["type"] == "int"]}}
    elif kind == "remap" and len(ts) > 1:
        a, b = rng.sample(ts, 2)
        rules = [{"kind": "prefix", "a": a, "b": b}]
        if a != b and b.startswith(a):
            rules = []
    do = dict(p_exists=1 if kind not in ("missing", "none") else .6, drows=(1, 4), p_dropfk=.1, p_kids=.5,
              p_destcycle=1 if kind == "cycle" else 0, selfdest=kind == "cycle")
    with_dest(rng, sc, do, [])
    if kind == "missing":
        run["create"] = False
    run["remap"] = rules
    if rng.random() < .2:
        run["conflict"] = rng.choice(["skip", "replace"])
    sc["runs"] = [run]
    return sc


# --------------------------------------------------------------- filters
FAKES = ["fake_email", "fake_first_name", "fake_last_name", "fake_name", "fake_phone_number", "fake_vin", "fake_building_number",
         "fake_city", "fake_state", "fake_state_abbr", "fake_country", "fake_country_code", "fake_postal_code",
         "fake_street_address", "fake_street_name"]


def simple_filter(rng, cols, avail, dialect, omit=True):
    """avail: columns (specs) that may be changed"""
    if not avail:
        return None
    by = lambda *ty: [c for c in avail if c["type"] in ty]
    kinds = ["null", "zero", "constant", "random_int", "random_string", "uuid", "fake", "plugin", "random_float"] + ["omit"] * omit
    k = rng.choice(kinds)
    if k == "omit":
        c = rng.sample([c for c in avail if c.get("null", True)] or [], min(1, len([c for c in avail if c.get("null", True)])))
        return {"op": "omit", "columns": [x["name"] for x in c] + (["nosuch"] if rng.random() < .1 else [])} if c else None
    if k == "null":
        c = [c for c in avail if c.get("null", True)]
        return {"op": "null", "columns": [x["name"] for x in rng.sample(c, rng.randint(1, min(2, len(c))))]} if c else None
    if k == "zero":
        c = by("int", "text", "float", "dt", "ltext", "big", "bool")
        return {"op": "zero", "columns": [x["name"] for x in rng.sample(c, rng.randint(1, min(3, len(c))))]} if c else None
    if k == "constant":
        c = by("int", "text", "ltext")
        if not c:
            return None
        c = rng.sample(c, rng.randint(1, min(3, len(c))))
        return {"op": "constant", "columns": [x["name"] for x in c],
                "values": [None if x.get("null", True) and rng.random() < .15 else rng.randint(0, 99) if x["type"] == "int"
                           else rng.choice(["const", "x", ""]) for x in c]}
    if k == "random_int":
        c = by("int")
        return {"op": "random_int", "columns": [x["name"] for x in rng.sample(c, rng.randint(1, min(2, len(c))))],
                "low": 500, "high": rng.choice([500, 510, 900])} if c else None
    if k == "random_float":
        c = by("float")
        return {"op": "random_float", "columns": [rng.choice(c)["name"]], "low": 100.0, "high": 101.5} if c else None
    c = by("text", "ltext")
    if not c:
        return None
    cs = [x["name"] for x in rng.sample(c, rng.randint(1, min(2, len(c))))]
    if k == "random_string":
        f = {"op": "random_string", "columns": cs, "length": rng.choice([1, 5, 12])}
        al = rng.choice([None, "hex", "hex_lower", "hex_upper", "digit", "alpha", "alpha_lower", "alpha_upper", "custom", "alnum"])
        if al:
            f["alphabet"] = al
        if al == "custom":
            f["custom_alphabet"] = "xyz"
        return f
    if k == "uuid":
        return {"op": "uuid", "columns": cs}
    if k == "fake":
        return {"op": rng.choice(FAKES), "columns": cs, **({"unique": True} if rng.random() < .1 else {})}
    if rng.random() < .5 and len(c) >= 2:
        return {"op": "plugin", "module": "plugins", "class": "Swap", "columns": [x["name"] for x in rng.sample(c, 2)]}
    ci = by("int")
    return {"op": "plugin", "module": "plugins", "class": "Add", "columns": [x["name"] for x in ci[:2]], "kwargs": {"n": 3}} if ci else None


def gen_filters(rng, spec, rows, dialect, n=None):
    keys = set(spec["pk"]) | {c for u in spec["uniq"] for c in u} | {c for f in spec["fks"] for c in f["cols"]}
    avail = [c for c in spec["cols"] if c["name"] not in keys and not c.get("computed")]
    out = []
    gone = set()
    names = colnames(spec)
    for _ in range(n or rng.choice([1, 2, 2, 3])):
        left = [c for c in avail if c["name"] not in gone]
        if rng.random() < .35:
            cand = [c for c in spec["cols"] if c["type"] in ("int", "text") and c["name"] not in gone]
            if not cand:
                continue
            c = rng.choice(cand)
            have = [r[names.index(c["name"])] for r in rows]
            clean = all(v is not None for v in have) and not any(
                x["op"] == "null" and c["name"] in x.get("columns", []) or x["op"] in ("constant", "multiplex", "plugin") for x in out)
            conds = []
            for _k in range(rng.choice([1, 2, 3])):
                ops = ["is", "is not", "in", "not in", "=", "!="]
                if clean:
                    ops += ["<", ">", "<=", ">="] + (["matches"] * 3 if c["type"] == "text" else [])
                op = rng.choice(ops)
                pick = lambda: rng.choice([v for v in have if v is not None] or [1 if c["type"] == "int" else "a"])
                if op in ("is", "is not"):
                    val = None
                elif op in ("in", "not in"):
                    val = [pick() for _ in range(rng.choice([1, 2]))] + ([None] if rng.random() < .2 else [])
                elif op == "matches":
                    val = rng.choice(["a*", "*b", "?", "*", "*1", "c?b", "[ab]*", "[!a]*", "*[a-c]", "a[b"])
                else:
                    val = pick()
                ap = simple_filter(rng, names, left, dialect, omit=False)
                if ap:
                    conds.append({"op": op, "value": val, "apply": ap})
            out.append({"op": "multiplex", "column": c["name"], "conditions": conds})
            continue
        f = simple_filter(rng, names, left, dialect)
        if f:
            out.append(f)
            if f["op"] == "omit":
                gone |= set(f["columns"])
    return out


def f_filters(rng, i, dialect, sfx):
    o = {**COPY, "types": ("float", "dt", "ltext", "bool"), "p_type": .5, "rows": (1, 6), "p_all": .7, "tables": (1, 3)}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    for t, spec in sc["tables"].items():                   # (numbers of all sizes)
        k = colnames(spec).index("v")
        for row in sc["rows"][t]:
            if row[k] is not None and rng.random() < .3:
                row[k] = rng.choice([-1, -7, 9999])
    run = dict(create=True)
    if rng.random() < .35:
        run = dict(kind="dir")
    ts = [t for t in sc["tables"] if rng.random() < .7] or list(sc["tables"])[:1]
    run["filters"] = {}
    for t in ts:
        fs = gen_filters(rng, sc["tables"][t], sc["rows"][t], dialect)
        if fs:
            run["filters"][t] = fs
    if rng.random() < .1:
        run["filters"]["s_q.unknown"] = [{"op": "null", "columns": ["a"]}]
    if rng.random() < .12:
        run["mult"] = {"m": 2}
    sc["runs"] = [run]
    return sc


# ------------------------------------------------------------ documents
def f_document(rng, i, dialect, sfx):
    o = {**DEF, "rows": (1, 5), "types": ORDERED, "p_type": .2, "oddnames": .4, "p_constraint": .25, "p_cycle": 0, "p_self": 0}
    o["textcond"] = rng.random() < .3
    det = rng.random() < .7
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det" if det else "obs", det=det)
    sc["runs"] = [dict(create=True), dict(create=True, fresh=True, viadoc=True, same=1 if det else 0)]
    return sc


def f_cli(rng, i, dialect, sfx):
    o = {**DEF, "rows": (1, 5), "types": ORDERED, "p_type": .2, "oddnames": .3, "p_constraint": .25, "p_cycle": .03, "p_self": 0,
         "textcond": rng.random() < .3}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    sc["runs"] = [dict(create=True, cli="subset"), dict(create=True, fresh=True, cli="plan+sample", same=1)]
    return sc


def f_sequence(rng, i, dialect, sfx):
    """generated keys (postgresql)"""
    o = {**COPY, "rows": (1, 6), "p_serial": .85, "p_comp": .05, "p_nopk": .05, "oddnames": .3, "p_textpk": .03, "p_computed": 0,
         "p_uniq": .1}
    sc = scenario(rng, i, dialect, o, sfx, [], omode="det", det=True)
    for t in sc["tables"].values():
        if t["serial"] and rng.random() < .25:
            t["identity"] = True
    ex = rng.random() < .6
    if ex:
        with_dest(rng, sc, dict(p_exists=.9, drows=(0, 4), p_dropfk=.5, dkeys=rng.choice([(-3, 45), (100, 150)]), p_kids=.2))
        sc["destsql"] = []
        for n, d in sc["dest"]["tables"].items():
            if d["serial"] and rng.random() < .5:
                sc["destsql"].append(f"SELECT setval(pg_get_serial_sequence({literal(dialect, qtable(dialect, n))}, "
                                     f"{literal(dialect, d['serial'])}), {rng.choice([1, 3, 60, 500])})")
    runs = [dict(create=True, nextkey=True, truncate=rng.random() < .4)]
    r = rng.random()
    if r < .4:
        runs.append(dict(merge=True, nextkey=True))
    elif r < .6:
        runs.append(dict(conflict=rng.choice(["skip", "replace"]), nextkey=True))
    elif r < .8:
        runs.append(dict(truncate=True, mult={"m": 2}, nextkey=True))
    elif r < .9:
        runs.append(dict(truncate=True, compact={"pk": True, "start": rng.choice([1, 50])}, nextkey=True))
    if ex and rng.random() < .5:
        runs[0]["conflict"] = rng.choice(["skip", "replace"])
    if rng.random() < .1:
        t = next((t for t, s in sc["tables"].items() if s["serial"] and not any(f["dst"] == t for x in sc["tables"].values() for f in x["fks"])), None)
        if t:
            runs[0]["filters"] = {t: [{"op": "omit", "columns": [sc["tables"][t]["serial"]]}]}
    sc["runs"] = runs
    return sc


def f_snapshot(rng, i, dialect, sfx):
    sc = scenario(rng, i, dialect, {**CALM, "tables": (2, 4), "rows": (2, 6), "p_pass": rng.choice([.15, .8]), "p_constraint": .05, "p_random": 0,
                                    "maxfks": rng.choice([0, 1, 2, 3]),
                                    "p_nopk": 0, "p_computed": 0, "p_textpk": 0}, sfx, [], omode="det", det=True)
    if len(sc["schemas"]) > 1 and dialect == "sqlite":
        keep = sc["schemas"][0]
        return f_snapshot(rng, i, dialect, sfx)
    iso = rng.choice(["REPEATABLE READ", "SERIALIZABLE"]) if dialect != "sqlite" else "SERIALIZABLE"
    ch = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(list(sc["tables"]))
        sql = source_change(rng, sc, t)
        if rng.random() < .3 and not any(f["dst"] == t for s in sc["tables"].values() for f in s["fks"]):
            sql = [f"DELETE FROM {qtable(dialect, t)} WHERE {quote(dialect, 'v')} > {rng.randint(0, 3)} OR {quote(dialect, 'v')} IS NULL"]
        ch.append({rng.choice(["frac", "read", "read"]): rng.random(), "sql": sql})
    if rng.random() < .5:                                  # several tables at one moment
        ts = list(sc["tables"])
        rng.shuffle(ts)
        ch.append({"back": rng.randint(1, 3 * len(ts)), "sql": [q for t in ts for q in source_change(rng, sc, t)]})
    sc["runs"] = [dict(create=True, isolation=iso), dict(create=True, fresh=True, isolation=iso, srcchange=ch)]
    sc["wal"] = dialect == "sqlite"
    return sc


# ------------------------------------------------------- enumerated schemas
CASES = {"graphs": [], "dests": [], "keys": [], "moves": [], "moments": []}       # what the models printed (see special.PREPARE)


def tables_of(rng, g, s, fks_null=None):
    """the tables of an abstract schema -> names, tables, the column of each foreign key"""
    n = g["n"]
    names = ["%s.%s" % (s, x) for x in rng.sample(gen.NAMES, n)]
    out = {k: [] for k in range(n)}
    for (a, b), m in g["e"]:
        out[a - 1] += [b - 1] * m
    tables, done = {}, []
    while len(done) < n:                     # what is referred to first, as far as possible
        left = [k for k in range(n) if k not in done]
        ready = [k for k in left if all(d in done or d == k for d in out[k])]
        done.append(rng.choice(ready or left))
    refs = {}
    for k in done:
        cols = [{"name": "id", "type": "int", "null": False}, {"name": "v", "type": "int", "null": False},
                {"name": "tag", "type": "text", "null": True}]
        fks = []
        for j, d in enumerate(rng.sample(out[k], len(out[k]))):
            cols.append({"name": f"f_{j}", "type": "int", "null": done.index(d) >= done.index(k) or rng.random() < .5})
            fks.append({"cols": [f"f_{j}"], "dst": names[d], "dcols": ["id"]})
            refs[names[k], f"f_{j}"] = names[d]
        if rng.random() < .3:
            rng.shuffle(cols)
        tables[names[k]] = {"cols": cols, "pk": ["id"], "uniq": [], "fks": fks, "serial": None, "tag": "tag"}
    return names, tables, refs


def f_graphs(rng, i, dialect, sfx):
    """an abstract schema of the specification, as a database"""
    g = CASES["graphs"][i % len(CASES["graphs"])]
    s = "s_" + (sfx if dialect == "mysql" else "") + "a"
    n = g["n"]
    names, tables, _ = tables_of(rng, g, s)
    rows = gen_rows(rng, tables, Opts(rows=(1, 4)))
    role = {k: [names[j] for j in range(n) if g["role"][j] == k] for k in "Ttnpiu"}
    some = lambda t: rng.choice([{"in": {"v": rng.sample(range(5), 3)}}, {"amount": 1}, {"percent": 50}, {"sql": [{"col": "v", "op": "<", "val": 3}]}])
    pl = {"select": [t for t in names if t not in role["u"]] if role["u"] or rng.random() < .3 else [s + ".*"],
          "targets": {t: ({"all": True} if t in role["T"] else some(t)) for t in names if t in role["T"] + role["t"]}}
    if role["p"]:
        pl["passthrough"] = role["p"]
    if role["i"]:
        pl["ignore"] = role["i"]
    if not g["incdep"]:
        pl["include_dependencies"] = False
    order = list(tables)
    rng.shuffle(order)
    return dict(id=i, dialect=dialect, schemas=[s], tables={t: tables[t] for t in order}, rows=rows, planner=pl,
                runs=[dict(create=True)] if rng.random() < .34 else [], omode="obs")


def f_moments(rng, i, dialect, sfx):
    return f_moves(rng, i, dialect, sfx, "moments")


def f_moves(rng, i, dialect, sfx, which="moves"):
    """a change of the source while it is read (spec/Moving.tla)"""
    g = CASES[which][i % len(CASES[which])]
    back = (random.Random(i % len(CASES[which])).random() + .618 * (i // len(CASES[which]))) % 1       # when, evenly
    s = "s_" + (sfx if dialect == "mysql" else "") + "a"
    names, tables, refs = tables_of(rng, g, s)
    q = lambda x: quote(dialect, x)
    letter = {"s." + "abcd"[k]: names[k] for k in range(g["n"])}

    def row(t, k, ref):
        return [{"id": k, "v": k, "tag": f"{t}#{k}"}.get(c["name"], ref(refs.get((t, c["name"])))) for c in tables[t]["cols"]]
    rows = {t: [row(t, k, lambda d: k) for k in (1, 2)] for t in tables}
    ch = json.loads(g["change"])
    sql = []
    if "move" in ch:
        t = letter[ch["move"]]
        sql = [f"UPDATE {qtable(dialect, t)} SET " + ", ".join(f"{q(f)} = 1" for (x, f) in refs if x == t) + f" WHERE {q('id')} = 2"]
    if "add" in ch:
        T = {letter[x] for x in ch["add"]}
        for t in tables:                     # (in an order that keeps the references)
            if t in T:
                sql.append(f"INSERT INTO {qtable(dialect, t)} VALUES (" + ", ".join(
                    literal(dialect, x) for x in row(t, 3, lambda d: 3 if ch["new"] and d in T else 1)) + ")")
    if g["snap"]:                            # every row of a table tells when it was read
        sql += [f"UPDATE {qtable(dialect, t)} SET {q('v')} = {q('v')} + 100" for t in tables]
    if len(sql) > 1:
        sql = [sql]                          # one transaction
    role = {k: [names[j] for j in range(g["n"]) if g["role"][j] == k] for k in "Ttnp"}
    pl = {"select": [s + ".*"], "targets": {t: ({"all": True} if t in role["T"] else {"amount": 1}) for t in names if t in role["T"] + role["t"]}}
    if role["p"]:
        pl["passthrough"] = role["p"]
    run = dict(create=True)
    if g["snap"]:
        run["isolation"] = rng.choice(["REPEATABLE READ"] * (4 if dialect == "mysql" else 1) + ["SERIALIZABLE"]) if dialect != "sqlite" else "SERIALIZABLE"
    return dict(id=i, dialect=dialect, schemas=[s], tables=tables, rows=rows, planner=pl, omode="obs", wal=dialect == "sqlite",
                runs=[run, dict(run, fresh=True, srcchange=[{"read": back, "sql": sql}])])


def f_dests(rng, i, dialect, sfx):
    """a destination of the specification's run machine (spec/Run.tla), and its interruptions"""
    c = CASES["dests"][i % len(CASES["dests"])]
    s = "s_" + (sfx if dialect == "mysql" else "") + "a"
    n = c["n"]
    name = ["%s.%s" % (s, x) for x in rng.sample(gen.NAMES, n)]
    refs = {k: sorted(b - 1 for a, b in c["e"] if a - 1 == k) for k in range(n)}
    old = lambda k: {"no": [], "own": [7, 8], "same": [2, 7]}[c["had"][k]]

    def table(k, among):
        cols = [{"name": "id", "type": "int", "null": False}, {"name": "v", "type": "int", "null": False}]
        cols += [{"name": f"r_{j}", "type": "int", "null": True} for j in refs[k]]
        return {"cols": cols, "pk": ["id"], "uniq": [], "serial": None, "tag": None,
                "fks": [{"cols": [f"r_{j}"], "dst": name[j], "dcols": ["id"]} for j in refs[k] if j in among]}
    there = [k for k in range(n) if c["st"][k] in ("keep", "other")]
    tables = {name[k]: table(k, range(n)) for k in range(n)}
    rows = {name[k]: [[x, 10 + x] + [x] * len(refs[k]) for x in (1, 2)] for k in range(n)}
    wanted = [name[k] for k in range(n) if c["st"][k] in ("keep", "new")]
    rng.shuffle(wanted)
    order = list(range(n))
    sc = dict(id=i, dialect=dialect, schemas=[s], tables=tables, rows=rows, omode="det",
              planner={"select": wanted, "targets": {t: {"all": True} for t in rng.sample(wanted, len(wanted))}, "include_dependencies": False})
    if there:
        sc["dest"] = {"tables": {name[k]: table(k, there) for k in there},
                      "rows": {name[k]: [[x, 20 + m + 1] + [(old(j)[m] if j in there and old(j) else None) for j in refs[k]]
                                         for m, x in enumerate(old(k))] for k in there}}
    run = dict(create=c["create"], truncate=c["truncate"], fresh=True)
    if c["conflict"] != "error" or rng.random() < .3:
        run["conflict"] = c["conflict"]
    runs = [dict(run, observe=True), dict(run, cutfrac=rng.random(), same=1, observe=True)]
    if c["truncate"]:
        runs.append({k: v for k, v in dict(run, same=1).items() if k != "fresh"})
        runs.append(dict(run, cutfrac=rng.random(), same=1, kill=True))
        runs.append({k: v for k, v in dict(run, same=1).items() if k != "fresh"})
    sc["runs"] = runs
    return sc


KEYTABLES = {      # columns, primary key, foreign keys
    "ref": {"a": ("id v", "id", []), "b": ("id r", "id", [("r", "a", "id")])},
    "self": {"a": ("id v r", "id", [("r", "a", "id")])},
    "two": {"a": ("id v", "id", []), "b": ("id r q", "id", [("r", "a", "id"), ("q", "a", "id")])},
    "chain": {"a": ("id v", "id", []), "b": ("id v", "id", [("id", "a", "id")]), "c": ("id r", "id", [("r", "b", "id")])},
    "pair": {"a": ("x y", "x y", []), "b": ("id rx ry", "id", [("rx ry", "a", "x y")])},
    "part": {"a": ("id v", "id", []), "b": ("x y", "x y", [("x", "a", "id")]), "c": ("id rx ry", "id", [("rx ry", "b", "x y")])},
}


def old_rows(c, t, n):
    """Old of spec/KeysMC.tla"""
    if c["max"] == "none":
        return []
    low, rest = -2, [None] * (n - 1)
    if t == "a":
        return [[low] + rest, [int(c["max"])] + rest]
    return [] if c["shape"] == "part" else [[low if (c["shape"], t) == ("chain", "b") else 4] + rest]


def f_keys(rng, i, dialect, sfx):
    """an arrangement of keys of the specification (spec/KeysMC.tla)"""
    c = CASES["keys"][i % len(CASES["keys"])]
    s = "s_" + (sfx if dialect == "mysql" else "") + "a"
    shape = KEYTABLES[c["shape"]]
    name = dict(zip(sorted(shape), ["%s.%s" % (s, x) for x in rng.sample(gen.NAMES, len(shape))]))
    tables = {}
    for t in sorted(shape):
        cols, pk, fks = shape[t]
        tables[name[t]] = {"cols": [{"name": x, "type": "int", "null": x not in pk.split()} for x in cols.split()], "pk": pk.split(), "uniq": [],
                           "serial": None, "tag": None, "fks": [{"cols": a.split(), "dst": name[d], "dcols": b.split()} for a, d, b in fks]}
    ks, refs = c["keys"], c["refs"]
    at = lambda j, f: None if j == 0 else f(j)
    key = lambda j: ks[j - 1]
    two = (1, 2)
    rows = {"a": {"self": [[key(k), 10 + k, at(refs[k - 1], key)] for k in two], "pair": [[key(k), key(2)] for k in two]}.get(
        c["shape"], [[key(k), 10 + k] for k in two])}
    own = (3, 1)
    rows["b"] = {"ref": [[own[k], at(r, key)] for k, r in enumerate(refs)], "two": [[own[k], at(r, key), at(r, lambda j: key(3 - j))] for k, r in enumerate(refs)],
                 "chain": [[key(k), 20 + k] for k in two], "pair": [[own[k], at(r, key), at(r, lambda j: key(2))] for k, r in enumerate(refs)],
                 "part": [[key(k), 7] for k in two], "self": []}[c["shape"]]
    rows["c"] = {"chain": [[own[k], at(r, key)] for k, r in enumerate(refs)],
                 "part": [[own[k], at(r, key), at(r, lambda j: 7)] for k, r in enumerate(refs)]}.get(c["shape"], [])
    sc = dict(id=i, dialect=dialect, schemas=[s], tables=tables, rows={name[t]: rows[t] for t in shape}, omode="det",
              planner={"select": [s + ".*"], "targets": {t: {"all": True} for t in rng.sample(list(tables), len(tables))}})
    if c["shape"] == "self":
        sc["planner"]["ignore_fks"] = [{"src_table": name["a"], "dst_table": name["a"]}]
    run = {}
    if c["comp"] != "no":
        run["compact"] = {"start": c["start"], **({"pk": True} if c["comp"] == "pk" else {"cols": {name["a"]: [tables[name["a"]]["pk"][0]]}})}
    if c["m"] > 1:
        run["mult"] = {"m": c["m"], **({"ignore": [name["a"]]} if c["ign"] else {})}
    if c["max"] == "-":
        run.update(rng.choice([dict(create=True), dict(create=True), dict(kind="dir")]))
        sc["runs"] = [run]
    else:
        run["merge"] = True
        sc["dest"] = {"tables": {t: json.loads(json.dumps(x)) for t, x in tables.items()},
                      "rows": {name[t]: old_rows(c, t, len(tables[name[t]]["cols"])) for t in shape}}
        sc["runs"] = [run] + ([dict(run)] if rng.random() < .5 else [])
    return sc


FAMILIES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("f_")}
