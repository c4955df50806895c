"""Random scenarios: source schemas, rows, planner and sampler configurations."""
import datetime
import decimal
import random

NAMES = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa"]
ODD = ["Order", "group", "t one", "Mixed_Case", "select", "x-y"]
# (what SQLAlchemy cannot reflect on some engine is left out: backticks, parentheses and commas)
ODDER = ["p%s", "per%%cent", "co:lon", 'quo"te', "back\\slash", "Ünïcødé", "quick_brown_foxes_jump_over_my_lazy_dogs_1234567_x", "quick_brown_foxes_jump_over_my_lazy_dogs_1234567_y",
         "dollar$", "semi;colon",
         "a*b", "axb", "wh?", "who", "br[1]", "br1", "apos'trophe", "hash#tag", "日本語の長い名前のテーブルです本当に", "日本語の長い名前のテーブルです本当な", "{x}", "at@"]
# (MySQL: PyMySQL's executemany leaves the percent signs of ON DUPLICATE KEY clauses doubled)
ODDCOL = [" c", "%", "%s", ":c", 'q"', "Ü", "C", ".d", "-", "'", "long" * 10]
WORDS = ["ab", "abc", "b", "bc", "ca", "cab", "d", "a1", "b2", "zz", "007", "1.50", "1e1", "+7", "true"]


class Opts(dict):
    def __getattr__(self, k):
        return self.get(k)


def P(rng, p):
    return rng.random() < (p or 0)


# ---------------------------------------------------------------- schema
def gen_schema(rng, dialect, o):
    """tables in topological order (parents first) with shuffled names"""
    n = rng.randint(*o.get("tables", (2, 5)))
    nsch = 1 if rng.random() < 0.55 else 2
    pre = "s_" + (o.sfx or "")
    schemas = [pre + "a", pre + ("Zed" if P(rng, o.oddnames) else "b")][:nsch]
    if dialect == "sqlite" and P(rng, o.get("p_main", .3)):
        schemas[0] = "main"
    if dialect == "postgres" and P(rng, o.get("p_main", .3)):        # tables there can be named without their schema
        schemas[rng.randrange(nsch)] = "public"
    pool = NAMES + (ODD if P(rng, o.oddnames) else [])
    names = rng.sample(pool, min(n, len(pool)))
    odder = P(rng, (o.oddnames or 0) * .4)
    if odder:
        names = [rng.choice([x, x, y]) for x, y in zip(names, rng.sample(ODDER, min(n, len(ODDER))))]
    fulls = []
    for nm in names:
        sch = rng.choice(schemas)
        full = sch + "." + nm
        if fulls and nsch == 2 and P(rng, 0.12):          # same name in two schemas
            prev = rng.choice(fulls)
            ps, pn = prev.split(".", 1)
            cand = (schemas[0] if ps != schemas[0] else schemas[1]) + "." + pn
            if cand not in fulls:
                full = cand
        fulls.append(full)
    named = P(rng, o.namedpk)
    tables = {}
    order = []
    for k, t in enumerate(fulls):
        sch, nm = t.split(".", 1)
        base = "".join(x for x in nm if x.isalnum() or x == "_")[:20] + ("x" if k < len(names) and nm in ODDER else "")
        twist = (lambda nmc: nmc + rng.choice([x for x in ODDCOL if dialect != "mysql" or "%" not in x]) if rng.random() < .5 else nmc) if odder else (lambda nmc: nmc)
        kind = rng.random()
        cols, pk, uniq, serial = [], [], [], None
        pkname = (base.lower() + "_id") if named else "id"
        if kind < o.get("p_nopk", 0.08):
            pass
        elif kind < o.get("p_nopk", 0.08) + o.get("p_comp", 0.15):
            cols += [{"name": "ka", "type": "int", "null": False}, {"name": "kb", "type": "int", "null": False}]
            pk = ["ka", "kb"]
            if P(rng, 0.3):
                pk = ["kb", "ka"]
        elif kind < o.get("p_nopk", 0.08) + o.get("p_comp", 0.15) + o.get("p_textpk", 0.06):
            cols.append({"name": pkname, "type": "text", "null": False})
            pk = [pkname]
        else:
            cols.append({"name": pkname, "type": "int", "null": False})
            pk = [pkname]
            if dialect == "sqlite" or P(rng, o.get("p_serial", 0.5)):
                serial = pkname
        if P(rng, o.get("p_uniq", 0.25)):
            cols.append({"name": "u", "type": "int", "null": False})
            uniq.append(["u"])
        cols.append({"name": "v", "type": "int", "null": P(rng, 0.6)})
        if P(rng, 0.6):
            cols.append({"name": "w", "type": "text", "null": P(rng, 0.6)})
        cols.append({"name": "tag", "type": "text", "null": True})
        if P(rng, o.p_computed):
            cols.append({"name": "cc", "type": "int", "null": True, "computed": "v + 1"})
        for j, ty in enumerate(o.get("types", ())):
            if P(rng, o.get("p_type", 0.5)):
                cols.append({"name": twist(f"x{j}"), "type": ty, "null": True})
        fks = []
        cand = [p for p in order if dialect != "sqlite" or p.split(".", 1)[0] == sch]
        nf = 0
        if cand:
            nf = rng.choice([0, 1, 1, 1, 2, 2, 3]) if k else 0
            nf = min(nf, o.get("maxfks", 3))
        for j in range(nf):
            p = fks[-1]["dst"] if fks and o.get("p_same") and fks[-1]["dst"] in cand and P(rng, o.get("p_same")) else rng.choice(cand)
            ps = tables[p]
            ways = [w for w in ([ps["pk"]] if ps["pk"] else []) + ps["uniq"] if len(w) <= 2]
            if not ways:
                continue
            dcols = list(rng.choice(ways))
            if len(dcols) == 2 and P(rng, 0.4) and dialect != "mysql":   # InnoDB wants the key's own order
                dcols.reverse()
            tys = [next(c["type"] for c in ps["cols"] if c["name"] == d) for d in dcols]
            mine = []
            nullable = not P(rng, 0.35)
            for d, ty in zip(dcols, tys):
                ex = [c["name"] for c in cols if c["type"] == ty and c["name"].startswith("f_") and c["name"] not in mine]
                if ex and P(rng, o.get("p_share", 0.08)):
                    mine.append(rng.choice(ex))
                    continue
                if (len(dcols) == 1 and pk and len(pk) == 1 and ty == "int" and cols[0]["type"] == "int"
                        and not fks and P(rng, o.get("p_pkfk", 0.05))):
                    mine.append(pk[0])
                    serial = None
                    continue
                if P(rng, o.get("p_kafk", 0.25)) and ty == "int" and "ka" in pk and "ka" not in mine \
                        and not any("ka" in f["cols"] for f in fks):
                    mine.append("ka")
                    continue
                if named and len(dcols) == 1 and dcols[0] not in [c["name"] for c in cols]:
                    nmc = dcols[0]
                else:
                    nmc = twist(f"f_{j}_{d}"[:18])
                    if dcols == ["id"] and P(rng, 0.15) and "v2" not in [c["name"] for c in cols]:
                        nmc = "v2"
                cols.append({"name": nmc, "type": ty, "null": nullable})
                mine.append(nmc)
            if any(f["cols"] == mine and f["dst"] == p for f in fks):
                continue
            fk = {"cols": mine, "dst": p, "dcols": dcols}
            if named and P(rng, o.p_undeclared) and len(mine) == 1:
                continue                                    # left for inference
            fks.append(fk)
        if named and P(rng, o.p_undeclared) and cand:
            p = rng.choice(cand)
            pp = tables[p]["pk"]
            if len(pp) == 1 and pp[0] not in [c["name"] for c in cols]:
                ty = next(c["type"] for c in tables[p]["cols"] if c["name"] == pp[0])
                cols.append({"name": pp[0], "type": ty, "null": True})
        if P(rng, o.p_self) and len(pk) == 1 and cols[0]["type"] == "int":
            cols.append({"name": "parent", "type": "int", "null": True})
            fks.append({"cols": ["parent"], "dst": t, "dcols": list(pk)})
        spec = {"cols": cols, "pk": pk, "uniq": uniq, "fks": fks, "serial": serial, "tag": "tag"}
        if P(rng, 0.2) and fks:
            spec["indexes"] = [fks[0]["cols"]]
        # shuffle column order a little
        if P(rng, 0.3):
            rng.shuffle(cols)
        tables[t] = spec
        order.append(t)
    if P(rng, o.p_cycle) and len(order) >= 2:
        i, j = sorted(rng.sample(range(len(order)), 2))
        a, b = order[i], order[j]        # a earlier than b; add a -> b
        if (dialect != "sqlite" or a.split(".", 1)[0] == b.split(".", 1)[0]) and tables[b]["pk"]:
            dc = tables[b]["pk"]
            mine = []
            for d in dc:
                ty = next(c["type"] for c in tables[b]["cols"] if c["name"] == d)
                tables[a]["cols"].append({"name": "back_" + d, "type": ty, "null": True})
                mine.append("back_" + d)
            tables[a]["fks"].append({"cols": mine, "dst": b, "dcols": list(dc)})
    return schemas, tables


VALS = {
    "float": lambda r: r.choice([0.5, -1.25, 3.0, 1e10, 0.1]),
    "bool": lambda r: r.random() < 0.5,
    "date": lambda r: datetime.date(2020, 1, 1) + datetime.timedelta(days=r.randint(0, 900)),
    "dt": lambda r: datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=r.randint(0, 10**7), microseconds=r.choice([0, 250000, 1])),
    "num": lambda r: decimal.Decimal(r.randint(-10**7, 10**7)) / 10000,
    "blob": lambda r: bytes(r.randint(0, 255) for _ in range(r.randint(0, 5))),
    "json": lambda r: r.choice([{"a": 1}, {"b": [1, None, "x"]}, [1, 2], {"k": {"z": True}}, "s", 5]),
    "big": lambda r: r.choice([2**40, -2**40, 7, 2**62]),
    "ltext": lambda r: r.choice(["", "it's", "a\"b", "back\\slash", "line\nbreak", "%s %(x)s :y", "Ünïcödé ☃", "NULL", " pad "]),
}


VALS.update({
    "time": lambda r: datetime.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 250000, 1])),
    "small": lambda r: r.randint(0, 300), "char": lambda r: r.choice(["sevench", "ABCDEFG", "a'b\"c%d"]), "nchar": lambda r: r.choice(["日本", "x", ""]),
    "stamp": lambda r: datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=r.randint(0, 10**7)),
    "double": lambda r: r.choice([0.5, -1.25, 3.0]),
    "uuid": lambda r: r.choice(["a0eebc99-9c0b-4ef8-bb6d-6bb9bd380a11", "00000000-0000-0000-0000-000000000000"]),
    "span": lambda r: datetime.timedelta(days=r.randint(-3, 40), seconds=r.randint(0, 9999)),
    "array": lambda r: r.choice([[1, 2, None], [], [[1, 2], [3, 4]], [7]]),
    "tarray": lambda r: r.choice([["a", "b c", None], ["{}", "\"", ","], []]),
    "inet": lambda r: r.choice(["10.0.0.1", "10.0.0.0/8", "::1"]), "bits": lambda r: r.choice([0, 165, 255]),
    "range": lambda r: r.choice(["[1,5)", "[-3,7)", "empty"]), "plain": lambda r: decimal.Decimal(r.randint(-10**6, 10**6)) / 1000,
    "enum": lambda r: r.choice(["a", "b c", "it's"]), "set": lambda r: r.choice(["x", "x,y", "z"]), "year": lambda r: r.choice([1999, 2155]),
    "tiny": lambda r: r.randint(-128, 127), "medium": lambda r: r.choice(["", "x" * 300, "it's"]),
    "vbin": lambda r: bytes(r.randint(0, 255) for _ in range(r.randint(0, 5))),
})


def gen_value(rng, c, ci=""):
    if c.get("null", True) and c["name"] != "tag" and rng.random() < 0.25:
        return None
    ty = c["type"]
    if ty == "int":
        return rng.randint(0, 4) if c["name"] in ("v",) else rng.randint(-2, 12)
    if ty == "text":
        return rng.choice(WORDS)
    return VALS[ty](rng)


def gen_rows(rng, tables, o):
    rows = {}
    for t, spec in tables.items():
        n = rng.randint(*o.get("rows", (0, 6)))
        if o.get("bigtable") == t:
            n = o["bigrows"]
        names = [c["name"] for c in spec["cols"]]
        out, seen = [], {tuple(spec["pk"]): set()}
        for u in spec["uniq"]:
            seen[tuple(u)] = set()
        big = n > 40
        for i in range(n):
            for _try in range(12):
                row = {}
                ok = True
                for f in spec["fks"]:
                    parents = rows.get(f["dst"]) if f["dst"] != t else out
                    nullable = [c for c in f["cols"] if next(x for x in spec["cols"] if x["name"] == c).get("null", True)]
                    free_null = [c for c in nullable if c not in row or row[c] is None]
                    # composite references may be partially null
                    if parents and not (free_null and rng.random() < 0.2):
                        pcols = [c["name"] for c in tables[f["dst"]]["cols"]]
                        cands = parents
                        fixed = [(c, d) for c, d in zip(f["cols"], f["dcols"]) if c in row]
                        if any(row[c] is None for c, d in fixed):
                            for c in f["cols"]:
                                row.setdefault(c, gen_value(rng, next(x for x in spec["cols"] if x["name"] == c)))
                            continue
                        if fixed:
                            cands = [p for p in parents if all(p[pcols.index(d)] == row[c] for c, d in fixed)]
                        if cands:
                            p = rng.choice(cands)
                            for c, d in zip(f["cols"], f["dcols"]):
                                row[c] = p[pcols.index(d)]
                            continue
                    if not free_null:
                        ok = False
                        break
                    nul = rng.choice(free_null)
                    row[nul] = None
                    for c in f["cols"]:
                        if c not in row:
                            row[c] = None if c in nullable and rng.random() < 0.6 else gen_value(
                                rng, {**next(x for x in spec["cols"] if x["name"] == c), "null": False})
                if not ok:
                    continue
                for c in spec["cols"]:
                    nm = c["name"]
                    if nm in row:
                        continue
                    if c.get("computed"):
                        row[nm] = None
                        continue
                    if nm == "tag":
                        row[nm] = f"{o.get('tagprefix', '')}{t[2:].replace(' ', '').replace('.', '').lower()}{i}" if not o.get("duptags") else rng.choice("pq")
                    elif nm in spec["pk"] or [nm] in spec["uniq"]:
                        if c["type"] == "int":
                            lo, hi = o.get("keyrange", (-3, 45))
                            row[nm] = rng.randint(lo, max(hi, 3 * n)) if not (nm in ("ka", "kb")) else rng.randint(1, max(4, n // 3))
                        else:
                            row[nm] = rng.choice(WORDS) + str(rng.randint(0, max(30, 3 * n)))
                    else:
                        row[nm] = gen_value(rng, c)
                vals = [row[x] for x in names]
                keyok = True
                for key, st in seen.items():
                    if key:
                        kv = tuple(row[x] for x in key)
                        if kv in st:
                            keyok = False
                if not keyok:
                    continue
                for key, st in seen.items():
                    if key:
                        st.add(tuple(row[x] for x in key))
                out.append(vals)
                break
        if o.get("duprows") and not spec["pk"] and not spec["uniq"]:
            for _ in range(rng.randint(0, 3) if out else 0):
                k = rng.randrange(len(out))
                out.insert(rng.choice([k, len(out)]), list(out[k]))
        rows[t] = out
    # references added later (cycles) stay null
    return rows


# ---------------------------------------------------------------- planner
def given(c, v):
    """a value of a column as a configuration gives it"""
    if c["type"] == "dt":
        return v.strftime("%Y-%m-%d %H:%M:%S.%f")
    return v.isoformat() if c["type"] == "date" else float(v) if c["type"] == "num" else v


ORDERED = ("float", "date", "dt", "num")


def gen_cond(rng, spec):
    c = rng.choice([c for c in spec["cols"] if c["type"] in ("int", "text") + ORDERED])
    if c["type"] in ORDERED:
        return {"col": c["name"], "op": rng.choice(["<", ">", "=", "<>", "!="]), "val": given(c, VALS[c["type"]](rng))}
    if c["type"] == "int":
        return {"col": c["name"], "op": rng.choice(["<", ">", "=", "<>", "!="]), "val": rng.randint(-2, 14)}
    op = rng.choice(["like", "not like", "=", "<>", "<", ">"])
    if op in ("like", "not like"):
        return {"col": c["name"], "op": op, "val": rng.choice(["a%", "%b", "_b%", "%", "c_b", "zz", "%1%"])}
    return {"col": c["name"], "op": op, "val": rng.choice(WORDS)}


def gen_target(rng, spec, rows, o):
    g = {}
    r = rng.random()
    if r < o.get("p_all", 0.25):
        g["all"] = True
        if rng.random() < 0.8:
            return g
    k = rng.random()
    names = [c["name"] for c in spec["cols"]]
    if k < 0.45:
        c = rng.choice([c for c in spec["cols"] if c["type"] in ("int", "text") + ORDERED])
        if o.get("textcond") and (tx := [c for c in spec["cols"] if c["type"] == "text" and c["name"] != "tag"]):
            c = rng.choice(tx)
        have = [given(c, x[names.index(c["name"])]) for x in rows if x[names.index(c["name"])] is not None]
        vals = rng.sample(have, min(len(have), rng.randint(1, 3))) + ([99] if c["type"] == "int" else ["none"] if c["type"] == "text" else []) * (rng.random() < 0.3)
        if vals:
            g["in"] = {c["name"]: vals}
    if 0.35 < k < 0.6:
        tx = [c for c in spec["cols"] if c["type"] == "text"]
        if tx:
            c = rng.choice(tx)
            pats = [rng.choice(["a%", "%b%", "_b%", "%", "%1", "%2", "b%"]) for _ in range(rng.choice([1, 1, 2]))]
            g["like"] = {c["name"]: pats}
    if k > 0.55 and rng.random() < 0.6:
        g["sql"] = [gen_cond(rng, spec) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .4:
            g["sql"] = [g["sql"], [gen_cond(rng, spec)]]
    if rng.random() < o.get("p_random", 0.3):
        if rng.random() < 0.5:
            g["amount"] = rng.randint(0, 4)
        else:
            g["percent"] = rng.choice([0, 30, 50, 70, 100])
    elif rng.random() < 0.12:
        g["amount"] = rng.choice([0, 50, 100000])
    elif rng.random() < 0.1:
        g["percent"] = rng.choice([0, 100])
    return g


def gen_planner(rng, dialect, schemas, tables, rows, o):
    names = list(tables)
    p = {"select": [], "targets": {}}
    r = rng.random()
    if r < 0.6 or o.simpleselect:
        p["select"] = [s + ".*" for s in schemas]
    elif r < 0.8:
        p["select"] = ["*"] if rng.random() < 0.3 else [s + ".*" for s in schemas[:1]] + rng.sample(names, rng.randint(1, len(names)))
    else:
        p["select"] = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < 0.4:
            t = rng.choice(names)
            k = rng.randrange(t.index(".") + 1, len(t))
            p["select"].append(t[:-1] + "?" if rng.random() < 0.4 else t[:t.index(".") + 2] + "*" if rng.random() < .5 else
                               t[:k] + "?" + t[k + 1:] if not t[k].islower() or t[k] > "z" else
                               t[:k] + rng.choice(["[%s]", "[%sz]", "[z%s]", "[!%s]", "[!%s]*", "[a-%s]*", "[%s"]) % t[k] + t[k + 1:])
    if P(rng, o.p_nodeps):
        p["include_dependencies"] = False
    nt = rng.choice([1, 1, 1, 2, 2, 3])
    sel = names
    targets = rng.sample(sel, min(nt, len(sel)))
    if P(rng, o.p_pass):
        cand = [t for t in names if t not in targets]
        leaves = [t for t in cand if not tables[t]["fks"]]
        pool = leaves if leaves and rng.random() < 0.85 else cand
        if pool:
            p["passthrough"] = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2])))
            if rng.random() < 0.1:
                p["passthrough"].append(schemas[0] + ".nonexistent")
    if P(rng, o.p_ignore):
        cand = [t for t in names if t not in targets]
        referenced = {f["dst"] for t in tables for f in tables[t]["fks"]}
        free = [t for t in cand if t not in referenced]
        pool = free if free and rng.random() < 0.8 else cand
        if pool:
            p["ignore"] = [rng.choice(pool)]
    if P(rng, o.p_ignorefk):
        allf = [(t, f["dst"]) for t in tables for f in tables[t]["fks"]]
        if allf:
            s, d = rng.choice(allf)
            p["ignore_fks"] = [{"src_table": s, "dst_table": d}]
        if rng.random() < 0.1:
            p.setdefault("ignore_fks", []).append({"src_table": schemas[0] + ".nope", "dst_table": names[0]})
    for t in tables:                                      # self references must be ignored to be planned
        if any(f["dst"] == t for f in tables[t]["fks"]) and rng.random() < 0.85:
            p.setdefault("ignore_fks", []).append({"src_table": t, "dst_table": t})
    if P(rng, o.p_extra) and len(names) > 1:
        for _ in range(rng.choice([1, 1, 2])):
            i, j = sorted(rng.sample(range(len(names)), 2))
            s, d = names[j], names[i]
            if rng.random() < 0.1:
                s, d = d, s
            sc = [c["name"] for c in tables[s]["cols"] if c["type"] == "int"]
            dc = [c["name"] for c in tables[d]["cols"] if c["type"] == "int"]
            if sc and dc:
                k = 2 if len(sc) > 1 and len(dc) > 1 and rng.random() < 0.3 else 1
                e = {"src_table": s, "src_columns": rng.sample(sc, k), "dst_table": d, "dst_columns": rng.sample(dc, k)}
                if rng.random() < 0.08:
                    e["src_columns"] = ["nosuch"] + e["src_columns"][1:]
                if rng.random() < 0.05:
                    e["dst_columns"] = ["nosuch"] + e["dst_columns"][1:]
                if rng.random() < 0.04:
                    e["dst_table"] = schemas[0] + ".nope"
                p.setdefault("extra_fks", []).append(e)
    if P(rng, o.p_infer):
        p["infer_foreign_keys"] = rng.choice(["schema", "all"])
    for t in targets:
        p["targets"][t] = gen_target(rng, tables[t], rows[t], o)
    if P(rng, o.p_badtarget):
        p["targets"][schemas[0] + ".unknown"] = {"all": True}
    if P(rng, o.p_constraint):
        t = rng.choice(names)
        p["table_constraints"] = {t: [{"column": c["col"], "operator": c["op"], "value": c["val"]}
                                      for c in [gen_cond(rng, tables[t]) for _ in range(rng.choice([1, 1, 2]))]]}
        if rng.random() < 0.06:
            p["table_constraints"][t].append({"column": "nosuch", "operator": "=", "value": 1})
    return p
