"""What each property's check runs and which broken clauses count for it.
A clause ending in * stands for every clause that starts with it."""
S, G, M = "sqlite", "postgres", "mysql"

PROPS = {
    "C01": dict(fam=[("closure", S, 420, 12000), ("closure", G, 60, 1200), ("closure", M, 40, 700), ("graphs", S, 640, 9000)],
                count=["closure", "plan.edge-not-followed-once"]),
    "C02": dict(fam=[("union", S, 420, 12000), ("union", G, 60, 1200), ("union", M, 40, 700)],
                count=["sample.union", "sample.intersection", "sample.target-referenced", "plan.unrelated", "rows", "run.failed"]),
    "C03": dict(fam=[("plan", S, 500, 9000), ("graphs", S, 2540, 17000)],
                count=["plan.accepted.cycle", "plan.refused", "plan.cycle-unnamed", "plan.tables", "plan.foreign-join", "plan.unrelated",
                       "plan.target-restricted", "plan.circular", "plan.edge-not-followed-once"]),
    "C04": dict(fam=[("target", S, 400, 12000), ("target", G, 60, 1200), ("target", M, 40, 700), ("chance", S, 300, 5000), ("chance", G, 48, 700), ("chance", M, 48, 700)],
                count=["sample.target", "sample.target-referenced", "chance*", "rows", "run.failed"]),
    "C05": dict(fam=[("random", S, 200, 6000), ("random", G, 60, 1000), ("moving", G, 60, 1000), ("moving", M, 24, 500), ("random", M, 60, 600), ("moves", G, 140, 2000), ("moves", M, 60, 1000)],
                count=["once*", "closure", "sample.union", "sample.intersection", "sample.target*", "rows", "run.failed"]),
    "C06": dict(fam=[("document", S, 250, 8000), ("cli", S, 120, 3000), ("document", G, 30, 700)],
                count=["plan-document", "same", "rows", "sample*", "closure", "run.failed"]),
    "C08": dict(fam=[("copy", S, 300, 9000), ("big", S, 16, 200), ("copy", G, 60, 1200), ("copy", M, 40, 700), ("big", G, 8, 60), ("big", M, 6, 40)],
                count=["rows", "run.failed"]),
    "C09": dict(fam=[("compact", S, 350, 9000), ("compact", G, 60, 1200), ("compact", M, 50, 800), ("big", S, 6, 60), ("keys", S, 300, 5000)],
                count=["rows", "run.failed", "run.accepted.compaction"]),
    "C10": dict(fam=[("merge", S, 350, 9000), ("merge", G, 60, 1200), ("merge", M, 40, 700), ("keys", S, 300, 5000), ("keys", G, 40, 800)],
                count=["rows", "others", "run.failed", "clash.changed-rows"]),
    "C11": dict(fam=[("mult", S, 350, 9000), ("mult", G, 50, 1000), ("mult", M, 40, 700), ("keys", S, 300, 5000), ("keys", M, 30, 500)],
                count=["rows", "run.failed", "run.accepted.multiplicity"]),
    "C12": dict(fam=[("conflict", S, 320, 9000), ("conflict", G, 70, 1400), ("conflict", M, 60, 900), ("dests", S, 248, 5000)],
                count=["rows", "others", "run.clash-accepted", "clash.changed-rows", "run.failed"]),
    "C13": dict(fam=[("truncate", S, 260, 7000), ("truncate", G, 60, 1200), ("truncate", M, 40, 600), ("dests", S, 248, 5000), ("dests", G, 124, 1500)],
                count=["rows", "others", "look*", "run.failed"]),
    "C14": dict(fam=[("create", S, 220, 6000), ("create", G, 70, 1400), ("create", M, 60, 900)],
                count=["create.*", "table-absent", "run.accepted.missing-table", "run.failed"]),
    "C15": dict(fam=[("remap", S, 320, 9000), ("remap", G, 50, 1000), ("remap", M, 40, 600)],
                count=["rows", "others", "run.accepted.remap", "run.refused-late", "create.unwanted", "run.failed"]),
    "C16": dict(fam=[("source", S, 160, 4000), ("source", G, 40, 800), ("source", M, 50, 700)],
                count=["source.*"]),
    "C17": dict(fam=[("refuse", S, 380, 9000), ("refuse", G, 50, 1000), ("refuse", M, 40, 700), ("dests", S, 248, 5000)],
                count=["run.accepted.*", "run.refused-late"]),
    "C18": dict(fam=[("abort", S, 120, 3000), ("abort", G, 36, 700), ("abort", M, 24, 400), ("dests", S, 248, 5000), ("dests", G, 80, 1500), ("dests", M, 60, 1000)],
                count=["look*"]),
    "C19": dict(fam=[("filters", S, 420, 12000), ("filters", G, 40, 900), ("filters", M, 30, 500)],
                count=["rows", "run.failed", "run.accepted.filters"]),
    "C20": dict(fam=[("select", S, 600, 14000), ("select", G, 40, 900), ("select", M, 30, 500), ("graphs", S, 1300, 17000)],
                count=["plan.accepted*", "plan.refused", "plan.tables", "plan.foreign-join", "plan.edge-not-followed-once"]),
    "C21": dict(fam=[("pass", S, 420, 12000), ("pass", G, 40, 900), ("pass", M, 30, 500)],
                count=["sample*", "rows", "plan.accepted.passthrough-refers-out", "plan.foreign-join", "plan.tables", "plan.refused", "run.failed"]),
    "C22": dict(fam=[("sequence", G, 160, 4000)], count=["next-key", "run.failed"]),
    "C23": dict(fam=[("snapshot", G, 90, 2000), ("snapshot", M, 32, 500), ("snapshot", S, 120, 3000), ("moments", G, 150, 3000), ("moments", M, 120, 2000), ("moments", S, 150, 4000)], count=["snapshot"]),
    "C07": dict(fam=[], count=[]),
    "C24": dict(fam=[], count=[]),
    "C25": dict(fam=[], count=[]),
    "C27": dict(fam=[("language", S, 1000, 20000), ("language", G, 100, 2000), ("language", M, 70, 1200)], count=["denotes", "run.failed", "extra"]),
    "C26": dict(fam=[("rerun", S, 180, 5000), ("rerun", G, 40, 800), ("rerun", M, 30, 500), ("dests", S, 248, 5000)], count=["same", "run.failed"]),
}


def counted(prop, clauses):
    pats = PROPS[prop]["count"] + ["unreadable", "unobservable", "hangs"]
    return sorted(c for c in clauses if any(c == p or (p.endswith("*") and c.startswith(p[:-1])) for p in pats))

NOTES = {}
