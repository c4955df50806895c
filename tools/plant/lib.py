"""Helpers for the demonstrations: sqlite databases in a scratch directory."""
import os
import shutil
import sqlite3
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for k in [k for k in os.environ if k.startswith("SUBSET_")]:
    del os.environ[k]
ROOT = tempfile.mkdtemp(prefix="demo.")
import atexit  # noqa: E402
atexit.register(shutil.rmtree, ROOT, True)


def db(name, script):
    path = os.path.join(ROOT, name)
    c = sqlite3.connect(path)
    c.executescript(script)
    c.commit()
    c.close()
    return path


def rows(path, sql):
    c = sqlite3.connect(path)
    try:
        return [tuple(r) for r in c.execute(sql).fetchall()]
    finally:
        c.close()


def plan(src, planner):
    from subsetter.config_model import SubsetterConfig
    from subsetter.planner import Planner
    cfg = SubsetterConfig.model_validate({"source": {"dialect": "sqlite", "database": src}, "planner": planner})
    return Planner(cfg.source, cfg.planner).plan()


def make_plan(doc):
    from subsetter.plan_model import SubsetPlan
    return SubsetPlan.model_validate(doc)


def sample(src, p, sampler, source=None, **flags):
    from subsetter.config_model import SubsetterConfig
    from subsetter.sampler import Sampler
    cfg = SubsetterConfig.model_validate({"source": {"dialect": "sqlite", "database": src, **(source or {})}, "sampler": sampler})
    Sampler(cfg.source, cfg.sampler).sample(p, **flags)


def to(dst, **more):
    return {"mode": "database", "dialect": "sqlite", "database": dst, **more}


def run(src, planner, sampler, **flags):
    sample(src, plan(src, planner), sampler, **flags)


def check(ok, text):
    if not ok:
        print("BROKEN:", text)
        sys.exit(1)
