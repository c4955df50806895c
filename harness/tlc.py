"""Runs TLC: model checking of a module, and validation of recorded scenarios
in parallel batches."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


TRANSITIONS = [0]         # states generated by validate() in this process


class TlcError(Exception):
    pass


def run(module, cfg, scratch, env=None, workers=1, timeout=850, heap="2g", extra=()):
    """run TLC on SPEC/module.tla; returns its output and the numbers of states"""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-XX:TieredStopAtLevel=1" if workers == 1 else "-XX:+TieredCompilation",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           universal_newlines=True)
    except subprocess.TimeoutExpired as exc:
        raise TlcError(f"TLC on {module} took over {timeout} s") from exc
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    gen = dist = 0
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
    return out, r.returncode, gen, dist


def verdicts(out):
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"VERDICT '):
            res.append(json.loads(json.loads(line)[8:]))
    return res


def check_model(module, cfg, scratch, workers=8, timeout=850, heap="8g", env=None, extra=()):
    """exhaustive check; raises TlcError on anything but success"""
    out, rc, gen, dist = run(module, cfg, scratch, workers=workers, timeout=timeout, heap=heap, env=env, extra=extra)
    if rc != 0 or "No error has been found" not in out:
        raise TlcError(f"TLC on {module}/{os.path.basename(cfg)} failed (rc {rc}):\n" + out[-3000:])
    return gen, dist, out


def violates(module, cfg, scratch, changes, workers=4):
    """is an invariant violated when the configuration is changed so?"""
    with open(os.path.join(SPEC, cfg), encoding="utf-8") as f:
        text = f.read()
    for a, b in changes:
        assert a in text, a
        text = text.replace(a, b)
    fd, path = tempfile.mkstemp(prefix="wrong.", suffix=".cfg", dir=scratch)
    with os.fdopen(fd, "w") as f:
        f.write(text)
    out, rc, _, _ = run(module, path, scratch, workers=workers, timeout=200)
    os.unlink(path)
    return bool(re.search(r"Invariant \w+ is violated", out))


def validate(records, scratch, module="Trace", cfg="Trace.cfg", jobs=8, timeout=850, per=None):
    """records: list of scenario records with distinct ids -> {id: set of clauses}, states"""
    if not records:
        return {}, 0
    per = per or max(1, -(-len(records) // jobs))
    chunks = [records[i:i + per] for i in range(0, len(records), per)]

    def one(chunk):
        fd, path = tempfile.mkstemp(prefix="trace.", suffix=".json", dir=scratch)
        with os.fdopen(fd, "w") as f:
            json.dump(chunk, f)
        try:
            out, rc, gen, dist = run(module, cfg, scratch, env={"TRACE": path}, timeout=timeout)
        finally:
            os.unlink(path)
        v = verdicts(out)
        if len(v) != len(chunk):
            done = {x["id"] for x in v}
            nxt = next((r["id"] for r in chunk if r["id"] not in done), None)
            raise TlcError(f"TLC gave {len(v)} verdicts for {len(chunk)} scenarios (rc {rc}); next was {nxt}:\n" + out[-3500:])
        return v, gen, dist

    states = 0
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for v, g, d in ex.map(one, chunks):
            states += d
            TRANSITIONS[0] += g
            for x in v:
                res[x["id"]] = set(x["bad"])
    return res, states
