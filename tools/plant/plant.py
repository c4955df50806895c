"""plant.py BUGFILE...: builds /verif/seeded/<id> from descriptions and confirms them in scratch copies."""
import importlib.util, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
PL = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"

def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def tests(repo, tag):
    run = f"/tmp/st.{tag}"
    shutil.rmtree(run, ignore_errors=True); os.mkdir(run)
    subprocess.run(["chown", "subsetter-test:subsetter-test", run])
    t = open("/opt/vp/test.sh").read()
    return sh(f"chmod a+rx {repo} && chmod -R a+rX {repo}; env -i HOME={run} TMPDIR={run} LANG=C.UTF-8 TZ=UTC PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin PYTHONPATH={repo} PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX={run}/pyc PYTHONHASHSEED=0 setpriv --reuid subsetter-test --regid subsetter-test --clear-groups /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider --timeout=300 --basetemp={run}/p --postgresql-exec=/usr/lib/postgresql/16/bin/pg_ctl " + EXTRA, repo, 900), run

import re
m = re.search(r"--postgresql-exec=\S+ \\\n((?:.|\n)*?)(?:>|\n\S|$)", open("/opt/vp/test.sh").read())
EXTRA = " ".join(x.strip().rstrip("\\") for x in open("/opt/vp/test.sh").read().split("--postgresql-exec=/usr/lib/postgresql/16/bin/pg_ctl \\")[1].splitlines() if x.strip().startswith("--"))

def one(b):
    base = f"/tmp/seed/{b['id']}"
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    repo = base + "/repo"
    sh(f"git clone -q /repo {repo}", "/")
    d = base + "/demo"; os.makedirs(d)
    shutil.copy(PL + "/lib.py", d)
    open(d + "/demo.py", "w").write("from lib import *\n" + b["demo"])
    for n, t in b.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    r0 = sh(f"bash {d}/demo.sh", repo)
    for f, old, new in b["edits"]:
        p = os.path.join(repo, "subsetter", f)
        s = open(p).read()
        if s.count(old) != 1:
            return b["id"], False, f"{s.count(old)} matches in {f} of {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    r1 = sh(f"bash {d}/demo.sh", repo)
    t, run = tests(repo, b["id"])
    patch = sh("git diff", repo).stdout
    # which changed lines are of the original repository?
    shutil.rmtree(run, ignore_errors=True)
    sh(f"pkill -KILL -f {run}/p", "/")
    tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ""
    ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
    orig = 0
    for f, old, new in b["edits"]:
        base_src = sh(f"git show 4d1f09d:subsetter/{f}", repo).stdout.splitlines()
        newl = set(new.splitlines())
        gone = [l for l in old.splitlines() if l.strip() and l not in newl]
        orig += sum(l in base_src for l in gone)
    if ok:
        o = os.path.join(OUT, b["id"]); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        for n in os.listdir(d):
            if n != "__pycache__":
                shutil.copy(os.path.join(d, n), o)
        open(o + "/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(base, ignore_errors=True)
    return b["id"], ok, f"demo {r0.returncode}/{r1.returncode}, tests {t.returncode} {tail[-60:]}, original lines {orig}" + ("" if ok else "\n   " + (r0.stdout[-500:] if r0.returncode else "") + (r1.stdout[-300:] if not r1.returncode else "") + ("\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "Error" in l)[:400] if t.returncode else ""))

bugs = []
for f in sys.argv[1:]:
    if f.endswith(".py"):
        spec = importlib.util.spec_from_file_location("b", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        bugs += m.BUGS
only = [a for a in sys.argv[1:] if not a.endswith(".py")]
bugs = [b for b in bugs if not only or b["id"] in only]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, bugs):
        print(*r, flush=True)
