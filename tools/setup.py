"""Checks that what the checks need is there, and that the specification parses."""
import os, shutil, subprocess, sys, tempfile
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "harness"))
import tlc
for f in ("java",):
    assert shutil.which(f), f
d = tempfile.mkdtemp()
try:
    for m in sorted(x[:-4] for x in os.listdir(tlc.SPEC) if x.endswith(".tla")):
        r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", tlc.CP, "tla2sany.SANY", m + ".tla"], cwd=tlc.SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        print(m, "ok" if r.returncode == 0 else "FAILED\n" + r.stdout)
        if r.returncode:
            sys.exit(1)
finally:
    shutil.rmtree(d, ignore_errors=True)
