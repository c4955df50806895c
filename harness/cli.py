"""The command line of the code under test, run inside this process."""
import contextlib
import io
import os
import sys

import yaml


def run(argv, cwd=None, stdin=None):
    """-> (exit status, standard output, what escaped)"""
    import logging
    from subsetter import __main__ as cli
    out, err = io.StringIO(), io.StringIO()
    old_argv, old_in, old_cwd = sys.argv, sys.stdin, os.getcwd()
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    sys.argv = ["subsetter"] + list(argv)
    sys.stdin = io.StringIO(stdin or "")
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main()
                code = 0
            except SystemExit as exc:
                code = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
            except Exception as exc:                       # noqa: BLE001  (python would exit with 1)
                code = 1
                err.write(repr(exc))
    finally:
        sys.argv, sys.stdin = old_argv, old_in
        os.chdir(old_cwd)
        root.handlers[:] = handlers
        root.setLevel(level)
    return code, out.getvalue(), err.getvalue()


def dump(path, doc):
    with open(path, "w", encoding="utf-8") as f:
        yaml.dump(doc, f, default_flow_style=False, sort_keys=True, width=2**20)


def plan_and_sample(place, srcdoc, plannerdoc, samplerdoc, truncate, create, mode):
    """-> (exit status, error text, the plan document or None)"""
    d = os.path.join(place.root, "cli")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    # two layered files
    dump(os.path.join(d, "a.yaml"), {"source": srcdoc, "sampler": {"output": {"mode": "directory", "directory": "/nonexistent/never"}}}
         if samplerdoc["output"].get("mode") == "directory" else {"source": srcdoc})
    dump(os.path.join(d, "b.yaml"), {"planner": plannerdoc, "sampler": samplerdoc})
    conf = ["-c", os.path.join(d, "a.yaml"), "-c", os.path.join(d, "b.yaml")]
    flags = (["--truncate"] if truncate else []) + (["--create"] if create else [])
    if mode == "subset":
        code, out, err = run(conf + ["subset"] + flags)
        return code, err, None
    plan = os.path.join(d, "plan.yaml")
    code, out, err = run(conf + ["plan", "-o", plan])
    if code:
        return code, err, None
    code2, text, _ = run(conf + ["plan"])
    doc = yaml.safe_load(open(plan, encoding="utf-8"))
    if code2 or yaml.safe_load(text) != doc:
        return 99, "plan on standard output differs", doc
    code, out, err = run(conf + ["sample", "-p", plan] + flags)
    return code, err, doc
