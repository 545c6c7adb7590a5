"""
Build and try planted bugs: plant.py BUGS.py [id ...]
For every bug: a scratch copy of /repo, the change, the stable tests, the demo with
and without the change; kept as seeded/<id>/ when all is as it should be.
With CHECK=1 also runs the check of the property on the scratch copy.
"""
import importlib.util, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell")
HEAD = """import sys, os
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import padasip as pa


"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(b):
    d = os.path.join(S, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    sh(["git", "clone", "-q", "/repo", d])
    for f, old, new in b["edits"]:
        p = os.path.join(d, "padasip", f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != b.get("count", 1):
            return "edit of %s matches %d times" % (f, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True).stdout
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "-o", "python_files=*.py", "tests"], cwd=d,
           env=dict(ENV, PYTHONPATH=d))
    if "28 passed" not in r.stdout or "failed" in r.stdout:
        return "tests: " + r.stdout[-300:]
    out = os.path.join(V, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "wb").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(HEAD + b["demo"].strip() + "\n")
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    bad = None
    c = sh(["bash", os.path.join(out, "demo.sh")], cwd="/repo")
    p = sh(["bash", os.path.join(out, "demo.sh")], cwd=d)
    if c.returncode != 0:
        bad = "demo fails on the unchanged tree: " + c.stderr[-400:]
    elif p.returncode == 0:
        bad = "demo passes with the change"
    if bad:
        shutil.rmtree(out)
        return bad
    res = "planted (demo: %s)" % (p.stderr.strip().split("\n")[-1][:90])
    if os.environ.get("CHECK"):
        t = time.time()
        r = sh(["./check", b["prop"]], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick"))
        got = r.returncode == 1 and "VIOLATION property=" + b["prop"] in r.stdout
        msg = [l for l in r.stdout.split("\n") if l and not l.startswith(b["prop"])]
        res += "\n    %s by %s in %.0f s: %s" % ("CAUGHT" if got else "**MISSED** rc %d" % r.returncode, b["prop"], time.time() - t,
                                       (msg[0] if msg else "")[:160])
    shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
            print(b["id"], b["prop"], one(b), flush=True)
