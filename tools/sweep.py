"""
Run the checks against the planted bugs: sweep.py [id ...] -> table on stdout
Every bug on its own scratch copy of /repo; ALL=1 runs every check, not only that of the bug's property.
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sweep"


def one(b, checks):
    d = os.path.join(S, b)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    r = subprocess.run(["git", "-C", d, "apply", os.path.join(V, "seeded", b, "patch.diff")], capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(d)
        return "patch does not apply", 0
    got, t = [], time.time()
    for c in checks:
        r = subprocess.run([os.path.join(V, "check"), c], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick"))
        if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
            got.append(c)
        elif r.returncode:
            got.append("%s:rc%d" % (c, r.returncode))
    shutil.rmtree(d)
    return ", ".join(got) or "MISSED", time.time() - t


if __name__ == "__main__":
    allc = [x["id"] for x in map(json.loads, open(os.path.join(V, "properties.jsonl")))]
    for b in sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
        res, t = one(b, allc if os.environ.get("ALL") else [m["property"]])
        print("| %s | %s | %s | %.0f s | %s |" % (b, m["property"], res, t, m["needs"]), flush=True)
