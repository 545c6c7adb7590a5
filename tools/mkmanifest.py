"""Write MANIFEST.json from the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
    "model_checking": "explicit-state model checking: exhaustive enumeration of bounded histories executed on the real code, every step judged by a reference model",
    "exploration": "bounded exhaustive enumeration of inputs executed on the real code, judged by a reference definition",
    "fault_enumeration": "exhaustive fault injection: every faulty call of a catalogue at every position of every bounded history, executed on the real code"}
SPECIAL = {
    "G03": "stateless model checking: all call orders of several objects, and all thread schedules of the real code up to a preemption bound under a controlled scheduler (line and bytecode granularity)",
    "F13": "bounded exhaustive enumeration of histories of the real code under every symmetry transformation (explicit-state, relational)",
    "G06": "exhaustive enumeration of ways SciPy can be missing and import orders, whole surface re-executed in fresh processes",
    "G04": "explicit enumeration of call orders (all ordered pairs, chains), generator states and process environments on the real code",
    "F01": "explicit-state model checking: all histories and all ways to split them into run/adapt/predict calls, on the real code",
    "G08": "explicit-state model checking: every word of calls up to a depth iterated for thousands of calls on the real code, the reachable memory of every state compared",
    "G07": "exhaustive enumeration of scenarios and refused calls x process settings in fresh processes, process-wide state compared after every call",
    "F14": "explicit-state model checking: all histories before a copy and all interleavings of original and copy, on the real code",
    "F15": "explicit-state model checking: all bounded histories of the real code executed in pairs (other units, sums of targets) and compared step by step",
    "N05": "explicit-state model checking: all histories before a copy and all interleavings of original and copy, on the real code",
    "G09": "exhaustive fault injection: every line of the library a call executes is a point of interruption, on the real code"}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("mc.checks." + p["id"].lower())
    assert m.PROP == p["id"]
    note = "Holds for everything enumerated within the bounds: " + m.RULE + "."
    if m.ASSUMPTIONS:
        note += " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."
    checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                   "technique": SPECIAL.get(p["id"], TECH[m.LEVEL]), "level": m.LEVEL, "level_note": note})
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy'", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo. Checks import padasip from /repo's working tree (pure Python, nothing to build)."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
