"""
Explorer core: exhaustive enumeration of the cases of a property, in parallel.

A check module defines

  PROP, LEVEL, RULE         property id, evidence level, text for the evidence
  jobs(tier)                list of dicts, one configuration each (simplest first)
  cases(job)                generator of JSON-able cases of that job (simplest first)
  check_case(case, rec)     executes the case on the real code and judges it;
                            rec.fail(...) or any exception is a violation

Every case is self-contained: replaying it needs nothing but the case.
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

for _name in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_name, "1")       # the jobs run in parallel; one thread each

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_LIMIT_S = 150      # one case takes milliseconds (at most a few seconds)


class Violation(Exception):
    pass


class Rec:
    """Counters and judgements of one job."""

    def __init__(self):
        self.histories = 0
        self.steps = 0
        self.states = set()
        self.outcomes = set()
        self.ambiguous = 0
        self.skipped = {}
        self.findings = {}
        self.samples = []
        self.nontrivial = 0
        self.case = None
        self.t0 = time.time()
        self.limit = CASE_LIMIT_S

    def fail(self, msg, **detail):
        raise Violation(msg + ("" if not detail else " | " + ", ".join(
            "%s=%s" % (k, short(v)) for k, v in detail.items())))

    def step(self, n=1):
        self.steps += n

    def state(self, key):
        self.states.add(hash(key))

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def skip(self, why, n=1):
        self.skipped[why] = self.skipped.get(why, 0) + n

    def finding(self, key):
        """The exact deviation described under `key` in known_findings.txt."""
        if key not in self.findings:
            self.findings[key] = [0, self.case]
        self.findings[key][0] += 1


def short(v, n=400):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            v = v.tolist()
    except Exception:
        pass
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float):
        return o
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)


def strict(o):
    """numbers that JSON does not know become text"""
    if isinstance(o, dict):
        return {k: strict(v) for k, v in o.items()}
    if isinstance(o, list):
        return [strict(v) for v in o]
    if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
        return repr(o)
    return o


def setup_env():
    """Import padasip from the repository under test, deterministically."""
    import warnings
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import padasip
    where = os.path.realpath(padasip.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("padasip is not imported from %s: %s" % (REPO, where))
    warnings.simplefilter("ignore")


def _alarm(signum, frame):
    rec = _CURRENT[0]
    if rec is not None and time.time() - rec.t0 > rec.limit:
        raise Violation("no termination within %d s" % rec.limit)


_CURRENT = [None]


def run_case(mod, case, rec):
    """-> None or text of the violation."""
    rec.case = case
    rec.t0 = time.time()
    try:
        mod.check_case(case, rec)
        return None
    except Violation as ex:
        return str(ex)
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except BaseException:
        return "unexpected exception: " + traceback.format_exc(limit=-6)


def _do_job(arg):
    modname, idx, job = arg
    mod = importlib.import_module(modname)
    rec = Rec()
    rec.limit = getattr(mod, "CASE_LIMIT", CASE_LIMIT_S)
    _CURRENT[0] = rec
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 10, 10)
    t = time.time()
    viol = None
    err = None
    try:
        for case in mod.cases(job):
            msg = run_case(mod, case, rec)
            rec.histories += 1
            if msg is not None:
                viol = {"case": jsonable(case), "message": msg}
                break
            if len(rec.samples) < 2 and rec.histories % 7 == 3:
                rec.samples.append(jsonable(case))
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except BaseException:
        err = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _CURRENT[0] = None
    return {"idx": idx, "histories": rec.histories, "steps": rec.steps,
            "states": len(rec.states), "outcomes": len(rec.outcomes),
            "ambiguous": rec.ambiguous, "skipped": rec.skipped,
            "findings": {k: [v[0], jsonable(v[1])] for k, v in rec.findings.items()},
            "samples": rec.samples, "nontrivial": rec.nontrivial,
            "violation": viol, "error": err, "secs": time.time() - t}


def known_findings(prop):
    """keys of the open findings of a property -> text"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s key=" % prop):
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                out[key] = text
    return out


def save_replay(prop, modname, viol, n=1):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as fh:
        json.dump({"property": prop, "module": modname, "case": viol["case"],
                   "message": viol["message"]}, fh, indent=1)
    return path


def main(modname, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup_env()
    mod = importlib.import_module(modname)
    prop = mod.PROP
    jobs = list(mod.jobs(tier))
    args = [(modname, i, j) for i, j in enumerate(jobs)]
    results = []
    errors = []
    viols = []
    nproc = max(1, min(os.cpu_count() or 1, len(args), 16))
    # costly jobs first would be faster, simplest first gives simple counterexamples
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=1 if getattr(mod, "FRESH", False) else None) as pool:
        t_v = None
        it = pool.imap_unordered(_do_job, args, chunksize=1)
        while True:
            try:
                r = it.next(timeout=(2.0 if t_v else None))
            except StopIteration:
                break
            except mp.TimeoutError:
                break
            results.append(r)
            if r["error"]:
                errors.append(r)
            if r["violation"]:
                viols.append(r)
                t_v = t_v or time.time()
            if t_v and time.time() - t_v > 3:
                break
        pool.terminate()
    results.sort(key=lambda r: r["idx"])
    tot = lambda k: sum(r[k] for r in results)
    skipped = {}
    findings = {}
    for r in results:
        for k, v in r["skipped"].items():
            skipped[k] = skipped.get(k, 0) + v
        for k, v in r["findings"].items():
            if k not in findings:
                findings[k] = [0, v[1], r["idx"]]
            findings[k][0] += v[0]
    listed = known_findings(prop)
    for k, v in findings.items():
        if k not in listed:
            viols.append({"idx": v[2], "violation": {
                "case": v[1], "message": "unlisted deviation " + k}})
    viols.sort(key=lambda r: r["idx"])
    samples = []
    for r in results:
        samples += [dict(job=jobs[r["idx"]], case=s) for s in r["samples"][:1]]
    if len(samples) > 6:
        samples = samples[:: max(1, len(samples) // 6)][:6]
    cov = {"exhaustive": not viols and not errors and len(results) == len(jobs),
           "jobs": len(jobs), "jobs_done": len(results),
           "ambiguous_points_accepted_both_ways": tot("ambiguous"),
           "skipped": skipped, "samples": [jsonable(s) for s in samples],
           "distinct_outcomes": tot("outcomes")}
    if mod.LEVEL == "model_checking":
        cov.update(states=tot("states"), transitions=tot("steps"),
                   traces_validated_against_impl=tot("histories"),
                   rule=mod.RULE)
    else:
        cov.update(evaluations=tot("histories"), calls=tot("steps"),
                   distinct_nontrivial=tot("states"), rule=mod.RULE)
    if findings:
        cov["known_findings_seen"] = {k: v[0] for k, v in findings.items()}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": jsonable(cov), "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 3), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(strict(ev), fh, indent=1, allow_nan=False)
    print("%s %s: %d jobs, %d histories, %d steps, %d states, %d outcomes, %d ambiguous, skipped %s, %.1f s"
          % (prop, tier, len(results), tot("histories"), tot("steps"), tot("states"),
             tot("outcomes"), tot("ambiguous"), skipped, time.time() - t0))
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["secs"])[:12]:
            print("  %.2fs %s" % (r["secs"], jobs[r["idx"]]))
    for k, v in sorted(findings.items()):
        if k in listed:
            print("KNOWN-FINDING: property=%s key=%s %s (%d histories)" % (prop, k, listed[k], v[0]))
    for n, r in enumerate(viols[:3], 1):
        v = r["violation"]
        path = save_replay(prop, modname, v, n)
        print(v["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    if viols:
        return 1
    if errors:
        print(errors[0]["error"])
        return 2
    if len(results) != len(jobs):
        print("jobs missing")
        return 2
    return 0
