"""D03: ELBND is the error times the weight increment of each sample."""
import itertools
import numpy as np
from mc import dom
from mc.checks import d01
from mc.checks.f09 import raises

PROP = "D03"
LEVEL = "exploration"
RULE = ("every weight history and error series over a small alphabet for the small shapes, fixed long ones, both "
        "functions and the default; every score is compared with the definition; non-trivial = distinct (history, errors)")
ASSUMPTIONS = []


def jobs(tier):
    deep = tier == "thorough"
    for N, n, vals, ev in ((1, 1, [0., 1., -3.], [0., -2., .5]), (1, 3, [0., 1.], [1., -2.]), (2, 1, [0., 1., -3., .5], [0., 1., -2., .5]),
                           (3, 1, [0., 1., -3.], [0., 1., -2.]), (4, 1, [0., 1., -3.], [0., -2.]), (2, 2, [0., 1., -3.], [0., 1., -2.]),
                           (3, 2, [0., 1.], [1., -2.])) + (((5, 1, [0., 1., -3.], [0., 1., -2.]), (3, 3, [0., 1.], [1., -2.])) if deep else ()):
        for first in itertools.product(vals, repeat=n):
            yield {"N": N, "n": n, "vals": vals, "ev": ev, "first": list(first)}
    yield {"long": True, "deep": deep}
    yield {"nan": True, "deep": deep}


def cases(job):
    if "nan" in job:
        for N, n in ((2, 1), (3, 1), (3, 2), (5, 3), (12, 2), (130, 3)):
            for k in sorted({0, 1, N // 2, N - 1}):
                for v in (np.nan, np.inf):
                    for where in ("w", "e", "both"):
                        yield {"gen": "mix", "N": N, "n": n, "at": k, "bad": v, "where": where}
        return
    if "long" in job:
        for name in ("mix", "small", "burst", "offset", "const", "impulse", "huge", "tiny", "irr"):
            for N, n in [(N, 1 + N % 4) for N in range(4, 41)] + [(100, 3), (128, 2), (257, 2), (1030, 2), (20, 17), (12, 33), (3100, 1), (10050, 1), (6, 300), (5, 1030)] + \
                    ([(10050, 3)] if job["deep"] else []):
                yield {"gen": name, "N": N, "n": n}
        return
    N, n = job["N"], job["n"]
    for rest in itertools.product(job["vals"], repeat=(N - 1) * n):
        m = job["first"] + list(rest)
        for e in itertools.product(job["ev"], repeat=N):
            yield {"w": [m[i * n:(i + 1) * n] for i in range(N)], "e": list(e)}


def check_case(c, rec):
    from padasip.detection import ELBND
    w = d01.weights(c)
    N, n = w.shape
    e = np.array(c["e"] if "e" in c else dom.gen(c["gen"], N, 1)[1])
    if "bad" in c:
        e = e.copy()
        if c["where"] != "w":
            e[c["at"]] = c["bad"]
        if c["where"] != "e":
            w[c["at"], -1] = c["bad"]
    prod = np.zeros((N, n))
    with np.errstate(invalid="ignore"):
        for k in range(N - 1):
            prod[k] = np.abs(w[k + 1] - w[k]) * abs(e[k])
    mx, sm = prod.max(axis=1), prod.sum(axis=1)
    for want, ways in ((mx, [lambda: ELBND(w, e), lambda: ELBND(w, e, "max"), lambda: ELBND(w, e, function="max")]),
                       (sm, [lambda: ELBND(w, e, "sum"), lambda: ELBND(w, e, function="sum")])):
        for fn in ways:
            with np.errstate(invalid="ignore"):
                got = fn()
            rec.step()
            if not isinstance(got, np.ndarray) or got.shape != (N,):
                rec.fail("not one value per weight row", got=got)
            # 0 increment times a NaN error in the last row: not specified
            cut = N - 1 if "bad" in c and c["where"] != "w" and c["at"] == N - 1 else N
            fin = np.isfinite(want[:cut])
            if not np.all(np.abs(got[:cut][fin] - want[:cut][fin]) <= 1e-12 * want[:cut][fin]) or \
                    not dom.same(got[:cut][~fin], want[:cut][~fin]):
                rec.fail("ELBND is not |dw| * |e|", got=got, want=want)
            if np.any(got[:cut] < 0):
                rec.fail("negative value", got=got)
    if N <= 4:
        for bad in ("", "MAX", "mean", "min", "maximum", "Sum", None, 1, False):
            raises(rec, lambda: ELBND(w, e, bad), "function %r" % (bad,))
    rec.state((w.tobytes(), e.tobytes()))
    rec.outcome(sm.tobytes())
