"""F05: the AP filter projects on the last `order` samples."""
import numpy as np
from mc import dom, refs, onestep
from mc.checks import f03

PROP = "F05"
LEVEL = "model_checking"
RULE = f03.RULE
ASSUMPTIONS = f03.ASSUMPTIONS + ["tolerance follows the condition number of X^T X + ifc I"]
LD = np.longdouble
PARS = [{}] + [{"order": o, "ifc": i, "mu": m} for o, i, m in (
    (1, .25, .5), (1, .001, 1), (2, .125, .75), (2, .5, .25), (3, .5, .25), (3, .001, 1.5), (4, .25, .5),
    (4, .001, 1), (5, 1, .5), (6, .25, .75), (7, .5, .5), (9, .125, .5), (12, 2, .25))]
HIGH = [{"order": o, "ifc": i, "mu": m} for o, i, m in ((16, .5, .5), (17, .25, .75), (33, .5, .25), (40, 1, .5))]


def jobs(tier):
    deep = tier == "thorough"
    for ip in range(len(HIGH)):
        yield {"t": "high", "ip": ip}
    for ip in range(len(PARS)):
        for n, depth, size in ((1, 3, "m"), (2, 2, "m"), (2, 5, "s"), (3, 2, "m"), (3, 4, "s"), (4, 2, "m")):
            if deep:
                depth += 1
            for w in ("zeros", "w0"):
                yield {"t": "all", "ip": ip, "n": n, "w": w, "depth": depth, "size": size}
        yield {"t": "extreme", "ip": ip, "n": 1, "depth": 2}
        yield {"t": "extreme", "ip": ip, "n": 2, "depth": 2}
        yield {"t": "long", "ip": ip, "deep": deep}
        yield {"t": "nan", "ip": ip}


def cases(job):
    if job["t"] == "high":
        par = HIGH[job["ip"]]
        for g in ("small", "irr", "delay", "burst"):
            for n, N in ((2, 90), (5, 60), (17, 60), (50, 50)):
                for mode in ("run", "adapt", f03.mixed(N)):
                    yield {"par": par, "n": n, "w": dom.w0(n), "data": {"gen": g, "N": N, "n": n}, "mode": mode}
        return
    par = PARS[job["ip"]]
    if job["t"] == "nan":
        for c in f03.missing("AP", par, ("d", "x", "xd")):
            yield dict(c, t="nan")
        return
    if job["t"] == "long":
        specs = [{"gen": g, "N": 30, "n": n} for g in dom.GENS + ["sign", "huge", "tiny"]
                 for n in (1, 2, 3, 4, 5, 7, 16, 33)]
        specs += [{"gen": "mix", "N": N, "n": 3} for N in (101, 130, 260, 510, 1030) + ((5000,) if job["deep"] else ())]
        specs += [{"gen": g, "N": 14, "n": n} for g in ("mix", "irr") for n in (65, 129)]
        specs += [{"gen": "irr", "N": 8, "n": n} for n in (257, 300, 520, 1030)]
        if job["ip"] == 4:
            for mode in (f03.mixed(10500), "run", "adapt"):
                yield {"par": par, "n": 2, "w": "zeros", "data": {"gen": "irr", "N": 10500, "n": 2}, "mode": mode}
        for spec in specs:
            for mode in ("run", "adapt", f03.mixed(spec["N"])):
                yield {"par": par, "n": spec["n"], "w": dom.w0(spec["n"]), "data": spec, "mode": mode}
        return
    n = job["n"]
    if job["t"] == "extreme":
        alpha, ws = dom.EXTREME[n], ["zeros", dom.w0(n)]
    else:
        alpha, ws = dom.alphabet(n, job["size"]), ["zeros" if job["w"] == "zeros" else dom.w0(n)]
    for w in ws:
        for xs, ds in dom.histories(alpha, job["depth"]):
            for mode in ("run", "adapt") if len(ds) < 4 else ("run",):
                yield {"par": par, "n": n, "w": w, "data": {"x": xs, "d": ds}, "mode": mode}


def check_case(c, rec):
    if c.get("t") == "nan":
        onestep.missing(rec, c)
        return
    X, D = dom.arrays(c["data"])
    n, par = c["n"], c["par"]
    try:
        y, e, W = onestep.execute("AP", par, n, c["w"], X, D, c["mode"])
    except np.linalg.LinAlgError:
        # singular only by rounding: ifc is far below the resolution of X^T X
        if np.max(X * X) * n * dom.EPS * 8 < par.get("ifc", .001):
            raise
        rec.skip("singular by rounding")
        return
    if W.shape != (len(D) + 1, n):
        rec.fail("weight history has the wrong shape", shape=W.shape)
    start = np.zeros(n) if isinstance(c["w"], str) else np.array(c["w"])
    if not np.array_equal(W[0], start):
        rec.fail("first weights are not the starting ones", got=W[0])
    ref = refs.AP(n, par)
    for k in range(len(D)):
        rec.step()
        x, w = X[k], W[k]
        if not np.isfinite(w).all():
            rec.skip("diverged", len(D) - k)
            return
        yk = float(np.dot(w, x))
        tol = 8 * dom.EPS * (n + 2) * (np.abs(w * x).sum() + abs(D[k])) + 1e-300
        if y[k] is not None and abs(y[k] - yk) > tol:
            rec.fail("output is not that of the newest sample", k=k, got=y[k], want=yk)
        if e[k] is not None and abs(e[k] - (D[k] - yk)) > tol:
            rec.fail("error is not that of the newest sample", k=k, got=e[k], want=D[k] - yk)
        want = ref.step(None, x.astype(LD), LD(D[k]), w).astype(float)
        got = W[k + 1] - w
        Xm = np.array(ref.xs, dtype=float)
        A = Xm @ Xm.T + ref.ifc * np.eye(ref.order)
        inv = np.linalg.norm(np.linalg.inv(A), 2) if np.isfinite(A).all() else np.inf
        cond = inv * np.linalg.norm(A, 2)
        xs = np.max(np.abs(Xm)) if Xm.size else 0.
        err = dom.EPS * abs(ref.mu) * xs * ref.order * inv * ref.err_scale * (n + ref.order) * (cond + 10)
        size = float(np.max(np.abs(want)))
        tolw = 1e-9 * size + 32 * err + 4 * dom.EPS * np.maximum(np.abs(w), np.abs(W[k + 1])) + 1e-300
        if not (np.max(tolw) < np.inf):
            rec.skip("condition number too large", 1)
            continue
        if 32 * err > 1e-3 * size and 32 * err > 1e-6 * np.max(np.abs(w)):
            rec.skip("weak tolerance: badly conditioned", 1)
        if (~(np.abs(got - want) <= tolw)).any():
            rec.fail("weight increment is not the regularised projection", k=k, got=got, want=want, w=w,
                     x=x, d=D[k], tol=tolw)
        rec.state((k if k < 6 else 6, w.tobytes(), x.tobytes(), D[k], c["mode"] == "run"))
        rec.outcome(got.tobytes())
