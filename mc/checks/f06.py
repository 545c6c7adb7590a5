"""F06: RLS weights solve the exponentially weighted least-squares problem."""
import numpy as np
from mc import dom, refs, onestep
from mc.checks import f03

PROP = "F06"
LEVEL = "model_checking"
RULE = ("every sample sequence over the alphabet up to the depth, each fed by run, adapt or mixed; after every "
        "sample the weights are compared with the closed-form minimiser (extended precision normal equations)")
ASSUMPTIONS = ["a float64 twin of the recursion measures the conditioning and widens the tolerance"]
LD = np.longdouble
PARS = [{}, {"mu": .5, "eps": .25}, {"mu": .95, "eps": .5}, {"mu": 1, "eps": 2}, {"mu": .75, "eps": .125},
        {"mu": .99, "eps": .001}, {"mu": .9, "eps": 10}, {"mu": .25, "eps": 1}]


def jobs(tier):
    deep = tier == "thorough"
    for ip in range(len(PARS)):
        for n, depth, size in ((1, 3, "m"), (1, 5, "s"), (2, 2, "m"), (2, 5, "s"), (3, 2, "m"), (3, 4, "s"), (4, 3, "s"),
                               (5, 2, "s")):
            for w in ("zeros", "w0"):
                yield {"t": "all", "ip": ip, "n": n, "w": w, "depth": depth + (1 if deep else 0), "size": size}
        for n in (1, 2):
            yield {"t": "extreme", "ip": ip, "n": n, "depth": 3 if deep else 2}
        yield {"t": "long", "ip": ip, "deep": deep}
        yield {"t": "nan", "ip": ip}


def cases(job):
    par = PARS[job["ip"]]
    if job["t"] == "nan":
        for c in f03.missing("RLS", par, ("d", "x", "xd")):
            yield dict(c, t="nan")
        return
    if job["t"] == "long":
        specs = [{"gen": g, "N": 24, "n": n} for g in dom.GENS + ["sign", "small", "irr", "huge", "tiny"]
                 for n in (1, 2, 3, 5, 8, 17)]
        specs += [{"gen": "mix", "N": N, "n": 3} for N in (101, 130, 260, 520, 1030) + ((3000,) if job["deep"] else ())]
        specs += [{"gen": g, "N": N, "n": n} for g in ("mix", "irr") for n, N in ((33, 40), (65, 12), (129, 6), (2, 2100))]
        if job["ip"] in (2, 5):
            for mode in (f03.mixed(10500), "run", "adapt"):
                yield {"par": par, "n": 2, "w": "zeros", "data": {"gen": "irr", "N": 10500, "n": 2}, "mode": mode}
            for n, N in ((257, 5), (300, 5), (520, 3)):
                for mode in ("run", "adapt"):
                    yield {"par": par, "n": n, "w": dom.w0(n), "data": {"gen": "irr", "N": N, "n": n}, "mode": mode}
        for spec in specs:
            for mode in ("run", "adapt", f03.mixed(spec["N"])):
                yield {"par": par, "n": spec["n"], "w": dom.w0(spec["n"]), "data": spec, "mode": mode}
        return
    n = job["n"]
    if job["t"] == "extreme":
        alpha, ws = dom.EXTREME[n], ["zeros", dom.w0(n)]
    else:
        alpha, ws = dom.alphabet(n, job["size"]), ["zeros" if job["w"] == "zeros" else dom.w0(n)]
    for w in ws:
        for xs, ds in dom.histories(alpha, job["depth"]):
            for mode in ("run", "adapt"):
                yield {"par": par, "n": n, "w": w, "data": {"x": xs, "d": ds}, "mode": mode}


def check_case(c, rec):
    if c.get("t") == "nan":
        onestep.missing(rec, c)
        return
    X, D = dom.arrays(c["data"])
    n, par = c["n"], c["par"]
    p = dict({"mu": .1, "eps": .001}, **par)
    f = dom.make("RLS", n, c["w"], par)
    N = len(D)
    mode = c["mode"]
    ops = [["r", N]] if mode == "run" else [["a"]] * N if mode == "adapt" else mode
    y, e, W, fin = dom.play(f, ops, X, D)
    W = np.array(W + [fin])
    start = np.zeros(n) if isinstance(c["w"], str) else np.array(c["w"], dtype=float)
    if not np.array_equal(W[0], start):
        rec.fail("first weights are not the starting ones")
    mu, eps = LD(p["mu"]), LD(p["eps"])
    A = eps * np.eye(n, dtype=LD)
    b = eps * start.astype(LD)
    # twin recursion (float64) as a measure of conditioning
    R, wt = np.eye(n) / p["eps"], start.copy()
    worst = 0.
    every = 1 if N <= 60 else max(1, N // 30)
    for k in range(N):
        rec.step()
        x = X[k].astype(LD)
        A = mu * A + np.outer(x, x)
        b = mu * b + LD(D[k]) * x
        ek = D[k] - wt @ X[k]
        g = R @ X[k]
        R = (R - np.outer(g, g) / (p["mu"] + X[k] @ g)) / p["mu"]
        wt = wt + (R @ X[k]) * ek
        if k % every and k > 20:
            continue
        if y[k] is not None:
            sc = 8 * dom.EPS * (n + 2) * (np.abs(W[k] * X[k]).sum() + abs(D[k])) + 1e-300
            if not abs(y[k] - W[k] @ X[k]) <= sc or not abs(e[k] - (D[k] - W[k] @ X[k])) <= sc:
                rec.fail("output or error does not fit the weights", k=k)
        want = refs.gauss(A, b).astype(float)
        if not np.isfinite(want).all() or not np.isfinite(wt).all():
            rec.skip("not finite", N - k)
            return
        worst = max(worst, float(np.max(np.abs(wt - want))))
        scale = max(np.max(np.abs(want)), np.max(np.abs(W[:k + 2])), np.max(np.abs(start)))
        if worst > 1e-6 * scale:
            rec.skip("recursion itself is ill-conditioned", N - k)
            return
        if not np.max(np.abs(W[k + 1] - want)) <= 1e-8 * scale + 1000 * worst:
            rec.fail("weights are not the weighted least-squares solution", k=k, got=W[k + 1], want=want,
                     twin_error=worst)
        rec.state((n, k, W[k + 1].tobytes(), A.astype(float).tobytes()))
        rec.outcome(W[k + 1].tobytes())
