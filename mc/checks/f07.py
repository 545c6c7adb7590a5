"""F07: OCNLMS centers its data by the means of its memory."""
import numpy as np
from mc import dom, refs, onestep
from mc.checks import f03

PROP = "F07"
LEVEL = "model_checking"
RULE = ("every sample sequence over the alphabet up to the depth, for memories of 1..7 and 100 samples, fed by run, "
        "adapt or mixed, and fixed series longer than three times the memory; every output and increment is compared "
        "with the documented memory and with the memory exactly as shipped (known finding)")
ASSUMPTIONS = ["the as-shipped memory model in mc/refs.py describes the known finding ocnlms-memory exactly"]
PARS = [{"mu": m, "eps": e, "mem": k} for m, e, k in (
    (.5, .25, 1), (.5, .25, 2), (.5, .5, 3), (.25, .25, 4), (.75, .5, 5), (.5, 2, 6), (.5, .25, 7), (.25, .5, 20),
    (.5, .25, 21))] + [{}]


class Documented:
    """means of the last `mem` inputs and targets"""
    def __init__(self, n, par):
        p = dict({"mu": .1, "eps": 1., "mem": 100}, **par)
        self.mu, self.eps, self.mem, self.n = p["mu"], p["eps"], p["mem"], n
        self.xs, self.ds = [], []

    def output(self, x, w):
        mx = np.mean(self.xs, axis=0) if self.xs else np.zeros(self.n)
        md = np.mean(self.ds) if self.ds else 0.
        return np.dot(w, x - mx) + md

    def step(self, e, x, d, w):
        self.xs = (self.xs + [x])[-self.mem:]
        self.ds = (self.ds + [d])[-self.mem:]
        c = x - np.mean(self.xs, axis=0)
        return self.mu / (self.eps + np.dot(c, c)) * e * c


def jobs(tier):
    deep = tier == "thorough"
    for mem in (257, 300, 520, 1030):
        yield {"t": "memory", "mem": mem}
    for ip in range(len(PARS)):
        for n, depth, size in ((1, 3, "m"), (1, 5, "s"), (2, 2, "m"), (2, 5, "s"), (3, 3, "s")):
            for w in ("zeros", "w0"):
                yield {"t": "all", "ip": ip, "n": n, "w": w, "depth": depth + (1 if deep else 0), "size": size}
        yield {"t": "long", "ip": ip, "deep": deep}
        yield {"t": "clear", "ip": ip, "deep": deep}
        if PARS[ip].get("mem") != 1:    # as shipped (known finding) a memory of one sample gives NaN anyway
            yield {"t": "nan", "ip": ip}


def cases(job):
    if job["t"] == "memory":
        par, mem = {"mu": .5, "eps": .5, "mem": job["mem"]}, job["mem"]
        for n in (1, 2):
            for N in (mem // 2, mem, 2 * mem + 5):
                for mode in ("run", "adapt"):
                    yield {"par": par, "n": n, "w": dom.w0(n), "data": {"gen": "offset", "N": N, "n": n}, "mode": mode}
        return
    par = PARS[job["ip"]]
    if job["t"] == "clear":
        mem = par.get("mem", 100)
        for n in (1, 2, 5):
            for before in sorted({0, 1, 2, 3, mem - 1, mem, mem + 1, 2 * mem, 2 * mem + 1, 3 * mem + 2, 50}):
                for way in ("run", "adapt", "twice", "used twice"):
                    yield {"t": "clear", "par": par, "n": n, "before": before, "after": 9 if n > 1 else 2 * mem + 5, "way": way}
        return
    if job["t"] == "nan":
        for c in f03.missing("OCNLMS", par, ("d", "x", "xd")):
            yield dict(c, t="nan")
        return
    if job["t"] == "long":
        specs = [{"gen": g, "N": N, "n": n} for g in dom.GENS + ["small", "irr"] for n, N in
                 ((1, 40), (2, 65), (5, 64), (17, 30), (33, 12), (65, 9), (129, 6))]
        specs += [{"gen": g, "N": N, "n": 2} for g in ("small", "offset")
                  for N in ((101, 350, 520, 1030) + ((5000,) if job["deep"] else ()))]
        if job["ip"] in (2, 6):
            for mode in (f03.mixed(10500), "run", "adapt"):
                yield {"par": par, "n": 2, "w": "zeros", "data": {"gen": "irr", "N": 10500, "n": 2}, "mode": mode}
            for n in (257, 520, 1030):
                for mode in ("run", "adapt"):
                    yield {"par": par, "n": n, "w": dom.w0(n), "data": {"gen": "irr", "N": 3 * par["mem"] + 2, "n": n}, "mode": mode}
        for spec in specs:
            for mode in ("run", "adapt", f03.mixed(spec["N"])):
                for w in ("zeros", dom.w0(spec["n"])):
                    yield {"par": par, "n": spec["n"], "w": w, "data": spec, "mode": mode}
        return
    n = job["n"]
    w = "zeros" if job["w"] == "zeros" else dom.w0(n)
    for xs, ds in dom.histories(dom.alphabet(n, job["size"]), job["depth"]):
        for mode in ("run", "adapt"):
            yield {"par": par, "n": n, "w": w, "data": {"x": xs, "d": ds}, "mode": mode}


def follows(model, y, e, W, X, D):
    """-> None, or (k, text) of the first sample that does not follow the model"""
    for k in range(len(D)):
        w, x = W[k], X[k]
        out = model.output(x, w)
        scale = np.abs(w).sum() * (1 + np.max(np.abs(X))) + np.max(np.abs(D)) * 2 + 1e-300
        if y[k] is not None:
            if not dom.same(y[k], out, 0, 1e-9 * scale):
                return k, "output %r, expected %r" % (y[k], out)
            if not dom.same(e[k], D[k] - y[k], 0, 1e-12 * scale):
                return k, "error %r, expected %r" % (e[k], D[k] - y[k])
            err = e[k]
        else:
            err = D[k] - out
        dw = model.step(err, x, D[k], w)
        got = W[k + 1] - w
        if not np.isfinite(dw).all():
            if not np.array_equal(np.isnan(got), np.isnan(dw)):
                return k, "increment %r, expected %r" % (got, dw)
            continue
        tol = 1e-9 * np.max(np.abs(dw)) + 8 * dom.EPS * np.max(np.abs(w)) + 1e-300
        if y[k] is None:    # the error is only known up to rounding
            tol += 1e-9 * scale * model.mu / model.eps * (1 + np.max(np.abs(X)))
        else:
            tol += 1e-12 * model.mu / model.eps * abs(err) * np.max(np.abs(X))
        if (~(np.abs(got - dw) <= tol)).any():
            return k, "increment %r, expected %r" % (got, dw)
    return None


def clear(c, rec):
    """clear_memory forgets all samples, nothing else"""
    n, A, Z = c["n"], c["before"], c["after"]
    x, d = dom.gen("small", A + Z, n)
    X, D = np.array(x), np.array(d)
    f = dom.make("OCNLMS", n, dom.w0(n), c["par"])

    def feed(g, a, b):
        if c["way"] == "adapt":
            for k in range(a, b):
                g.adapt(D[k], X[k])
            return [g.w.copy()]
        return [np.array(o) for o in g.run(D[a:b], X[a:b])] + [g.w.copy()]
    feed(f, 0, A)
    if c["way"] == "used twice":
        f.clear_memory()
        feed(f, 0, A)
    w = f.w.copy()
    f.clear_memory()
    if c["way"] == "twice":
        f.clear_memory()
    if not np.array_equal(w, f.w, equal_nan=True):
        rec.fail("clear_memory changes the weights", before=w, after=f.w)
    g = dom.make("OCNLMS", n, w, c["par"])
    p, q = f.predict(X[A]), g.predict(X[A])
    got, want = [p] + feed(f, A, A + Z), [q] + feed(g, A, A + Z)
    rec.step(A + Z)
    for i, (p, q) in enumerate(zip(got, want)):
        if not dom.same(p, q, 1e-9):
            rec.fail("after clear_memory the filter is not as a new one with the same weights", result=i, got=p, want=q)
    rec.state((n, repr(c["par"]), A, c["way"], "clear"))
    rec.outcome(got[-1].tobytes())


def check_case(c, rec):
    if c.get("t") == "clear":
        clear(c, rec)
        return
    if c.get("t") == "nan":
        onestep.missing(rec, c)
        return
    X, D = dom.arrays(c["data"])
    n, N = c["n"], len(D)
    f = dom.make("OCNLMS", n, c["w"], c["par"])
    mode = c["mode"]
    ops = [["r", N]] if mode == "run" else [["a"]] * N if mode == "adapt" else mode
    y, e, W, fin = dom.play(f, ops, X, D)
    W = np.array(W + [fin])
    start = np.zeros(n) if isinstance(c["w"], str) else np.array(c["w"], dtype=float)
    if not np.array_equal(W[0], start):
        rec.fail("first weights are not the starting ones")
    rec.step(N)
    doc = follows(Documented(n, c["par"]), y, e, W, X, D)
    if doc is not None:
        ship = follows(refs.OCNLMS(n, c["par"]), y, e, W, X, D)
        if ship is not None:
            rec.fail("sample %d follows neither the documented nor the shipped memory: %s" % (ship[0], ship[1]))
        rec.finding("ocnlms-memory")
    for k in range(min(N, 8)):
        rec.state((n, k, W[k + 1].tobytes(), X[k].tobytes(), D[k], repr(c["par"])))
    rec.outcome(W.tobytes())
