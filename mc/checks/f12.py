"""F12: pretrained_run trains on the head for all epochs, then tests on the rest."""
import math
import numpy as np
from mc import dom

PROP = "F12"
LEVEL = "model_checking"
RULE = ("every series length, share of training data and number of epochs in the ranges, on fresh and used filters, "
        "each compared with the same runs made one by one, then continued with further samples")
ASSUMPTIONS = []
SHARES = [0, .1, .2, .25, .29, .3, 1 / 3., .5, .57, .6, 2 / 3., .7, .75, .9, .99, 1, 0., 1.]


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        for ip in range(len(dom.STABLE[kind])):
            for n in (1, 2, 4, 17, 33):
                yield {"kind": kind, "ip": ip, "n": n, "deep": deep}


def cases(job):
    kind, n = job["kind"], job["n"]
    par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
    g = "irr"
    Ns = [1, 2, 3, 5, 7, 10, 11] if n < 17 else [2, 5]
    Ns += ([100, 101] if n == 2 else []) + (list(range(12, 30)) if job["deep"] else [])
    for N in Ns:
        for share in SHARES:
            for ep in ((0, 1, 2, 3) if not job["deep"] else (0, 1, 2, 3, 5, 10)):
                for used in (0, 1):
                    yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g, "N": N, "share": share,
                           "epochs": ep, "used": used}
        yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g, "N": N, "share": None, "epochs": None, "used": 0}
        yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g, "N": N, "share": .5, "epochs": None, "used": 0}
        yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g, "N": N, "share": None, "epochs": 2, "used": 0}


    if n == 2:      # many epochs, long series
        for N, ep in ((4, 5), (4, 11), (6, 12), (3, 26), (2, 101), (257, 1), (520, 2), (1030, 1), (5100, 1), (3, 210)):
            for share in (.25, .5, 1):
                yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g, "N": N, "share": share, "epochs": ep, "used": 0}
    # series with coincidences: what an early stop or a cache would trip over
    for kind_of in ("fitted", "zero target", "all zero", "constant", "head fitted", "equal inputs"):
        for N in (2, 4, 8):
            for share in (.5, .75, 1):
                for ep in (1, 2, 3) if not job["deep"] else (1, 2, 3, 4, 8):
                    for w in (dom.w0(n), "zeros"):
                        yield {"kind": kind, "par": par, "n": n, "w": w, "gen": g, "N": N, "share": share, "epochs": ep,
                               "used": 0, "var": kind_of}


def vary(var, X, D, w):
    if var == "fitted":
        D[:] = X @ w
    elif var == "head fitted":
        D[:len(D) // 2] = X[:len(D) // 2] @ w
    elif var == "zero target":
        D[:] = 0
    elif var == "all zero":
        D[:], X[:] = 0, 0
    elif var == "constant":
        D[:], X[:] = D[0], X[0]
    elif var == "equal inputs":
        X[1::2] = X[:-1:2][:len(X[1::2])]


def check_case(c, rec):
    n, N = c["n"], c["N"]
    x, d = dom.gen(c["gen"], N + 3, n)
    X, D = np.array(x[:N]), np.array(d[:N])
    if c.get("var"):
        vary(c["var"], X, D, np.zeros(n) if c["w"] == "zeros" else np.array(c["w"]))
    X3, D3 = np.array(x[N:]), np.array(d[N:])
    f, g = [dom.make(c["kind"], n, c["w"], c["par"]) for _ in range(2)]
    if c["used"]:
        for q in (f, g):
            q.run(D3[:2], X3[:2])
            q.adapt(D3[0], X3[0])
    kw = {}
    if c["share"] is not None:
        kw["ntrain"] = c["share"]
    if c["epochs"] is not None:
        kw["epochs"] = c["epochs"]
    got = f.pretrained_run(D, X, **kw)
    cut = math.floor((.5 if c["share"] is None else c["share"]) * N)
    for _ in range(1 if c["epochs"] is None else c["epochs"]):
        g.run(D[:cut], X[:cut])
    want = g.run(D[cut:], X[cut:])
    rec.step(2 + (c["epochs"] or 1))
    if not dom.tame(*want, lim=1e12):
        rec.skip("diverges")
        return
    for a, b, what in zip(got, want, ("outputs", "errors", "weight history")):
        if not dom.same(a, b, 1e-8):
            rec.fail("%s differ from training and testing by hand" % what, got=a, want=b, cut=cut)
    if not dom.same(f.w, g.w, 1e-8):
        rec.fail("weights afterwards differ", got=f.w, want=g.w)
    for a, b in zip(f.run(D3, X3), g.run(D3, X3)):
        if not dom.same(a, b, 1e-8):
            rec.fail("the filter continues differently afterwards", got=a, want=b)
    # positional arguments
    if c["share"] is not None and c["epochs"] is not None and not c["used"]:
        h = dom.make(c["kind"], n, c["w"], c["par"])
        for a, b in zip(h.pretrained_run(D, X, c["share"], c["epochs"]), want):
            if not dom.same(a, b, 1e-8):
                rec.fail("positional ntrain, epochs differ", got=a, want=b)
    rec.state((c["kind"], n, N, c["share"], c["epochs"], c["used"], np.array(g.w).tobytes()))
    rec.outcome(np.array(want[2]).tobytes())
