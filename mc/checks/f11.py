"""F11: noise-free learning is stable inside the documented bounds; reproduced targets are a fixed point."""
import numpy as np
from mc import dom

PROP = "F11"
LEVEL = "model_checking"
RULE = ("every sample sequence with targets from one fixed weight vector, for step sizes from 0 to the bound itself: "
        "the distance of the weights never grows; and every sequence fed to every filter that already reproduces the "
        "targets (fresh, or set to the solution after an arbitrary history): nothing moves")
ASSUMPTIONS = ["rounding allowance 1e-9 of the distance plus a few ulp of the weights"]
WSTAR = [1., -.5, 2., .25, -1.5, .75, -2., .5]
XS = {1: [[0.], [1.], [-2.], [.5]],
      2: [[0., 0.], [1., 0.], [1., 1.], [1., -2.], [-.5, .25], [2., 2.]],
      3: [[0., 0., 0.], [1., 0., -1.], [0., 2., 1.], [1., 1., -2.], [.25, 0., 0.]]}
SIGNX = {1: [[1.], [-1.]], 2: [[1., 1.], [1., -1.], [-1., -1.]], 3: [[1., 1., 1.], [1., -1., 1.], [-1., -1., 1.]]}


def jobs(tier):
    deep = tier == "thorough"
    for n, depth in ((1, 4), (2, 4), (3, 4)) if not deep else ((1, 6), (2, 5), (3, 5)):
        for kind in ("LMS", "NLMS", "AP"):
            for im in range(6):
                for eps in ((.001, .5, 4) if kind != "LMS" else (0,)):
                    for order in ((1, 2, 3, 5) if kind == "AP" else (0,)):
                        yield {"t": "dist", "kind": kind, "n": n, "depth": depth - (order > 0), "im": im, "eps": eps,
                               "order": order}
    for kind in dom.KINDS:
        if kind != "OCNLMS":
            for n, depth in ((1, 4), (2, 3), (3, 3)):
                for ip in range(len(dom.STABLE[kind])):
                    yield {"t": "fix", "kind": kind, "n": n, "depth": depth + deep, "ip": ip}
    for kind in ("LMS", "NLMS", "AP"):
        for g in ("mix", "delay", "burst", "offset", "const", "impulse", "small", "irr", "huge", "tiny", "large mix", "large irr"):
            yield {"t": "long", "kind": kind, "g": g}
    for kind in dom.KINDS:
        if kind != "OCNLMS":
            for g in ("sign", "mix", "small", "burst", "offset", "const", "impulse") if kind not in dom.SIGNED else ("sign",):
                yield {"t": "fixlong", "kind": kind, "g": g, "deep": deep}


def mus(kind, n, xs, eps):
    big = max(sum(v * v for v in x) for x in xs)
    top = {"LMS": 2. / big, "NLMS": 2. + 2. * eps / big, "AP": 2.}[kind]
    return [0, top / 8, top / 2, top * .75, 1. if kind != "LMS" else top / 3, top]


def cases(job):
    kind = job["kind"]
    if job["t"] == "long":
        if job["g"][:5] == "large":
            g = job["g"][6:]
            for n, N in ((2, 10500), (257, 8), (300, 8), (520, 6), (1030, 6)):
                for i in (2, 5):
                    for order in ((3,) if kind == "AP" else (0,)):
                        yield {"t": "long", "kind": kind, "g": g, "n": n, "N": N, "i": i, "order": order}
        else:
            g = job["g"]
            for n in (1, 2, 3, 5, 8, 16, 17, 33, 65, 129):
                for N in (40, 130, 300, 1030):
                    for i in range(6):
                        for order in ((1, 3, 8) if kind == "AP" else (0,)):
                            if N == 40 or (n == 2 and g in ("mix", "irr")):
                                yield {"t": "long", "kind": kind, "g": g, "n": n, "N": N, "i": i, "order": order}
                            if N == 40 and n in (1, 3, 8) and g in ("mix", "small", "burst", "offset"):
                                for scale in (2. ** -20, 2. ** 9, 2. ** 24):
                                    yield {"t": "long", "kind": kind, "g": g, "n": n, "N": N, "i": i, "order": order, "scale": scale}
        return
    if job["t"] == "fixlong":
        for g in [job["g"]]:
            for n, N in ((1, 30), (2, 40), (3, 140), (5, 30), (8, 300), (17, 20), (33, 40), (2, 1030), (257, 8), (520, 6)) + (((2, 3000), (130, 20)) if job["deep"] else ()):
                for par in dom.STABLE[kind] + dom.PARAMS[kind][1:]:
                    if kind == "RLS" and N > 40 and par.get("mu", 1) < .9 and g in ("const", "impulse", "burst"):
                        continue    # without excitation its gain grows like mu ** -N: rounding errors are amplified without limits
                    for scale in (1.,) if n > 200 else (1., 2. ** -20, 2. ** 9, 2. ** 24) if N <= 40 else (1., 2. ** 9):
                        if N > 40 and par not in dom.STABLE[kind]:
                            continue
                        yield {"t": "fix", "kind": kind, "n": n, "par": dom.par_for(kind, par, n), "g": g, "N": N, "scale": scale}
        return
    n = job["n"]
    if job["t"] == "dist":
        mu = mus(kind, n, XS[n], job["eps"])[job["im"]]
        par = {"mu": mu}
        if kind == "NLMS":
            par["eps"] = job["eps"]
        if kind == "AP":
            par.update(ifc=job["eps"], order=job["order"])
        al = [(x, 0.) for x in XS[n]]
        for xs, _ in dom.histories(al, job["depth"]):
            yield {"t": "dist", "kind": kind, "n": n, "par": par, "xs": xs}
    else:
        par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
        al = [(x, 0.) for x in (SIGNX if kind in dom.SIGNED else XS)[n]]
        for xs, _ in dom.histories(al, job["depth"]):
            yield {"t": "fix", "kind": kind, "n": n, "par": par, "xs": xs}


def target(X, n, scale=1.):
    w = np.array([WSTAR[i % 8] * scale for i in range(n)])
    d = np.zeros(len(X))
    for i in range(n):      # exact for dyadic data
        d = d + X[:, i] * w[i]
    return w, d


def dist_check(rec, c, X, par):
    n, kind = c["n"], c["kind"]
    ws, D = target(X, n, c.get("scale", 1.))
    for start in ("zeros", dom.w0(n), list(2 * ws)):
        for mode in ("run", "adapt"):
            f = dom.make(kind, n, start, par)
            y, e, W, fin = dom.play(f, [["r", len(D)]] if mode == "run" else [["a"]] * len(D), X, D)
            W = np.array(W + [fin])
            dist = np.sqrt(((W - ws) ** 2).sum(axis=1))
            rec.step(len(D))
            for k in range(len(D)):
                # rounding of the error is amplified by at most mu*|x|/|x|^2 like factors
                tol = 1e-9 * dist[k] + 1e-13 * np.max(np.abs(W)) * (1 + n) + 1e-300
                if not dist[k + 1] <= dist[k] + tol:
                    rec.fail("a noise-free sample moved the weights away from the solution", k=k, mode=mode,
                             before=dist[k], after=dist[k + 1], par=par, start=start, x=X[k])
                rec.state((kind, n, k if k < 6 else 6, repr(par), W[k + 1].tobytes()))
    rec.outcome(W.tobytes())


def check_case(c, rec):
    n, kind = c["n"], c["kind"]
    if c["t"] == "dist":
        dist_check(rec, c, np.array(c["xs"], dtype=float), c["par"])
        return
    if c["t"] == "long":
        x, _ = dom.gen(c["g"], c["N"], n)
        X = np.array(x, dtype=float)
        big = float(np.max((X * X).sum(axis=1)))
        if c["g"] in ("huge", "tiny") and kind == "AP":
            rec.skip("AP with extreme energies is ill-conditioned")
            return
        top = {"LMS": 2. / big, "NLMS": 2. + 2 * .5 / big, "AP": 2.}[kind]
        par = {"mu": top * (0., .125, .3, .5, .75, 1. - 1e-9)[c["i"]]}
        if kind == "NLMS":
            par["eps"] = .5
        if kind == "AP":
            par.update(order=c["order"], ifc=.25)
        dist_check(rec, c, X, par)
        return
    X = np.array(c["xs"] if "xs" in c else dom.gen(c["g"], c["N"], n)[0], dtype=float)
    scale = c.get("scale", 1.)
    ws, D = target(X, n, scale)
    N = len(D)
    modes = [[["r", N]], [["a"]] * N, [["r", 1], ["p"], ["r", N - 2]]]
    for pre in (0, 1, 2):
        if pre and kind == "AP":    # its memory would still hold targets that are not reproduced
            continue
        if pre and kind == "VSLMS_Benveniste" and c.get("g", "small") != "small":
            continue            # its fi of the past grows without limits on such inputs, until it overflows
        for ops in modes:
            if pre == 0:
                f = dom.make(kind, n, list(ws), c["par"])
            else:
                f = dom.make(kind, n, "zeros", c["par"])
                if pre == 1:
                    f.run(np.ones(3) * .5, np.ones((3, n)))
                else:
                    f.adapt(1., np.ones(n))
                f.w = ws.copy()
            y, e, W, fin = dom.play(f, ops, X, D)
            rec.step(N)
            W = np.array(W + [fin])
            tol = 1e-12 * scale
            if not np.max(np.abs(W - ws)) <= tol * 4:
                rec.fail("weights that reproduce every target are moved", ops=ops, W=W, want=ws)
            bad = [v for v in e if v is not None and not abs(v) <= tol]
            if bad:
                rec.fail("errors are not zero although targets are reproduced", e=e)
            rec.state((kind, n, pre, repr(ops), X.tobytes(), repr(c["par"])))
    rec.outcome(X.tobytes())
