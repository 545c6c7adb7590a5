"""F13: filters obey the symmetries of their definition."""
import itertools
import numpy as np
from mc import dom

PROP = "F13"
LEVEL = "model_checking"
RULE = ("every sample sequence of the small alphabets and fixed long series, under every permutation of up to 4 "
        "features, every sign pattern, their combination and negation; and the reductions of one filter to another; "
        "both executions are compared over the whole history")
ASSUMPTIONS = ["parameters are stable on the data; sign filters get data on which their arithmetic is exact, or on which no error is near zero"]
REDUCTIONS = ["AP1", "GNGD0", "Mathews0", "Benveniste0", "Ang0"]


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        for ip in range(len(dom.STABLE[kind])):
            for n, depth in ((1, 3), (2, 3), (3, 3)):
                yield {"t": "sym", "kind": kind, "ip": ip, "n": n, "depth": depth + deep}
            yield {"t": "symlong", "kind": kind, "ip": ip, "deep": deep}
    for r in REDUCTIONS:
        for n, depth in ((1, 3), (2, 4), (3, 3)):
            yield {"t": "red", "red": r, "n": n, "depth": depth + deep}


def alpha(kind, n):
    if kind in dom.SIGNED:
        xs = {1: [[1.], [-1.]], 2: [[1., 1.], [1., -1.], [-1., 1.]], 3: [[1., 1., -1.], [-1., 1., 1.]]}[n]
        ds = [0., 1., -3.]
    else:
        xs = {1: [[1.], [-2.], [.5]], 2: [[1., 0.], [1., -2.], [.5, .25]], 3: [[1., 0., -1.], [0., 2., .5]]}[n]
        ds = [0., 1., -3.] if n < 3 else [1., -3.]
    return [(x, d) for x in xs for d in ds]


def cases(job):
    if job["t"] == "red":
        n = job["n"]
        al = [(x, d) for x in {1: [[0.], [1.], [-2.]], 2: [[1., 0.], [1., -2.]], 3: [[1., 0., -1.], [0., 2., .5]]}[n]
              for d in (0., 1., -3.)]
        for mu, eps in ((.5, .25), (.125, 2.), (1.25, 1.)):
            for xs, ds in dom.histories(al, job["depth"]):
                yield {"t": "red", "red": job["red"], "n": n, "mu": mu, "eps": eps, "data": {"x": xs, "d": ds}}
            for g in ("mix", "small", "burst"):
                for m in (1, 2, 3, 5, 17, 33):
                    for N in (30, 140, 300):
                        if N == 30 or m == 2:
                            yield {"t": "red", "red": job["red"], "n": m, "mu": mu / 8 if g == "mix" else mu, "eps": eps,
                                   "data": {"gen": g, "N": N, "n": m}}
        return
    kind = job["kind"]
    if job["t"] == "sym":
        n = job["n"]
        par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
        for xs, ds in dom.histories(alpha(kind, n), job["depth"]):
            yield {"t": "sym", "kind": kind, "par": par, "n": n, "data": {"x": xs, "d": ds}}
    else:
        for g in (["sign"] if kind in dom.SIGNED else []) + ["small", "delay", "burst", "scales", "loud"]:
            for n in (2, 3, 4) + ((5,) if job["deep"] else ()):
                par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
                for N in (8, 30):
                    yield {"t": "sym", "kind": kind, "par": par, "n": n, "data": {"gen": g, "N": N, "n": n}}
            for n, N in ((2, 140), (2, 300), (8, 30), (17, 20), (33, 20), (66, 6), (131, 4), (2, 520)) + (((2, 2100), (257, 4), (520, 4)) if g == "small" and not job["ip"] else ()):
                par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
                yield {"t": "sym", "kind": kind, "par": par, "n": n, "data": {"gen": g, "N": N, "n": n}}


def maps(n):
    """(permutation, signs, target sign)"""
    ident, ones = tuple(range(n)), (1.,) * n
    if n <= 4:
        perms = list(itertools.permutations(range(n)))
        signs = list(itertools.product((1., -1.), repeat=n))
    else:
        perms = [ident, ident[::-1], ident[1:] + ident[:1], (1, 0) + ident[2:], ident[:-2] + (n - 1, n - 2)]
        signs = [ones, tuple(-1. for _ in ident), tuple((-1.) ** i for i in ident)] + \
            [ones[:i] + (-1.,) + ones[i + 1:] for i in (0, n // 2, n - 1)]
    for p in perms:
        yield p, ones, 1.
    for s in signs[1:]:
        yield ident, s, 1.
        yield perms[-1], s, 1.
    yield ident, ones, -1.
    yield perms[-1], signs[-1], -1.


def check_case(c, rec):
    X, D = dom.arrays(c["data"])
    n, N = c["n"], len(D)
    if c["t"] == "red":
        mu, eps, r = c["mu"], c["eps"], c["red"]
        pair = {"AP1": (("AP", {"order": 1, "ifc": eps, "mu": mu}), ("NLMS", {"mu": mu, "eps": eps})),
                "GNGD0": (("GNGD", {"mu": mu, "eps": eps, "ro": 0}), ("NLMS", {"mu": mu, "eps": eps})),
                "Mathews0": (("VSLMS_Mathews", {"mu": mu / 4, "ro": 0}), ("LMS", {"mu": mu / 4})),
                "Benveniste0": (("VSLMS_Benveniste", {"mu": mu / 4, "ro": 0}), ("LMS", {"mu": mu / 4})),
                "Ang0": (("VSLMS_Ang", {"mu": mu / 4, "ro": 0, "a": .75}), ("LMS", {"mu": mu / 4}))}[r]
        for w in ("zeros", dom.w0(n)):
            for ops in ([["r", N]], [["p"]] * N):
                res = [dom.play(dom.make(k, n, w, par), ops, X, D) for k, par in pair]
                if not dom.tame(*[np.array(q[2]) for q in res]):
                    rec.skip("diverges")
                    continue
                rec.step(N)
                big = max(np.max(np.abs(np.array(q, dtype=float)), initial=0.) for q in list(res[1]) + [D])
                for i, what in enumerate(("outputs", "errors", "weights", "final weights")):
                    if not dom.same(res[0][i], res[1][i], 0, 1e-7 * big):
                        rec.fail("%s of %s and %s differ" % (what, pair[0], pair[1]), a=res[0][i], b=res[1][i])
                rec.state((r, n, mu, eps, res[0][3].tobytes()))
        rec.outcome(res[0][3].tobytes())
        return
    kind, par = c["kind"], c["par"]
    w = np.array(dom.w0(n))
    f = dom.make(kind, n, w.tolist(), par)
    y, e, W = f.run(D, X)
    W = np.vstack([W, f.w])
    if not dom.tame(W, y):
        rec.skip("diverges")
        return
    if kind in dom.SIGNED and c["data"].get("gen", "sign") != "sign" and np.min(np.abs(e)) < 1e-7 * max(np.max(np.abs(D)), np.max(np.abs(y))):
        rec.skip("rounding decides about the sign of an error")
        return
    for p, s, t in maps(n):
        p, s = list(p), np.array(s)
        g = dom.make(kind, n, (t * s * w[p]).tolist(), par)
        y2, e2, W2 = g.run(t * D, X[:, p] * s)
        W2 = np.vstack([W2, g.w])
        rec.step(N)
        big = max(np.max(np.abs(q), initial=0.) for q in (y, e, W, D))
        if not dom.same(y2, t * y, 0, 1e-7 * big) or not dom.same(e2, t * e, 0, 1e-7 * big):
            rec.fail("outputs or errors change under a symmetry", perm=p, signs=s, target_sign=t, got=y2, want=t * y)
        if not dom.same(W2, t * s * W[:, p], 0, 1e-7 * big):
            rec.fail("weights do not follow a symmetry", perm=p, signs=s, target_sign=t, got=W2, want=t * s * W[:, p])
        rec.state((kind, n, tuple(p), s.tobytes(), t, W2[-1].tobytes()))
    rec.outcome(W[-1].tobytes())
