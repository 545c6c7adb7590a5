"""P03: PCA gives real, uncorrelated components in order of variance."""
import itertools
import numpy as np
from mc import dom

PROP = "P03"
LEVEL = "exploration"
RULE = ("every data matrix over a small alphabet for the small shapes, factorial and degenerate designs, fixed larger "
        "ones, every n; non-trivial = distinct matrices")
ASSUMPTIONS = ["at least two features and two samples; numpy's SVD of the centred data is the oracle for variances"]


def jobs(tier):
    deep = tier == "thorough"
    for N, p, vals in ((2, 2, [0., 1., -2., .5]), (3, 2, [0., 1., -2.]), (4, 2, [0., 1., -2.]), (3, 3, [0., 1.]),
                       (4, 3, [0., 1.]), (2, 4, [0., 1., 3.])) + \
            (((4, 2, [0., 1., -2., .5]), (4, 4, [0., 1.]), (5, 3, [0., 1.]), (3, 3, [0., 1., -2.])) if deep else ()):
        for first in itertools.product(vals, repeat=p):
            yield {"N": N, "p": p, "vals": vals, "first": list(first)}
    yield {"designs": True, "deep": deep}
    yield {"wide": True}


def designs(deep):
    for p in range(2, 7 if not deep else 9):
        yield [list(map(float, r)) for r in itertools.product((-1, 1), repeat=p)]      # equal variances
        yield [[float(i == j) for j in range(p)] for i in range(p)]
        yield [[float(i == j) * (j + 1) for j in range(p)] for i in range(p)]
        yield [[float((-1) ** (i // 2) * (i % p == j)) for j in range(p)] for i in range(4 * p)]
        yield [[1.] * p for _ in range(4)]
        yield [[float(i)] * p for i in range(4)]
        yield [[float(i * (j == p - 1)) for j in range(p)] for i in range(5)]
    for base in (.5, .1, .02, 3e-3, 3e-5, 1e3):      # features of very different size
        for N, p in ((4, 2), (8, 3), (12, 5), (40, 8)):
            for name in ("mix", "irr"):
                yield {"gen": name, "N": N, "p": p, "scales": [base ** i if base ** i > 1e-9 else 1. for i in range(p)]}
    for name in ("mix", "small", "offset", "delay", "huge", "tiny", "burst", "irr"):
        for N, p in ((2, 2), (3, 2), (5, 3), (10, 4), (30, 5), (4, 6), (100, 8), (40, 12), (257, 3), (3, 10), (60, 17), (600, 2), (1030, 3), (70, 33), (5, 33), (140, 65), (3100, 2), (10050, 2)):
            yield {"gen": name, "N": N, "p": p}


def cases(job):
    if "wide" in job:
        yield {"x": {"gen": "mix", "N": 9, "p": 130}, "shift": 0., "ns": [1, 2, 64, 129]}
        yield {"x": {"gen": "irr", "N": 330, "p": 120}, "shift": 0., "ns": [1, 100, 119]}
        yield {"x": {"gen": "irr", "N": 5, "p": 300}, "shift": 0., "ns": [1, 4]}
        return
    if "designs" in job:
        for m in designs(job["deep"]):
            for shift in (0., 100.):
                yield {"x": m, "shift": shift}
        return
    for rest in itertools.product(job["vals"], repeat=job["p"] * (job["N"] - 1)):
        p = job["p"]
        m = [job["first"]] + [list(rest[i * p:(i + 1) * p]) for i in range(job["N"] - 1)]
        yield {"x": m, "shift": 0.}


def check_case(c, rec):
    from padasip.preprocess import PCA, PCA_components
    if isinstance(c["x"], dict):
        X = np.array(dom.gen(c["x"]["gen"], c["x"]["N"], c["x"]["p"])[0]) * (c["x"].get("scales") or 1.)
    else:
        X = np.array(c["x"])
    X = X + c["shift"] * np.max(np.abs(X), initial=1.)
    N, p = X.shape
    Xc = X - X.mean(axis=0)
    lam = np.zeros(p)
    s = np.linalg.svd(Xc, compute_uv=False)
    lam[:len(s)] = s ** 2 / (N - 1)
    top = float(np.max(np.abs(X)))
    tol = 1e-12 * lam[0] + 1e-13 * top * top + 1e-300
    perm = np.arange(N)[::-1] if N < 4 else np.r_[1:N, 0][::-1]
    for what, arg in (("", X), (" of reordered samples", X[perm]), (" of shifted data", X + 2 * np.arange(1, p + 1) * (top or 1.))):
        got = PCA_components(arg)
        rec.step()
        if np.iscomplexobj(got) or np.shape(got) != (p,):
            rec.fail("components%s are not p real numbers" % what, got=got)
        if np.any(np.diff(got) > tol):
            rec.fail("components%s are not in descending order" % what, got=got)
        if not np.all(np.abs(got - lam) <= tol * (100 if what else 1)):
            rec.fail("components%s are not the eigenvalues of the covariance matrix" % what, got=got, want=lam)
    C = np.cov(X.T)
    full = np.linalg.matrix_rank(X, tol=1e-6 * top) == p if top else False
    for n in [None] + list(c.get("ns") or range(1, p)):
        for Y in ([PCA(X)] if n is None else [PCA(X, n), PCA(X, n=n)]):
            rec.step()
            m = p - 1 if n is None else n
            if np.iscomplexobj(Y) or np.shape(Y) != (N, m):
                rec.fail("reduced data are not N x n real numbers", shape=np.shape(Y), n=n)
            cov = np.atleast_2d(np.cov(Y.T))
            ctol = tol + 1e-13 * float(np.max(np.abs(Y), initial=0.)) ** 2
            if not np.all(np.abs(cov - np.diag(lam[:m])) <= ctol * 10):
                rec.fail("components are correlated or their variances are not the largest eigenvalues in order",
                         n=n, cov=cov, eigenvalues=lam)
            # linear, not centred, orthonormal directions
            V, res, _, _ = np.linalg.lstsq(X, Y, rcond=1e-9)
            if not np.all(np.abs(X @ V - Y) <= 1e-8 * (top + 1e-300)):
                rec.fail("reduced data are not projections of the samples", n=n, Y=Y)
            if full:
                g = V.T @ V
                cond = np.linalg.cond(X)
                if cond < 1e5 and not np.all(np.abs(g - np.eye(m)) <= 1e-8 * cond):
                    rec.fail("directions are not orthonormal", n=n, V=V)
            elif np.any((V ** 2).sum(axis=0) > 1 + 1e-6):
                rec.fail("directions are longer than one", n=n, V=V)
    rec.state(X.tobytes())
    rec.outcome(np.round(lam, 9).tobytes())
