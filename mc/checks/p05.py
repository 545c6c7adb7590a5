"""P05: preprocessing and error measures follow the units and offsets of their data."""
import itertools
import numpy as np
from mc import dom
from mc.checks import p04

PROP = "P05"
LEVEL = "exploration"
RULE = ("every series and matrix over a small alphabet for the small sizes and fixed larger ones, multiplied by factors, "
        "shifted, reordered, cut in two, or mixed by regular integer matrices; the results of both are compared; "
        "non-trivial = distinct (data, relation)")
ASSUMPTIONS = ["factors are powers of two, so that multiplying is exact; matrices and factors per feature for LDA are moderate, within-class scatter has condition below 1e4"]
FACTORS = [2., -.5, -1., 2. ** 10, 2. ** -30, -2. ** 40, 2. ** -60, 2. ** 100]


def jobs(tier):
    deep = tier == "thorough"
    vals = [0., 1., -2., .5]
    for N in (1, 2, 3, 4) + ((5, 6) if deep else ()):
        for first in vals:
            yield {"t": "series", "N": N, "vals": vals, "first": first}
    yield {"t": "series", "gens": True}
    for N, p, vals in ((3, 2, [0., 1., -2.]), (4, 2, [0., 1., -2.])) + (((4, 3, [0., 1.]), (5, 2, [0., 1., -2.])) if deep else ()):
        for first in vals:
            yield {"t": "matrix", "N": N, "p": p, "vals": vals, "first": first}
    for g in ("mix", "small", "offset", "delay", "scales", "irr"):
        yield {"t": "matrix", "gens": g}


def cases(job):
    t = job["t"]
    if t == "series":
        if job.get("gens"):
            for g in ("mix", "offset", "burst", "const", "impulse", "irr"):
                for N in (1, 2, 3, 7, 10, 33, 64, 100, 101, 130, 300, 1030, 5100, 10050):
                    yield {"t": t, "gen": g, "N": N}
            return
        for rest in itertools.product(job["vals"], repeat=job["N"] - 1):
            yield {"t": t, "x": [job["first"]] + list(rest)}
        return
    if job.get("gens"):
        for N, p in ((8, 2), (9, 3), (20, 4), (40, 5), (60, 8), (101, 3), (120, 9), (520, 2), (2100, 2), (200, 33)):
            yield {"t": t, "gen": job["gens"], "N": N, "p": p}
        return
    N, p = job["N"], job["p"]
    for rest in itertools.product(job["vals"], repeat=N * p - 1):
        m = [job["first"]] + list(rest)
        yield {"t": t, "x": [m[i * p:(i + 1) * p] for i in range(N)]}


def near(rec, got, want, what, rtol=1e-12, atol=0., **kw):
    rec.step()
    if not dom.same(got, want, rtol, atol):
        rec.fail(what, got=got, want=want, **kw)


def series(x, rec):
    import padasip as pa
    N = len(x)
    M = pa.misc
    b = np.array(dom.gen("mix", N, 1)[1]) + .25
    big = np.max(np.abs(x))
    for name, power in (("MAE", 1), ("MSE", 2), ("RMSE", 1)):
        fn = getattr(M, name)
        one, two = fn(x), fn(x, b)
        for f in FACTORS:
            near(rec, fn(x * f), one * abs(f) ** power, "%s does not follow the units" % name, factor=f, x=x)
            near(rec, fn(x * f, b * f), two * abs(f) ** power, "%s of two series does not follow the units" % name, factor=f, x=x)
        near(rec, fn(b, x), two, "%s changes when the two series are exchanged" % name, x=x)
        near(rec, fn(x + 16., b + 16.), two, "%s changes when both series are shifted" % name, x=x)
        near(rec, fn(x, np.zeros(N)), one, "%s of a series and zeros differs from that of the series" % name, x=x)
        near(rec, fn(x[::-1], b[::-1]), two, "%s changes with the order of samples" % name, 1e-12, x=x)
        near(rec, fn(np.r_[x, x]), one, "%s of a repeated series differs" % name, 1e-12, x=x)
        if power < 2 and name == "MAE" or name == "MSE":
            for cut in sorted({1, N // 2, N - 1}):
                if 0 < cut < N:
                    near(rec, (cut * fn(x[:cut]) + (N - cut) * fn(x[cut:])) / N, one, "%s of the parts does not add up" % name, 1e-12, cut=cut, x=x)
        near(rec, M.get_mean_error(x * 4., b * 4., function=name), two * 4. ** power, "get_mean_error does not follow the units", x=x)
    if not M.MAE(x) <= M.RMSE(x) * (1 + 1e-12):
        rec.fail("MAE is larger than RMSE", x=x)
    log = M.logSE(x, b)
    for f in FACTORS:
        near(rec, M.logSE(x * f, b * f), log + 20 * np.log10(abs(f)), "logSE does not follow the units", 1e-11, 1e-9, factor=f, x=x)
    near(rec, M.logSE(x[::-1], b[::-1]), log[::-1], "logSE of a sample depends on the others", x=x)
    # standardization
    s = pa.standardize(x)
    spread = np.ptp(x)
    if spread > 0:
        for f in FACTORS:
            near(rec, pa.standardize(x * f), s * np.sign(f), "standardize depends on the units", 1e-10, 1e-12, factor=f, x=x)
            near(rec, pa.standardize(x * f, offset=2. * f, scale=4. * f), (x - 2.) / 4., "standardize with offset and scale depends on the units", factor=f, x=x)
            near(rec, pa.standardize(x * f, offset=f), pa.standardize(x, offset=1.) * np.sign(f), "standardize with offset depends on the units", 1e-10, factor=f, x=x)
            near(rec, pa.standardize(x * f, scale=f), pa.standardize(x, scale=1.), "standardize with scale depends on the units", 1e-10, 1e-10 * big, factor=f, x=x)
        for shift in (1., -64., 1024.):
            near(rec, pa.standardize(x + shift), s, "standardize depends on an offset of the data", 1e-9, 1e-12 * abs(shift) / np.std(x), shift=shift, x=x)
        near(rec, pa.standardize(x[::-1])[::-1], s, "standardize depends on the order", 1e-10, 1e-12, x=x)
        near(rec, pa.standardize(s), s, "standardized data change when standardized again", 1e-9, 1e-9, x=x)
    for f in FACTORS:
        near(rec, pa.standardize_back(x, 3. * f, 2. * f), pa.standardize_back(x, 3., 2.) * f, "standardize_back does not follow the units", factor=f, x=x)
        near(rec, pa.standardize_back(x * f, 0., 1 / f), x, "standardize_back does not follow the units", factor=f, x=x)
    # history matrix
    for n in range(1, N + 1) if N <= 10 else (1, 2, 5, N // 2, N):
        h = pa.input_from_history(x, n)
        for f in FACTORS:
            near(rec, pa.input_from_history(x * f, n), h * f, "history matrix does not follow the units", factor=f, n=n, x=x)
        near(rec, pa.input_from_history(x + 8., n), h + 8., "history matrix does not follow the offset", n=n, x=x)
        near(rec, pa.input_from_history(x[::-1], n)[::-1, ::-1], h, "history matrix of the reversed series is not reversed", n=n, x=x)
        for cut in sorted({n, N - 1}):
            if n <= cut <= N:
                near(rec, pa.input_from_history(x[:cut], n), h[:cut - n + 1], "rows of the history matrix change when the series goes on", n=n, x=x)
                near(rec, pa.input_from_history(x[N - cut:], n), h[N - cut:], "rows of the history matrix depend on earlier values", n=n, x=x)
    rec.state(x.tobytes())
    rec.outcome(s.tobytes())


def aligned(a, b):
    a = np.array(a)
    for j in range(a.shape[1]):
        if np.dot(a[:, j], b[:, j]) < 0:
            a[:, j] = -a[:, j]
    return a


def matrix(X, rec):
    from padasip.preprocess import PCA, PCA_components, LDA, LDA_discriminants
    N, p = X.shape
    comp = PCA_components(X)
    lam = np.linalg.eigvalsh(np.cov(X.T))[::-1]
    simple = [j for j in range(p - 1) if lam[0] > 0 and min(abs(lam[j] - lam[i]) for i in range(p) if i != j) > 1e-3 * lam[0]]
    Y = PCA(X)
    perm = np.r_[1:p, 0]
    H = np.array([[.6, .8], [-.8, .6]])
    for f in FACTORS[:6]:
        near(rec, PCA_components(X * f), comp * f * f, "PCA_components do not follow the units", 1e-11, factor=f, x=X)
        Z = PCA(X * f)
        near(rec, aligned(Z[:, simple], Y[:, simple] * f), Y[:, simple] * f, "PCA does not follow the units", 1e-9, factor=f, x=X)
    for what, A in (("order of features", X[:, perm]), ("sign of a feature", X * np.r_[-1., np.ones(p - 1)]),
                    ("rotation", np.c_[X[:, :2] @ H, X[:, 2:]]), ("order of samples", X[::-1])):
        near(rec, PCA_components(A), comp, "PCA_components change with the %s" % what, 1e-10, 1e-13 * np.max(np.abs(X)) ** 2, x=X)
        Z = PCA(A)
        if what == "order of samples":
            Z = Z[::-1]
        near(rec, aligned(Z[:, simple], Y[:, simple]), Y[:, simple], "PCA changes with the %s" % what, 1e-8, x=X)
    near(rec, PCA_components(np.c_[X, X[:, :1] * 0]), np.r_[comp, 0.], "a constant feature changes the components", 1e-10, 1e-13 * np.max(np.abs(X)) ** 2, x=X)
    near(rec, PCA_components(np.r_[X, X]) * (2 * N - 1), comp * (N - 1) * 2, "repeating all samples changes the components", 1e-10, 1e-13 * np.max(np.abs(X)) ** 2, x=X)
    for n in range(1, p):
        near(rec, PCA(X, n), Y[:, :n], "the first components depend on how many are asked for", 1e-9, n=n, x=X)
    rec.state(("pca", X.tobytes()))
    rec.outcome(comp.tobytes())
    for k in (2, 3):
        lab = [i % k for i in range(N)]
        if min(lab.count(l) for l in range(k)) < 1 or N <= p + k - 1:
            continue
        Sw, Sb = p04.scatters(X, lab)
        cond = np.linalg.cond(Sw)
        if not cond < 1e4:
            rec.skip("within-class scatter is singular")
            continue
        D = LDA_discriminants(X, lab)
        L = LDA(X, lab)
        good = [j for j in range(p - 1) if D[j] > 1e-3 and min(abs(D[j] - D[i]) for i in range(p) if i != j) > 1e-2 * D[j]]
        tol = 1e-9 * cond
        for f in FACTORS[:6]:
            near(rec, LDA_discriminants(X * f, lab), D, "discriminants depend on the units", tol, tol, factor=f, x=X)
            Z = LDA(X * f, lab)
            near(rec, aligned(Z[:, good], L[:, good] * f), L[:, good] * f, "LDA does not follow the units", tol * 100, factor=f, x=X)
        T = np.eye(p)
        T[0, 1:] = 1.
        for what, A in (("shift", X + 8.), ("units of single features", X * 2. ** (np.arange(p) % 5 - 2.)), ("mixing of features", X @ T),
                        ("order of features", X[:, perm]), ("sign of a feature", X * np.r_[-1., np.ones(p - 1)]),
                        ("rotation", np.c_[X[:, :2] @ H, X[:, 2:]])):
            near(rec, LDA_discriminants(A, lab), D, "discriminants change with the %s" % what, 1e3 * tol, 1e3 * tol, x=X, labels=lab)
            if what in ("order of features", "sign of a feature", "rotation"):
                Z = LDA(A, lab)
                near(rec, aligned(Z[:, good], L[:, good]), L[:, good], "LDA changes with the %s" % what, tol * 100, x=X, labels=lab)
        near(rec, LDA_discriminants(np.r_[X, X], lab + lab), D, "repeating all samples changes the discriminants", tol, tol, x=X)
        for n in range(1, p):
            near(rec, LDA(X, lab, n), L[:, :n], "the first discriminant directions depend on how many are asked for", 1e-9, n=n, x=X)
        rec.state(("lda", k, X.tobytes()))


def check_case(c, rec):
    if c["t"] == "series":
        x = np.array(c["x"]) if "x" in c else np.array(dom.gen(c["gen"], c["N"], 1)[1 if c["gen"] == "offset" else 0]).ravel()
        series(x, rec)
    else:
        X = np.array(c["x"]) if "x" in c else np.array(dom.gen(c["gen"], c["N"], c["p"])[0])
        matrix(X, rec)
