"""D06: novelty scores do not depend on the units of the weights and errors."""
import itertools
import numpy as np
from mc import dom
from mc.checks import d01, d04

PROP = "D06"
LEVEL = "exploration"
RULE = ("every weight history over a small alphabet for the small shapes and fixed long ones, in other units of each weight "
        "alone, of all of them, and of the errors; the scores are compared; non-trivial = distinct (history, score, units)")
ASSUMPTIONS = ["factors are powers of two, so that multiplying is exact; sensitivities are dyadic or compared where no increment is within rounding of them",
               "direct LE is compared where the deviation of the window is large against its regularization 1e-10",
               "of ESE the samples that score at all are compared (the fit of the distribution is not exact)"]
FACTORS = [2., .5, 2. ** 6, 2. ** -9, 2. ** 30, 2. ** -30, 2. ** -100, 2. ** 100]
ALPHAS = {"a": [.5, 1., 2.], "b": [1.25, 3., 8., 64.], "c": [0., .0625, 1.5]}


def jobs(tier):
    deep = tier == "thorough"
    for N, n, vals in ((5, 1, [0., 1., 3.]), (4, 2, [0., 1.]), (3, 2, [0., 1., -2.])) + \
            (((7, 1, [0., 1., 3.]), (3, 3, [0., 1.])) if deep else ()):
        for first in itertools.product(vals, repeat=2):
            yield {"N": N, "n": n, "vals": vals, "first": list(first)}
    for name in ("mix", "small", "burst", "offset", "scales", "impulse", "level", "irr"):
        yield {"long": name, "deep": deep}


def cases(job):
    if "long" in job:
        for N, n in ((14, 1), (14, 3), (40, 2), (130, 2), (20, 6), (14, 70), (300, 2), (1030, 1), (3100, 1), (14, 300)) + (((3000, 2), (40, 140)) if job["deep"] else ()):
            yield {"gen": job["long"], "N": N, "n": n}
        return
    N, n = job["N"], job["n"]
    for rest in itertools.product(job["vals"], repeat=N * n - 2):
        m = job["first"] + list(rest)
        yield {"w": [m[i * n:(i + 1) * n] for i in range(N)]}


def check_case(c, rec):
    from padasip.detection import learning_entropy, ELBND, ESE
    d04.cache_fit()
    w = d01.weights(c)
    N, n = w.shape
    e = np.array(dom.gen("mix", N, 1)[1])
    units = [np.full(n, f) for f in FACTORS]
    for j in sorted({0, n // 2, n - 1}):
        for f in FACTORS[:6] if n > 1 else ():
            u = np.ones(n)
            u[j] = f
            units.append(u)
    units.append(2. ** (np.arange(n) % 9 * 4 - 16.))
    # multiscale LE: fractions of comparisons
    for m in ((1, 2, 4) if N <= 8 else (4, 8, 16) if N < 200 else (16, 128)):
        if m >= N:
            continue
        for order in (1, 2):
            for alpha in sorted(ALPHAS):
                want = learning_entropy(w, m=m, order=order, alpha=ALPHAS[alpha])
                for u in units:
                    got = learning_entropy(w * u, m=m, order=order, alpha=ALPHAS[alpha])
                    rec.step()
                    if not np.array_equal(got, want):
                        rec.fail("multiscale LE changes with the units", units=u, m=m, order=order, alpha=ALPHAS[alpha], got=got, want=want)
            want = learning_entropy(w, m=m, order=order)
            dw = np.abs(np.diff(w, n=order, axis=0))
            for u in units:
                got = learning_entropy(w * u, m=m, order=order)
                rec.step()
                for k in range(m + order, N):
                    sd = dw[k - order - m:k - order].std(axis=0)
                    ok = (sd > 1e-3 * np.abs(dw[k - order - m:k - order]).max(axis=0)) & (sd > 1e-3) & (sd * u > 1e-3)
                    if not np.all(np.abs(got[k] - want[k])[ok] <= 1e-6 * (1 + np.abs(want[k])[ok])):
                        rec.fail("direct LE changes with the units", units=u, m=m, order=order, k=k, got=got[k], want=want[k])
            rec.state((w.tobytes(), "le", m, order))
    # ELBND
    for fn in ("max", "sum"):
        want = ELBND(w, e, fn)
        for f in FACTORS[:6]:
            for got, factor, what in ((ELBND(w * f, e, fn), f, "weights"), (ELBND(w, e * f, fn), f, "errors"),
                                      (ELBND(w / f, e * f, fn), 1., "both"), (ELBND(w, -e, fn), 1., "sign of the errors"),
                                      (ELBND(w * f, -e * f, fn), f * f, "both")):
                rec.step()
                if not dom.same(got, want * factor, 1e-12):
                    rec.fail("ELBND does not follow the units of the %s" % what, factor=f, function=fn, got=got, want=want * factor)
        for k in range(N):      # one error alone
            e2 = np.zeros(N)
            e2[k] = e[k]
            got = ELBND(w, e2, fn)
            rec.step()
            if np.any(np.delete(got, k)) or not abs(got[k] - want[k]) <= 1e-12 * abs(want[k]):
                rec.fail("ELBND of a sample depends on other errors", k=k, function=fn, got=got, want=want)
            if k > 40:
                break
        rec.state((w.tobytes(), fn))
    # ESE: which samples score
    if c.get("gen") in (None, "mix", "small", "burst"):
        for m in ((1, 2) if N <= 8 else (4, 12) if N < 40 and n < 20 else ()):
            if m >= N:
                continue
            want = ESE(w, window=m, pot_method="30%") > 0
            for u in units[::2] if N > 8 else units[4:]:
                got = ESE(w * u, window=m, pot_method="30%")
                rec.step()
                if not np.isfinite(got).all() or not np.array_equal(got > 0, want):
                    rec.fail("ESE of other samples with other units", units=u, m=m, got=got, want=want)
            rec.state((w.tobytes(), "ese", m))
    rec.outcome(want.tobytes())
