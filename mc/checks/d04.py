"""D04: ESE scores increments by the tail of their own recent past."""
import itertools
import math
import numpy as np
from mc import dom
from mc.checks import d01

PROP = "D04"
LEVEL = "exploration"
RULE = ("every weight history over a small alphabet for small windows, and fixed histories for all windows 1..40 and "
        "larger ones, with every P-O-T method; every score is compared with the definition; non-trivial = distinct "
        "(history, window, method)")
ASSUMPTIONS = ["scipy's genpareto.fit and its distribution are trusted; results of fit are cached per argument to save time",
               "log10log10 is used for windows of at least 11 samples, where it is defined"]
METHODS = ["10%", "30%", "35%", "sqrt", "log10", "log10log10"]
_fits = {}


def cache_fit():
    from scipy.stats import genpareto
    if getattr(genpareto, "_mc_cached", False):
        return
    real = genpareto.fit

    def fit(data, *args, **kwds):
        key = (np.asarray(data, dtype=float).tobytes(), repr(args), repr(sorted(kwds.items())))
        if key not in _fits:
            if len(_fits) > 200000:
                _fits.clear()
            _fits[key] = real(data, *args, **kwds)
        return _fits[key]
    genpareto.fit = fit
    genpareto._mc_cached = True


def jobs(tier):
    deep = tier == "thorough"
    for N, n, vals, win in ((3, 1, [0., 1., 3., -1.], (1,)), (4, 1, [0., 1., 3.], (1, 2)), (6, 1, [0., 1., 3.], (2, 4)),
                            (4, 2, [0., 1.], (1, 2))) + (((7, 1, [0., 1., 3.], (3, 5)), (3, 2, [0., 1., -2.], (1,))) if deep else ()):
        for first in itertools.product(vals, repeat=2):
            yield {"t": "all", "N": N, "n": n, "vals": vals, "win": win, "first": list(first)}
    for win in range(1, 41 if not deep else 80):
        yield {"t": "win", "win": win}
    for win in (99, 100, 101, 144, 300, 520) + ((400, 999, 1000) if deep else ()):
        yield {"t": "big", "win": win}
    yield {"t": "default"}


def cases(job):
    t = job["t"]
    if t == "all":
        N, n = job["N"], job["n"]
        for rest in itertools.product(job["vals"], repeat=N * n - 2):
            m = job["first"] + list(rest)
            yield {"w": [m[i * n:(i + 1) * n] for i in range(N)], "wins": list(job["win"]), "methods": ["10%", "35%", "sqrt"]}
    elif t == "win":
        for name in ("mix", "bumps", "near", "irr"):
            for n in (1, 2):
                yield {"g": name, "N": job["win"] + 3, "n": n, "wins": [job["win"]], "methods": METHODS}
        yield {"g": "bumps", "N": job["win"] + 2, "n": 5, "wins": [job["win"]], "methods": ["10%"]}
    elif t == "big":
        for me in METHODS:
            yield {"g": "bumps", "N": job["win"] + 2, "n": 1, "wins": [job["win"]], "methods": [me]}
    else:
        yield {"g": "bumps", "N": 1002, "n": 1, "wins": [None], "methods": [None]}
        yield {"g": "bumps", "N": 30, "n": 2, "wins": [12], "methods": [None]}
        yield {"g": "steps", "N": 14, "n": 300, "wins": [12], "methods": ["10%"]}
        yield {"g": "bumps", "N": 30, "n": 2, "wins": [30], "methods": ["10%"]}
        yield {"g": "bumps", "N": 230, "n": 1, "wins": [12], "methods": ["10%", "30%"]}
        yield {"g": "mix", "N": 320, "n": 2, "wins": [24], "methods": ["sqrt"]}
        yield {"g": "mix", "N": 1030, "n": 1, "wins": [10], "methods": ["10%"]}
        for N, win in ((1030, 1000), (3100, 3098), (2100, 4), (5200, 2)):
            yield {"g": "bumps", "N": N, "n": 1, "wins": [win], "methods": ["10%"]}
        yield {"g": "steps", "N": 14, "n": 33, "wins": [12], "methods": ["sqrt"]}
        yield {"g": "bumps", "N": 5, "n": 2, "wins": [5], "methods": ["sqrt"]}


def weights(c):
    if "w" in c:
        return np.array(c["w"])
    N, n = c["N"], c["n"]
    if c["g"] == "irr":
        inc = np.array(dom.gen("irr", N, n)[0])
    elif c["g"] == "mix":
        inc = np.array(dom.gen("mix", N, n)[0])
    elif c["g"] == "near":      # all increments agree to four digits
        inc = np.array([[(1 + ((k * k * 7 + 3 * k + i * 5) % 97) * 2. ** -20) / 8 for i in range(n)] for k in range(N)])
        inc[-2:, 0] += 2. ** -15, 2. ** -14
    elif c["g"] == "steps":     # quiet, then all weights jump
        inc = np.array([[((k * 7 + i) % 5 + 1) / 1024. if k < N - 2 else 64. for i in range(n)] for k in range(N)])
    else:                       # irregular small increments; the last rows jump by different amounts
        inc = np.array([[((k * k * 7 + 3 * k + i * 5) % 97 + 1) / 64. * (-1) ** k for i in range(n)] for k in range(N)])
        for i in range(n):
            inc[-2, i] = (3., .5, 2., 1.7, 40.)[i % 5]
            inc[-1, i] = (0.01, 6., 2.5, 0., 1.6)[i % 5]
    return np.cumsum(inc, axis=0)


def count(n, method):
    if method in (None, "10%"):
        return max(n // 10, 1)
    if method == "30%":
        return max(3 * n // 10, 1)
    if method == "35%":
        return max(35 * n // 100, 1)
    if method == "sqrt":
        return max(math.isqrt(n), 1)
    if method == "log10":
        return max(len(str(n)) - 1, 1)
    return max(int(n ** (2 / 3.) / math.log10(math.log10(n))), 1)


def intervals(dw, past, k):
    """possible scores of one increment, as (low, high) intervals"""
    from scipy.stats import genpareto
    top = np.sort(past)[::-1][:k]
    if not dw > top[-1]:
        return [(0., 0.)]
    c, loc, scale = genpareto.fit(top, floc=top[-1])
    sf = float(genpareto.sf(dw, c, loc, scale))
    one = 1 - float(genpareto.cdf(dw, c, loc, scale))
    out = [(-math.log10(q + 1e-20) - 1e-6, -math.log10(q + 1e-20) + 1e-6) for q in (sf, one)]
    if max(sf, one) > 1e-13:
        out.append((-math.log10(max(sf, one) + 1e-14), -math.log10(max(min(sf, one) - 1e-14, 1e-20))))
    return out


def check_case(c, rec):
    from padasip.detection import ESE
    cache_fit()
    w = weights(c)
    N, n = w.shape
    for win in c["wins"]:
        for method in c["methods"]:
            W = 1000 if win is None else win
            if method == "log10log10" and W < 11:
                continue
            kw = {}
            if win is not None:
                kw["window"] = win
            if method is not None:
                kw["pot_method"] = method
            got = np.asarray(ESE(w, **kw))
            rec.step()
            if got.shape != (N,):
                rec.fail("not one value per weight row", shape=got.shape, window=win, method=method)
            if np.any(got[:W] != 0):
                rec.fail("values of the first window rows are not zero", got=got, window=win, method=method)
            if not np.all(np.isfinite(got)) or np.any(got < -1e-9):
                rec.fail("values are not finite or negative", got=got, window=win, method=method)
            dw = np.zeros((N, n))
            dw[1:] = np.abs(w[1:] - w[:-1])
            k = min(count(W, method), W)
            for i in range(W, N):
                sums = [(0., 0.)]
                for j in range(n):
                    if n > 20 and j:        # equal patterns repeat every five weights
                        part = cache.setdefault((dw[i, j], dw[i - W:i, j].tobytes()), None) or intervals(dw[i, j], dw[i - W:i, j], k)
                        cache[(dw[i, j], dw[i - W:i, j].tobytes())] = part
                    else:
                        cache = {}
                        part = intervals(dw[i, j], dw[i - W:i, j], k)
                    if len(sums) > 64:
                        sums = [(min(s[0] for s in sums), max(s[1] for s in sums))]
                    if n > 6:       # many weights: one hull per weight
                        part = [(min(p[0] for p in part), max(p[1] for p in part))]
                    sums = [(a + p, b + q) for a, b in sums for p, q in part]
                if not any(a - 1e-6 <= got[i] <= b + 1e-6 for a, b in sums):
                    rec.fail("score is not the tail probability of the increment", row=i, window=win, method=method,
                             got=got[i], want=sums[:3], k=k)
            rec.state((w.tobytes(), win, method))
            rec.outcome(got.tobytes())
