"""M01: error measures compute their definitions."""
import itertools
import math
from fractions import Fraction
import numpy as np
from mc import dom

PROP = "M01"
LEVEL = "exploration"
RULE = ("every series over the alphabet up to the length, alone and against every other series (as array, list or "
        "tuple, by position or keyword), and fixed long series; each measure is compared with exact rational "
        "arithmetic; non-trivial = distinct pairs of series")
ASSUMPTIONS = []
VALS = [0., 1., -1., -2., .5]


def jobs(tier):
    deep = tier == "thorough"
    for L in (1, 2, 3, 4) + ((5, 6) if deep else ()):
        yield {"t": "one", "L": L}
    for L in (1, 2):
        yield {"t": "two", "L": L, "vals": VALS}
    for first in itertools.product([0., -1., 3.], repeat=3):
        yield {"t": "two3", "a": list(first)}
    if deep:
        for first in itertools.product([0., -1., 3.], repeat=4):
            yield {"t": "two3", "a": list(first)}
    yield {"t": "long", "deep": deep}
    yield {"t": "nan", "deep": deep}


def cases(job):
    if job["t"] == "one":
        for a in itertools.product(VALS, repeat=job["L"]):
            yield {"a": list(a), "b": None}
    elif job["t"] == "two":
        for a in itertools.product(job["vals"], repeat=job["L"]):
            for b in itertools.product(job["vals"], repeat=job["L"]):
                yield {"a": list(a), "b": list(b)}
    elif job["t"] == "two3":
        for b in itertools.product([0., -1., 3.], repeat=len(job["a"])):
            yield {"a": job["a"], "b": list(b)}
    elif job["t"] == "nan":
        for L in (1, 2, 3, 4):
            for a in itertools.product([1., -2., 0., np.nan, np.inf, -np.inf][:6 if L < 4 else 4], repeat=L):
                if not np.all(np.isfinite(a)):
                    yield {"a": list(a), "b": None, "odd": True}
                    if L == 2:
                        for b in itertools.product([3., np.inf, np.nan], repeat=L):
                            yield {"a": list(a), "b": list(b), "odd": True}
        for N in (10, 100, 1025, 5000):
            for k in {0, 3, N // 2, N - 1}:
                for v in (np.nan, np.inf):
                    a = [j % 7 / 2. - 1 for j in range(N)]
                    a[k] = v
                    yield {"a": a, "b": None, "odd": True}
                    yield {"a": [1.] * N, "b": a, "odd": True}
    else:
        for N in list(range(1, 41)) + [50, 64, 99, 100, 101, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 2049, 4095, 4097, 4099, 5000, 5001, 8193, 10007, 20011] + \
                ([40000, 100003] if job["deep"] else []):
            for name in ("mix", "small", "huge", "tiny", "offset", "const", "irr"):
                x, d = dom.gen(name, N, 1)
                yield {"gen": name, "N": N}


def close(a, b):
    if math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-11 * abs(b) + 1e-300


def odd(c, rec):
    """NaN and infinite items count like in any sum"""
    from padasip.misc import MAE, MSE, RMSE, logSE, get_mean_error
    forms = [(np.array(c["a"]), None if c["b"] is None else np.array(c["b"]))]
    if len(c["a"]) < 4:
        forms.append((list(c["a"]), c["b"]))
    with np.errstate(all="ignore"):
        e = forms[0][0] if c["b"] is None else forms[0][0] - forms[0][1]
        nan, inf = np.isnan(e).any(), np.isinf(e).any()
        fin = float(np.sum(np.abs(e)) / len(e)), float(np.sum(e ** 2) / len(e))
        want = {"MAE": fin[0], "MSE": fin[1], "RMSE": math.sqrt(fin[1]) if not nan and not inf else fin[1]}
        wl = 10 * np.log10(e ** 2)
        for A, B in forms:
            args = (A,) if B is None else (A, B)
            for name, fn in (("MAE", MAE), ("MSE", MSE), ("RMSE", RMSE)):
                for got in (fn(*args), get_mean_error(*args, function=name)):
                    rec.step()
                    w = want[name]
                    if not (np.isnan(got) if nan else np.isinf(got) and got > 0 if inf else close(float(got), w)):
                        rec.fail("%s of a series with NaN or infinite items is wrong" % name, got=got, x1=A, x2=B)
            got = np.asarray(logSE(*args), dtype=float)
            rec.step()
            if got.shape != e.shape or not dom.same(got, wl, 1e-9, 1e-9):
                rec.fail("logSE of a series with NaN or infinite items is wrong", got=got, want=wl, x1=A, x2=B)
    rec.state((repr(c["a"]), repr(c["b"])))
    rec.outcome((bool(nan), bool(inf)))


def check_case(c, rec):
    if "odd" in c:
        return odd(c, rec)
    from padasip.misc import MAE, MSE, RMSE, logSE, get_mean_error
    if "gen" in c:
        x, d = dom.gen(c["gen"], c["N"], 1)
        pairs = [([v[0] for v in x], None), ([v[0] for v in x], d), (d, [v[0] for v in x]), (d, None)]
    else:
        pairs = [(c["a"], c["b"])]
    for a, b in pairs:
        e = [Fraction(v) for v in a] if b is None else [Fraction(p) - Fraction(q) for p, q in zip(a, b)]
        n = len(e)
        mae = float(sum(abs(v) for v in e) / n)
        mse = float(sum(v * v for v in e) / n)
        rmse = math.sqrt(mse)
        want_log = [10 * math.log10(float(v * v)) if v else -math.inf for v in e]
        forms = [(np.array(a), None if b is None else np.array(b))]
        if n <= 4 or n in (10, 100):
            forms += [(list(a), None if b is None else list(b)), (tuple(a), None if b is None else tuple(b))]
            if b is not None:
                forms += [(np.array(a), list(b)), (list(a), np.array(b))]
                if all(v == int(v) for v in b):
                    forms += [(np.array(a), [int(v) for v in b]), (np.array(a), tuple(int(v) for v in b)),
                              (list(a), np.array(b, dtype=int))]
        for A, B in forms:
            calls = [(A,) if B is None else (A, B)]
            kws = [{}]
            if B is not None:
                calls.append((A,))
                kws.append({"x2": B})
            else:
                calls.append((A, -1))
                kws.append({})
                calls.append((A,))
                kws.append({"x2": -1})
            for args, kw in zip(calls, kws):
                rec.step(8)
                for name, fn, want in (("MAE", MAE, mae), ("MSE", MSE, mse), ("RMSE", RMSE, rmse)):
                    got = fn(*args, **kw)
                    if np.ndim(got) != 0 or not close(float(got), want):
                        rec.fail("%s is wrong" % name, got=got, want=want, x1=A, x2=B)
                    got = get_mean_error(*args, **dict(kw, function=name))
                    if np.ndim(got) != 0 or not close(float(got), want):
                        rec.fail("get_mean_error(function=%r) is wrong" % name, got=got, want=want, x1=A, x2=B)
                    if len(args) == 2:
                        got = get_mean_error(args[0], args[1], name)
                        if np.ndim(got) != 0 or not close(float(got), want):
                            rec.fail("get_mean_error(.., .., %r) is wrong" % name, got=got, want=want, x1=A, x2=B)
                got = get_mean_error(*args, **kw)
                if not close(float(got), mse):
                    rec.fail("get_mean_error is not MSE by default", got=got, want=mse, x1=A, x2=B)
                got = np.asarray(logSE(*args, **kw), dtype=float)
                if got.shape != (n,) or not all(close(float(g), w) or abs(g - w) < 1e-9 for g, w in zip(got, want_log)):
                    rec.fail("logSE is wrong", got=got, want=want_log, x1=A, x2=B)
        rec.state((tuple(a), None if b is None else tuple(b)))
        rec.outcome((mae, mse))
