"""P01: standardization and its inverse are exact inverses."""
import itertools
import numpy as np
from mc import dom

PROP = "P01"
LEVEL = "exploration"
RULE = ("every series over the alphabet up to the length and fixed long ones, with every combination of given and "
        "omitted offset and scale; compared with the definition and sent back; non-trivial = distinct (series, "
        "offset, scale)")
ASSUMPTIONS = ["series whose own deviation is zero are only used with a given scale"]
OFF = [None, 0, 0., -0., 1, -1.5, 1e6, 1e-6]
SCALE = [None, 1, 1., .5, -2., 3, 1e-3, 1e6, -1]


def jobs(tier):
    deep = tier == "thorough"
    for L in (1, 2, 3, 4) + ((5, 6) if deep else ()):
        yield {"L": L}
    yield {"L": 0, "deep": deep}
    yield {"L": -1}


def cases(job):
    if job["L"] < 0:
        for N in (1, 2, 3, 5, 40, 257):
            for k in sorted({0, N // 2, N - 1}):
                for v in (np.nan, np.inf, -np.inf):
                    yield {"odd": v, "at": k, "N": N}
        return
    if job["L"]:
        for x in itertools.product([0., 1., -2., .5], repeat=job["L"]):
            yield {"x": list(x)}
    else:
        for name in ("mix", "small", "huge", "tiny", "offset", "irr"):
            for N in list(range(5, 41)) + [100, 101, 128, 257, 1000, 1025, 4097, 5000, 8191, 8193, 10001, 10050, 16385, 65537] + ([20000, 100001] if job["deep"] else []):
                yield {"gen": name, "N": N}
        for name in ("level", "flat", "spike", "e-9", "e-11", "e-30", "e-100", "e12", "e100"):     # mean much larger than the deviation, one far value
            for N in (2, 3, 5, 10, 11, 20, 33, 100, 257, 1000):
                yield {"gen": name, "N": N}
        for sh in ((2, 3), (5, 2), (1, 4)):
            yield {"gen": "mix", "N": sh[0] * sh[1], "shape": list(sh)}


def series(gen, N):
    if gen == "level":
        return [1e6 + k % 16 / 64. for k in range(N)]
    if gen == "flat":
        return [-3e7 + k % 5 for k in range(N)]
    if gen == "spike":
        return [1e8 if k == N // 2 else k % 3 / 4. for k in range(N)]
    if gen[0] == "e":
        return [v[0] * float("1" + gen) for v in dom.gen("mix", N, 1)[0]]
    return [v[0] for v in dom.gen(gen, N, 1)[0]]


def odd(c, rec):
    """a NaN or infinite item stays alone in its place when offset and scale are given"""
    from padasip.preprocess import standardize, standardize_back
    x = np.array([k % 7 / 2. - 1 for k in range(c["N"])])
    x[c["at"]] = c["odd"]
    for off in (0., 1.5, -3):
        for sc in (1, .5, -2.):
            for arg in (x, x.tolist()):
                for fn, want in ((standardize, (x - off) / sc), (standardize_back, x * sc + off)):
                    got = fn(arg, offset=off, scale=sc)
                    rec.step()
                    if not isinstance(got, np.ndarray) or not dom.same(got, want, 1e-12, 1e-12):
                        rec.fail("a NaN or infinite item does not stay in its place", x=arg, offset=off, scale=sc, got=got, want=want)
    rec.state((c["N"], c["at"], repr(c["odd"])))
    rec.outcome(c["N"])


def check_case(c, rec):
    import padasip as pa
    from padasip.preprocess import standardize, standardize_back
    if "odd" in c:
        return odd(c, rec)
    x = c["x"] if "x" in c else series(c["gen"], c["N"])
    xa = np.array(x).reshape(c["shape"]) if "shape" in c else np.array(x)
    n = xa.size
    lx = xa.astype(np.longdouble)
    mean = lx.sum() / n
    std = np.sqrt(((lx - mean) ** 2).sum() / n)
    forms = [xa]
    if n <= 5:
        forms.append(xa.tolist())
        if all(v == int(v) for v in x):
            forms.append([int(v) for v in x])
    for arg in forms:
        for off in OFF:
            for sc in SCALE:
                if sc is None and std == 0:
                    continue
                o = mean if off is None else np.longdouble(off)
                s = std if sc is None else np.longdouble(sc)
                want = ((lx - o) / s).astype(float)
                tol = 1e-11 * (np.max(np.abs(lx)) + abs(o)) / abs(s) + 1e-300
                ways = [lambda: standardize(arg, off, sc), lambda: standardize(arg, offset=off, scale=sc)]
                if off is None and sc is None:
                    ways += [lambda: standardize(arg), lambda: pa.standardize(arg)]
                elif off is None:
                    ways.append(lambda: standardize(arg, scale=sc))
                elif sc is None:
                    ways += [lambda: standardize(arg, offset=off), lambda: standardize(arg, off)]
                for fn in ways:
                    got = fn()
                    rec.step()
                    if not isinstance(got, np.ndarray) or got.shape != xa.shape or \
                            not np.all(np.abs(got - want) <= tol):
                        rec.fail("standardize is not (x - offset) / scale", x=arg, offset=off, scale=sc, got=got, want=want)
                if off is None and sc is None:
                    if abs(got.mean()) > 1e-11 * (1 + float(abs(mean) / std)) or \
                            abs(got.std() - 1) > 1e-11 * (1 + float(abs(mean) / std)):
                        rec.fail("standardized series has not zero mean and unit deviation", got=got)
                of, sf = float(o), float(s)
                for fn in (standardize_back, pa.standardize_back):
                    back = fn(got, of, sf)
                    if back.shape != xa.shape or not np.all(np.abs(back - xa) <= 1e-11 * (np.max(np.abs(xa)) + abs(of)) + 1e-300):
                        rec.fail("standardize_back does not undo standardize", x=arg, offset=of, scale=sf, got=back)
                for fn in (lambda: standardize_back(arg, of, sf), lambda: standardize_back(arg, offset=of, scale=sf)):
                    back = fn()
                    wb = (lx * s + o).astype(float)
                    tb = 1e-11 * (np.max(np.abs(xa)) * abs(sf) + abs(of)) + 1e-300
                    if back.shape != xa.shape or not np.all(np.abs(back - wb) <= tb):
                        rec.fail("standardize_back is not xs * scale + offset", xs=arg, offset=of, scale=sf, got=back, want=wb)
                fwd = standardize(back, of, sf)
                if not np.all(np.abs(fwd - xa) <= 1e-11 * (np.max(np.abs(xa)) + abs(of / sf)) + 1e-300):
                    rec.fail("standardize does not undo standardize_back", xs=arg, offset=of, scale=sf, got=fwd)
                rec.step(4)
                rec.state((tuple(x), off, sc))
                rec.outcome(want.tobytes())
