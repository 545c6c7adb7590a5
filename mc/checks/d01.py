"""D01: direct learning entropy is the standardized increment of each weight."""
import itertools
import numpy as np
from mc import dom

PROP = "D01"
LEVEL = "exploration"
RULE = ("every weight history over a small alphabet for the small shapes, with every window and order, and fixed long "
        "histories; every score is compared with the definition; non-trivial = distinct (history, window, order)")
ASSUMPTIONS = ["scores of samples whose window contains the first `order` rows, for which no increment exists, are "
               "the known finding le-first-rows and compared with its exact description"]


def jobs(tier):
    deep = tier == "thorough"
    for N, n, vals in ((3, 1, [0., 1., 3., -1.]), (5, 1, [0., 1., 3.]), (6, 1, [0., 1., 3.]), (3, 2, [0., 1., -2.]),
                       (4, 2, [0., 1.])) + (((8, 1, [0., 1., 3.]), (4, 2, [0., 1., -2.]), (4, 3, [0., 1.])) if deep else ()):
        for first in itertools.product(vals, repeat=2):
            yield {"N": N, "n": n, "vals": vals, "first": list(first)}
    for name in ("mix", "small", "burst", "offset", "const", "impulse", "huge", "level", "irr"):
        for size in (0, 1, 2):
            yield {"long": name, "size": size, "deep": deep}


def cases(job):
    if "long" in job:
        small = ((12, 1), (30, 3), (64, 2), (130, 2), (20, 9), (12, 17))
        big = ((300, 1), (1030, 1)) + (((3000, 2), (40, 70)) if job["deep"] else ())
        huge = ((3100, 1), (14, 300)) + (((10500, 1),) if job["deep"] else ())
        for N, n in (small, big, huge)[job["size"]]:
            yield {"gen": job["long"], "N": N, "n": n}
        return
    N, n = job["N"], job["n"]
    for rest in itertools.product(job["vals"], repeat=N * n - 2):
        m = job["first"] + list(rest)
        yield {"w": [m[i * n:(i + 1) * n] for i in range(N)]}


def weights(c):
    if "w" in c:
        return np.array(c["w"], dtype=float)
    if c["gen"] == "level":     # large increments that are nearly equal
        return np.cumsum(np.array(dom.gen("mix", c["N"], c["n"])[0]) / 32 + 2. ** 17, axis=0)
    w = np.array(dom.gen(c["gen"], c["N"], c["n"])[0])
    return np.cumsum(w, axis=0) if c["gen"] in ("small", "burst", "impulse") else w


def params(N):
    if N <= 8:
        for order in (1, 2, 3):
            for m in range(1, N + 2):
                yield m, order
    elif N > 2000:
        yield from ((1, 1), (10, 1), (64, 2), (512, 1), (1500, 1), (N - 1, 1))
    else:
        for order in (1, 2, 3, 4):
            for m in sorted({1, 2, 3, 5, 7, 10, 11, 20, 30, 50, 64, 99, 100, 128, 200, 256, 512, 1000, N - 1, N}):
                if m <= N and not (order > 2 and m > 70):
                    yield m, order


def direct(dw, rows, k):
    """score of row k from the increments of the window rows"""
    a = dw[rows]
    mean = a.mean(axis=0)
    std = np.sqrt(((a - mean) ** 2).mean(axis=0))
    return (dw[k] - mean) / (std + 1e-10)


def increments(w, order):
    dw = np.zeros_like(w)
    d = w
    for _ in range(order):
        d = d[1:] - d[:-1]
    if len(d):
        dw[order:] = np.abs(d)
    return dw


def close(a, b):
    return np.all(np.abs(a - b) <= 1e-7 * np.abs(b) + 1e-9)


def check_case(c, rec):
    from padasip.detection import learning_entropy
    w = weights(c)
    N, n = w.shape
    for m, order in params(N):
        dw = increments(w, order)
        shipped = dw.copy()
        shipped[:order] = w[:order]
        ways = [lambda: learning_entropy(w, m, order), lambda: learning_entropy(w, m=m, order=order, alpha=False)]
        if order == 1:
            ways.append(lambda: learning_entropy(w, m=m))
            if m == 10:
                ways.append(lambda: learning_entropy(w))
        for fn in ways[:1] + ([] if N > 100 else ways[1:]) + (ways[-1:] if N > 100 and m == 10 else []):
            le = np.asarray(fn())
            rec.step()
            if le.shape != (N, n) or le.dtype.kind != "f":
                rec.fail("not one score per sample and weight", shape=le.shape, m=m, order=order)
            if np.any(le[:m] != 0):
                rec.fail("scores before sample m are not 0", m=m, order=order, got=le[:m])
            for k in range(m, N):
                rows = list(range(k - m, k))
                if k - m >= order:
                    want = direct(dw, rows, k)
                    spread = np.max(np.abs(dw[rows]), axis=0)
                    tol = 1e-7 * np.abs(want) + 1e-9 + 1e-13 * spread / (np.std(dw[rows], axis=0) + 1e-10)
                    if not np.all(np.abs(le[k] - want) <= tol):
                        rec.fail("score is not the standardized increment", k=k, m=m, order=order, got=le[k], want=want)
                    continue
                # the window (or the sample) reaches rows that have no increment
                ok = [np.zeros(n)]
                if k >= order:
                    avail = [r for r in rows if r >= order]
                    if avail:
                        ok.append(direct(dw, avail, k))
                    ok.append(direct(dw, rows, k))
                if any(close(le[k], o) for o in ok):
                    continue
                if close(le[k], direct(shipped, rows, k)):
                    rec.finding("le-first-rows")
                    continue
                rec.fail("score of a sample near the start is neither documented nor the known deviation",
                         k=k, m=m, order=order, got=le[k], shipped=direct(shipped, rows, k))
        rec.state((w.tobytes(), m, order))
        rec.outcome(le.tobytes())
