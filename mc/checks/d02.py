"""D02: multiscale learning entropy is the fraction of exceeded sensitivities."""
import itertools
import math
import numpy as np
from mc import dom
from mc.checks import d01

PROP = "D02"
LEVEL = "exploration"
RULE = ("every weight history over a small alphabet for the small shapes, with every window, order and set of "
        "sensitivities in every order and kind of sequence, and fixed long histories; every score is compared with "
        "an exact count; non-trivial = distinct (history, window, order, sensitivities)")
ASSUMPTIONS = ["an exact tie dw = alpha*mean is not an exceedance; ties that are only decided by rounding are accepted "
               "both ways and counted", "known finding le-first-rows as in D01"]
ALPHAS = [[1.], [.5, 2.], [2., .5, 1.], [1.5, 3., 3.], [4., 8., 12., 16.], [.25], [0.5, 1, 2], [1, 2], [1e-3], [1e6, 1.],
          [0, 100], [0., 1.], [-1., 2., 0.5], [0.]]
ZERO = [[0., 2.], [0, 1]]    # with order 1 only, where the increments are exact


jobs = d01.jobs
cases = d01.cases


MANY = [(7 * i % 311 + 1) / 8. for i in range(300)]     # all different


def alpha_lists(N, n, m, order):
    if N > 2000 or n > 100:
        return [ALPHAS[2], MANY[:9]] if m < 100 or order == 1 else []
    if N <= 5:
        return ALPHAS
    out = (ALPHAS[:5] if N <= 20 else ALPHAS[2:5]) + (ZERO if order == 1 else [])
    if N in (12, 20, 30) and m in (2, 5) and order < 3:
        out = out + [MANY[:17], MANY[:70], MANY]
    return out


def count(dw, rows, k, alphas, rec, strict):
    """-> (lowest, highest) exceedance count of row k"""
    lo = hi = 0
    for j in range(dw.shape[1]):
        if strict:
            mean = dw[rows, j].sum() / len(rows)    # exact: dyadic items, power-of-two window
            for a in alphas:
                lo += dw[k, j] > a * mean
            hi = lo
        else:
            mean = float(math.fsum(dw[rows, j])) / len(rows)
            for a in alphas:
                t = a * mean
                if abs(dw[k, j] - t) <= 1e-11 * (abs(t) + abs(dw[k, j])) and not (dw[k, j] == t == 0.):
                    hi += 1
                    rec.ambiguous += 1
                elif dw[k, j] > t:
                    lo += 1
                    hi += 1
    return lo, hi


def check_case(c, rec):
    from padasip.detection import learning_entropy
    w = d01.weights(c)
    N, n = w.shape
    for m, order in d01.params(N):
        if N > 100 and (order > 2 or m not in (1, 5, 10, 64, 100, 128, 256, 512)):
            continue
        dw = d01.increments(w, order)
        shipped = dw.copy()
        shipped[:order] = w[:order]
        for ia, alphas in enumerate(alpha_lists(N, n, m, order)):
            strict = m & (m - 1) == 0 and c.get("gen") != "irr" and all(a * 8 == int(a * 8) for a in alphas)
            forms = [alphas, tuple(alphas), np.array(alphas), alphas[::-1], np.array(alphas[::-1])]
            if N > 20:
                forms = [alphas, np.array(alphas[::-1])]
            elif N == 6:
                forms = forms[1:4]
            first = None
            for f in forms:
                le = np.asarray(learning_entropy(w, m=m, order=order, alpha=f))
                rec.step()
                if le.shape != (N,):
                    rec.fail("not one score per sample", shape=le.shape, m=m, order=order, alpha=f)
                if np.any(le[:m] != 0):
                    rec.fail("scores before sample m are not 0", m=m, order=order, alpha=f, got=le)
                if np.any(le < 0) or np.any(le > 1 + 1e-12):
                    rec.fail("scores outside 0..1", m=m, order=order, alpha=f, got=le)
                if first is None:
                    first = le
                elif not dom.same(le, first, 1e-12):
                    rec.fail("scores depend on the order or kind of the sensitivities", m=m, order=order, alpha=f,
                             got=le, before=first)
            total = n * len(alphas)
            for k in range(m, N):
                rows = list(range(k - m, k))
                got = first[k] * total
                if k - m >= order:
                    lo, hi = count(dw, rows, k, alphas, rec, strict)
                    if not lo - 1e-9 <= got <= hi + 1e-9 or abs(got - round(got)) > 1e-9:
                        rec.fail("score is not the fraction of exceeded sensitivities", k=k, m=m, order=order,
                                 alpha=alphas, got=first[k], want=(lo / total, hi / total))
                    continue
                cands = [(0, 0)]
                if k >= order:
                    avail = [r for r in rows if r >= order]
                    if avail:
                        cands.append(count(dw, avail, k, alphas, rec, False))
                    cands.append(count(dw, rows, k, alphas, rec, strict))
                if any(lo - 1e-9 <= got <= hi + 1e-9 for lo, hi in cands):
                    continue
                lo, hi = count(shipped, rows, k, alphas, rec, strict)
                if lo - 1e-9 <= got <= hi + 1e-9:
                    rec.finding("le-first-rows")
                    continue
                rec.fail("score of a sample near the start is neither documented nor the known deviation", k=k, m=m,
                         order=order, alpha=alphas, got=first[k], shipped=(lo / total, hi / total))
            rec.state((w.tobytes(), m, order, ia))
            rec.outcome(first.tobytes())
