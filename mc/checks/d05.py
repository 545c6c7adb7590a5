"""D05: novelty scores are causal, local and symmetric in the weights."""
import itertools
import numpy as np
from mc import dom
from mc.checks import d01, d04

PROP = "D05"
LEVEL = "exploration"
RULE = ("every weight history over a small alphabet for the small shapes and fixed long ones, for LE (direct and "
        "multiscale), ELBND and ESE: every prefix, every weight order, negation or shift of every weight, and changes of "
        "all rows older than the window; scores are compared; non-trivial = distinct (history, relation)")
ASSUMPTIONS = ["LE scores of samples whose window reaches the first `order` rows are exempt from the shift, negation and "
               "locality relations (known finding le-first-rows of D01/D02)",
               "results of genpareto.fit are cached per argument to save time"]


def jobs(tier):
    deep = tier == "thorough"
    for N, n, vals in ((5, 1, [0., 1., 3.]), (4, 2, [0., 1.]), (3, 2, [0., 1., -2.])) + \
            (((7, 1, [0., 1., 3.]), (3, 3, [0., 1.])) if deep else ()):
        for first in itertools.product(vals, repeat=2):
            yield {"N": N, "n": n, "vals": vals, "first": list(first)}
    for name in ("mix", "small", "burst", "offset", "irr"):
        for N, n in ((14, 1), (14, 3), (40, 2), (130, 2), (20, 6), (14, 70)) + ((300, 2), (1030, 1), (3100, 1), (14, 300)) + (((3000, 2), (40, 140)) if deep else ()):
            yield {"long": True, "gen": name, "N": N, "n": n}


def cases(job):
    if "long" in job:
        for score in SCORES:
            if score == "ese" and (job["N"] > 2000 or job["n"] > 200 or job["gen"] == "irr"):
                continue        # minutes of distribution fits; shifts of "irr" round, which the fits amplify
            yield {"gen": job["gen"], "N": job["N"], "n": job["n"], "score": score}
        return
    N, n = job["N"], job["n"]
    for rest in itertools.product(job["vals"], repeat=N * n - 2):
        m = job["first"] + list(rest)
        yield {"w": [m[i * n:(i + 1) * n] for i in range(N)], "score": None}


SCORES = ["le1", "le2", "le3", "lea1", "lea2", "max", "sum", "ese"]


def compute(score, w, e, m):
    """-> scores, first row for which the relations are claimed"""
    from padasip.detection import learning_entropy, ELBND, ESE
    if score[:3] == "lea":
        o = int(score[3:])
        return learning_entropy(w, m=m, order=o, alpha=[.5, 1., 2.]), m + o
    if score[:2] == "le":
        o = int(score[2:])
        return learning_entropy(w, m=m, order=o), m + o
    if score == "ese":
        return ESE(w, window=m, pot_method="30%"), m
    return ELBND(w, e, score), 0


def eq(a, b):
    # constant windows divide by 1e-10: allow rounding of the increments there
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-6 * np.maximum(np.abs(a), np.abs(b)) + 1e-8)


def check_case(c, rec):
    w = d01.weights(c)
    N, n = w.shape
    e = np.array(dom.gen("mix", N, 1)[1])
    d04.cache_fit()
    for score in [c["score"]] if c["score"] else SCORES:
        ms = (range(1, N) if N <= 8 else (2, 4, 10, 12) if N < 40 else (4, 10, 16) if N < 200 else (16, 128))
        if score == "ese" and N > 8:
            ms = (12,) if n > 8 else (4, 12) if N < 40 else (16,)
        for m in ms if score not in ("max", "sum") else (0,):
            if N <= 8 and m & (m - 1):
                continue        # means of odd windows round; ties would be ambiguous
            if score[:3] == "lea" and m & (m - 1):
                continue
            full, start = compute(score, w, e, m)
            full = np.array(full)
            # causality: every prefix
            cuts = range(1, N) if N <= 20 else sorted({m + 1, m + 2, m + 3, N // 2, N - 1})
            for p in cuts:
                if p <= m and score == "ese":
                    continue
                part, _ = compute(score, w[:p].copy(), e[:p].copy(), m)
                rec.step()
                end = p - 1 if score in ("max", "sum") else p
                if not eq(part[:end], full[:end]):
                    rec.fail("%s: scores change when later rows are appended" % score, rows=p, m=m, alone=part, full=full[:p])
            # later rows changed
            for p in cuts if N > 8 else (m + 2, N - 1):
                if not 0 < p < N:
                    continue
                for big in (1e13, -3.):
                    w2, e2 = w.copy(), e.copy()
                    w2[p:] = w2[p:] * big + 5 * big
                    e2[p:] *= big
                    got, _ = compute(score, w2, e2, m)
                    rec.step()
                    end = p - 1 if score in ("max", "sum") else p
                    if not eq(got[:end], full[:end]):
                        rec.fail("%s: scores change when later rows change" % score, rows=p, m=m, got=got[:p], full=full[:p])
            # symmetries
            def rel(w2, what, cols=None, frm=start):
                got, _ = compute(score, w2, e, m)
                rec.step()
                want = full if cols is None or full.ndim == 1 else full[:, cols]
                if not eq(got[frm:], want[frm:]):
                    rec.fail("%s: scores change when %s" % (score, what), m=m, got=got, want=want)
            for p in (itertools.permutations(range(n)) if n <= 3 else [tuple(range(n))[::-1], tuple(range(1, n)) + (0,)]):
                rel(w[:, list(p)], "weights are reordered", list(p), 0)
            for j in range(n) if n <= 8 else (0, n // 2, n - 1):
                for shift in (8., -1024.):
                    w2 = w.copy()
                    w2[:, j] += shift
                    rel(w2, "a constant is added to a weight")
                w2 = w.copy()
                w2[:, j] *= -1
                rel(w2, "a weight is negated")
            rel(-w, "all weights are negated")
            # locality
            if score not in ("max", "sum"):
                order = int(score[-1]) if score[:2] == "le" else 1
                for k in (range(start, N) if N <= 20 else sorted({start, start + 1, start + 5, N // 2, N - 1})):
                    old = k - m - order     # rows before this one enter no increment of sample or window
                    if old <= 0 or k >= N:
                        continue
                    for how in (0, 1):
                        w2 = w.copy()
                        w2[:old] = w2[:old] * -2 + 7 if how else 1000.
                        got, _ = compute(score, w2, e, m)
                        rec.step()
                        if not eq(got[k], full[k]):
                            rec.fail("%s: score depends on rows older than the window" % score, k=k, m=m, got=got[k], want=full[k])
            rec.state((w.tobytes(), score, m))
            rec.outcome(full.tobytes())
