"""
One-step synchronised comparison of an executed history with a reference model.

The filter runs over the whole history; the reference restarts from the *observed*
weights and error before every sample, so only its hidden state is carried and
rounding does not accumulate.  The reference runs twice, in float64 and in extended
precision: the difference of the two measures how ill-conditioned the point is.
"""
import numpy as np
from mc import dom, refs

LD = np.longdouble
SIGNS = ((1, 1), (-1, -1), (1, -1), (-1, 1))


def execute(kind, par, n, w, X, D, mode):
    """mode: "run", "adapt", or list of ops -> y, e, W (N+1 rows)"""
    f = dom.make(kind, n, w, par)
    N = len(D)
    if mode == "run":
        ops = [["r", N]]
    elif mode == "adapt":
        ops = [["a"]] * N
    else:
        ops = mode
    y, e, W, fin = dom.play(f, ops, X, D)
    return y, e, np.array(list(W) + [fin])


def wobble(kind, par, n, X, D, W, seen, nominal):
    """
    The error of an adapt call is not observed.  How far does the last increment move when
    every such error sits at either end of what rounding allows (and the hidden state with it)?
    """
    off = 0.
    if any(t for _, t in seen):
        for s in SIGNS:
            r = refs.make(kind, n, par)
            for k, (e, t) in enumerate(seen):
                dw = r.step(e + s[k % 2] * t, X[k], D[k], W[k])
            d = float(np.max(np.abs(dw - nominal)))
            off = d if not d <= off else off
    return off


def missing(rec, c):
    """from a sample that is not a number on there are no numbers, and before it there are"""
    X, D = dom.arrays(c["data"])
    y, e, W = execute(c["kind"], c["par"], c["n"], c["w"], X, D, c["mode"])
    bad = np.isnan(X).any(axis=1) | np.isnan(D)
    k = int(np.argmax(bad))
    if not bad.any() or np.isinf(D).any():
        rec.skip("infinite target")
        return
    rec.step(len(D))
    if not np.isfinite(W[:k + 1]).all():
        rec.fail("a later sample changes earlier weights", k=k, mode=c["mode"], W=W)
    if not np.isnan(W[k + 1:]).all():
        rec.fail("a sample that is not a number does not enter the weights by the rule", k=k, mode=c["mode"], W=W[k:])
    if any(v is not None and not np.isnan(v) for v in e[k:]):
        rec.fail("errors are numbers although the samples or weights are not", k=k, mode=c["mode"], e=e)
    rec.state((c["kind"], k, repr(c["mode"]), X.tobytes(), D.tobytes()))


def judge(rec, kind, par, n, w, X, D, mode):
    y, e, W = execute(kind, par, n, w, X, D, mode)
    N = len(D)
    if W.shape != (N + 1, n):
        rec.fail("weight history has the wrong shape", shape=W.shape)
    start = np.zeros(n) if isinstance(w, str) else np.array(w, dtype=float)
    if not np.array_equal(W[0], start):
        rec.fail("first weights are not the starting ones", got=W[0], want=start)
    r64, rld = refs.make(kind, n, par), refs.make(kind, n, par)
    seen = []
    for k in range(N):
        rec.step()
        x, wk = X[k], W[k]
        if not np.isfinite(W[k]).all():
            rec.skip("weights diverged to infinity", N - k)
            return
        # output and error
        terms = np.abs(wk * x).sum()
        yk = float(np.dot(wk, x))
        ek = D[k] - yk
        if np.isnan(x).any() or np.isnan(D[k]):
            # a missing number: the rule gives no number for any weight, now and for ever
            if not np.isnan(W[k + 1:]).all():
                rec.fail("a sample that is not a number does not enter the weights by the rule", k=k, mode=mode, W=W[k:])
            if any(v is not None and not np.isnan(v) for v in e[k:]):
                rec.fail("errors are numbers although the samples or weights are not", k=k, mode=mode, e=e)
            if y[k] is not None and not (np.isnan(y[k]) if np.isnan(x).any() else abs(y[k] - yk) <= 1e-9 * (1 + terms)):
                rec.fail("output is not w.x", k=k, got=y[k], want=yk)
            rec.state((kind, k, mode if isinstance(mode, str) else "mixed", wk.tobytes(), x.tobytes(), "nan"))
            return
        etol = 4 * dom.EPS * (n + 2) * (terms + abs(D[k])) + 1e-300
        if np.isinf(D[k]):
            etol = 0.
        if y[k] is not None and abs(y[k] - yk) > etol:
            rec.fail("output is not w.x", k=k, got=y[k], want=yk)
        if e[k] is not None:
            if abs(e[k] - ek) > etol:
                rec.fail("error is not d - w.x", k=k, got=e[k], want=ek)
            ek = float(e[k])
            etol = 0.
        xl, wl = x.astype(LD), wk.astype(LD)
        want = rld.step(LD(ek), xl, LD(D[k]), wl)
        w64 = r64.step(ek, x, D[k], wk)
        seen.append((ek, etol))
        if kind.startswith("VSLMS") and not abs(float(rld.mu)) < 1e6:
            rec.skip("step size diverged", N - k)
            return
        got = W[k + 1] - wk
        want64 = want.astype(float)
        if not (np.isfinite(want64).all() and np.isfinite(w64).all()):
            rec.skip("reference increment is not finite", N - k)
            return
        spread = float(np.max(np.abs(want64 - w64)))
        size = float(np.max(np.abs(want64)))
        if spread > 1e-7 * size and spread > 1e-13 * float(np.max(np.abs(wk))):
            rec.skip("ill-conditioned recursion", N - k)
            return
        big = np.maximum(np.abs(wk), np.abs(W[k + 1]))
        tol = 1e-9 * np.abs(want64) + 4 * dom.EPS * big + 100 * spread + 1e-300
        if kind in ("GNGD",) or kind.startswith("VSLMS"):
            tol = tol + 1e-10 * size
        bad = ~(np.abs(got - want64) <= tol)
        if bad.any():
            off = wobble(kind, par, n, X, D, W, seen, w64)
            if not np.isfinite(off):
                rec.ambiguous += 1
                rec.skip("error known only up to rounding", N - k)
                return
            bad = ~(np.abs(got - want64) <= tol + 4 * off)
            if off:
                rec.ambiguous += 1
        if bad.any():
            rec.fail("weight increment differs from the rule", k=k, mode=mode, got=got, want=want64,
                     e=ek, x=x, w=wk)
        rec.state((kind, k if k < 6 else 6, wk.tobytes(), x.tobytes(), D[k]))
        rec.outcome(got.tobytes())
