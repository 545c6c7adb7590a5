"""F01: batch, split and sample-by-sample filtering agree."""
import itertools
import numpy as np
from mc import dom, onestep

PROP = "F01"
LEVEL = "model_checking"
RULE = ("every way to feed N samples through runs of any length (empty ones too), predict+adapt and adapt "
        "alone, for every sample sequence of a small alphabet (N <= 4) and for long fixed series with every "
        "cut position and chunk size; a state is (filter, samples consumed, weights)")
ASSUMPTIONS = ["comparison tolerance 1e-7 of the largest value; parameters are stable on the data"]


def feeds(N, empties=True):
    """every sequence of operations that consumes N samples"""
    def rec(left):
        if left == 0:
            yield []
            return
        for c in range(1, left + 1):
            for rest in rec(left - c):
                yield [["r", c]] + rest
        for op in ("p", "a"):
            for rest in rec(left - 1):
                yield [[op]] + rest
    for ops in rec(N):
        yield ops
    if empties:     # an empty run at every position of the basic feeds
        for base in ([["r", N]], [["p"]] * N, [["r", 1]] * N, [["a"]] * N):
            for i in range(len(base) + 1):
                yield base[:i] + [["r", 0]] + base[i:]


def chunks(N, c, kinds=("r",)):
    ops, left, i = [], N, 0
    while left:
        k = kinds[i % len(kinds)]
        if k == "r":
            m = min(c, left)
            ops.append(["r", m])
            left -= m
        else:
            m = min(c, left)
            ops += [[k]] * m
            left -= m
        i += 1
    return ops


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        for ip in range(len(dom.STABLE[kind])):
            for n, N in ((1, 3), (2, 3), (1, 4)) + (((2, 4), (1, 5)) if deep else ()):
                yield {"t": "all", "kind": kind, "ip": ip, "n": n, "N": N}
            yield {"t": "feeds", "kind": kind, "ip": ip, "N": 6 if not deep else 7}
            for n in (1, 3):
                yield {"t": "cuts", "kind": kind, "ip": ip, "n": n, "deep": deep}
            yield {"t": "long", "kind": kind, "ip": ip, "deep": deep}
        yield {"t": "nan", "kind": kind}


def cases(job):
    kind = job["kind"]
    if job["t"] == "nan":
        from mc.checks import f03
        for c in f03.missing(kind, dom.par_for(kind, dom.STABLE[kind][0], 2), ("d", "x", "xd")):
            if c["mode"] == "run":      # all feeds of the five samples
                yield dict(c, t="nan")
        return
    par0 = dom.STABLE[kind][job["ip"]]
    t = job["t"]
    sign = kind in dom.SIGNED
    if t == "all":
        n, N = job["n"], job["N"]
        par = dom.par_for(kind, par0, n)
        if n == 1:
            al = [([1.], 0.), ([1.], 1.), ([-1.], 1.), ([-1.], -2.)] if sign else \
                 [([1.], 0.), ([1.], 1.), ([-2.], 1.), ([.5], -2.)]
        else:
            al = [([1., 1.], 0.), ([1., -1.], 1.), ([-1., -1.], -2.)] if sign else \
                 [([1., .5], 0.), ([1., -2.], 1.), ([0., 1.], -2.)]
        if N >= 4:
            al = al[1:]
        fs = list(feeds(N))
        for xs, ds in dom.histories(al, N):
            yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "data": {"x": xs, "d": ds}, "feeds": fs}
    elif t == "feeds":
        for g in (["sign"] if sign else ["mix", "burst", "offset"]):
            for n in (1, 2, 3):
                yield {"kind": kind, "par": dom.par_for(kind, par0, n), "n": n, "w": "zeros",
                       "data": {"gen": g, "N": job["N"], "n": n}, "feeds": "all"}
    elif t == "cuts":
        n = job["n"]
        par = dom.par_for(kind, par0, n)
        gens = ["sign", "irr"] if sign else ["small", "delay", "offset", "burst", "irr"]
        for g in gens:
            for N in range(1, 41 if job["deep"] else 25):
                fs = [[["r", i], ["r", N - i]] for i in range(N + 1)]
                fs += [[["r", i]] + [["p"]] + [["r", N - i - 1]] for i in range(N)]
                fs += [chunks(N, c) for c in range(1, N)]
                fs += [chunks(N, c, ("r", "a")) for c in range(1, min(N, 6))]
                yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n),
                       "data": {"gen": g, "N": N, "n": n}, "feeds": fs}
    else:
        if job["ip"] == 0:
            g = "irr"
            yield {"kind": kind, "par": dom.par_for(kind, par0, 2), "n": 2, "w": "zeros", "data": {"gen": g, "N": 10500, "n": 2},
                   "feeds": [chunks(10500, 500, ("r", "a")), chunks(10500, 1000, ("r",)), [["a"]] * 10500]}
            for n in (257, 300, 520, 1030):
                yield {"kind": kind, "par": dom.par_for(kind, par0, n), "n": n, "w": dom.w0(n), "data": {"gen": g, "N": 6, "n": n},
                       "feeds": [chunks(6, c, k) for c in (2, 3) for k in (("r",), ("p",), ("a", "r", "p"))]}
        gens = ["sign"] if sign else ["small", "delay", "irr"]
        for g in gens:
            for n in (1, 2, 5, 8, 16, 17, 33, 70):
                par = dom.par_for(kind, par0, n)
                N = 40
                fs = [chunks(N, c, k) for c in (1, 3, 7, 16) for k in (("r",), ("p",), ("a", "r", "p"))]
                yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "data": {"gen": g, "N": N, "n": n},
                       "feeds": fs}
            for n, N in ((2, 101), (3, 128), (2, 257), (2, 515), (2, 1030)) + \
                    (((2, 4100), (2, 10050)) if job["deep"] else ()):
                par = dom.par_for(kind, par0, n)
                fs = [chunks(N, c, k) for c in (1, 10, 50, 64, 100, 127, 128, 256, 500)
                      for k in (("r",), ("a", "r", "p")) if c < N]
                fs += [[["r", i], ["r", N - i]] for i in (1, 2, 99, 100, N - 1) if i < N]
                yield {"kind": kind, "par": par, "n": n, "w": "zeros", "data": {"gen": g, "N": N, "n": n},
                       "feeds": fs}
        for g in ([] if sign else ["scales", "tiny"]):
            for n, N in ((2, 30), (4, 60), (9, 40), (3, 1030)):
                yield {"kind": kind, "par": dom.par_for(kind, par0, n), "n": n, "w": "zeros", "data": {"gen": g, "N": N, "n": n},
                       "feeds": [chunks(N, c, k) for c in (7, 500) for k in (("r",), ("p",), ("a", "r", "p"))]}


def check_case(c, rec):
    if c.get("t") == "nan":
        for ops in feeds(5):
            onestep.missing(rec, dict(c, mode=ops))
        return
    X, D = dom.arrays(c["data"])
    N, n = len(D), c["n"]
    fs = feeds(N) if c["feeds"] == "all" else c["feeds"]
    f = dom.make(c["kind"], n, c["w"], c["par"])
    y, e, W = f.run(D, X)
    W = np.array(W)
    fin = np.array(f.w)
    if not dom.tame(y, e, fin):
        rec.skip("diverges")
        return
    rec.state((c["kind"], N, fin.tobytes()))
    ys = 1e-7 * (1e-300 + np.max(np.abs(np.concatenate([y, e, [0.]]))))
    ws = 1e-7 * (1e-300 + np.max(np.abs(np.concatenate([W.ravel(), fin]))))
    if c["kind"] not in ("AP", "RLS") and c["data"].get("gen") == "scales":     # increments are scalars times the input
        col = np.max(np.abs(np.vstack([W, fin])), axis=0)
        ws = 1e-6 * col + 1e-5 * ws + 1e-300
    for ops in fs:
        f = dom.make(c["kind"], n, c["w"], c["par"])
        y2, e2, W2, fin2 = dom.play(f, ops, X, D)
        rec.step(N)
        if len(W2) != N:
            rec.fail("number of results differs from the number of samples", ops=ops)
        W2 = np.array(W2).reshape(N, n)
        seen = [k for k in range(N) if y2[k] is not None]
        y2 = np.array([y2[k] for k in seen], dtype=float)
        e2 = np.array([e2[k] for k in seen], dtype=float)
        if not np.all(np.abs(y2 - y[seen]) <= ys):
            rec.fail("outputs depend on how the samples are fed", ops=ops, got=y2, one_run=y[seen])
        if not np.all(np.abs(e2 - e[seen]) <= ys):
            rec.fail("errors depend on how the samples are fed", ops=ops, got=e2, one_run=e[seen])
        if not np.all(np.abs(W2 - W) <= ws):
            rec.fail("weights depend on how the samples are fed", ops=ops, got=W2, one_run=W)
        if not np.all(np.abs(fin2 - fin) <= ws):
            rec.fail("final weights depend on how the samples are fed", ops=ops, got=fin2, one_run=fin)
        rec.state((c["kind"], N, len(ops), fin2.tobytes(), W2.tobytes()))
    rec.outcome(W.tobytes())
