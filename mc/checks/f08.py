"""F08: predicting never changes a filter."""
import numpy as np
from mc import dom

PROP = "F08"
LEVEL = "model_checking"
RULE = ("every short history of runs and adapts, with 1..3 predict calls (own sample, another one, zeros, huge) "
        "inserted at every position and at all positions; everything afterwards must equal the history without "
        "them, and a repeated predict must return the same value")
ASSUMPTIONS = []
BASES = [[["a"]] * 4, [["r", 4]], [["r", 1], ["a"], ["r", 2]], [["p"], ["r", 3]], [["a"], ["a"], ["r", 2]],
         [["r", 2], ["r", 0], ["r", 2]]]


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        pars = dom.STABLE[kind] + dom.PARAMS[kind][:3]
        for ip in range(len(pars)):
            for n in (1, 2, 3):
                yield {"t": "short", "kind": kind, "ip": ip, "n": n, "deep": deep}
            yield {"t": "long", "kind": kind, "ip": ip, "deep": deep}


def cases(job):
    kind = job["kind"]
    pars = dom.STABLE[kind] + dom.PARAMS[kind][:3]
    gens = ["sign"] if kind in dom.SIGNED else ["small", "offset", "burst", "irr"]
    if job["t"] == "short":
        n = job["n"]
        par = dom.par_for(kind, pars[job["ip"]], n)
        if n <= 2:
            size = "s" if not job["deep"] else "m"
            datas = [{"x": xs, "d": ds} for xs, ds in dom.histories(dom.alphabet(n, size)[1:], 4 if size == "s" else 3)]
        else:
            datas = []
        datas += [{"gen": g, "N": 4, "n": n} for g in gens]
        for dat in datas:
            N = 4 if "gen" in dat else len(dat["d"])
            for base in BASES:
                if N != 4:
                    base = [["a"]] * N if base[0][0] == "a" else [["r", 1], ["a"], ["r", N - 2]]
                yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "data": dat, "base": base}
    else:
        for g in gens:
            for n, N in ((2, 12), (3, 103), (2, 300), (17, 10), (33, 8), (65, 5), (129, 4), (257, 3), (520, 3)):
                par = dom.par_for(kind, pars[job["ip"]], n)
                yield {"kind": kind, "par": par, "n": n, "w": "zeros", "data": {"gen": g, "N": N, "n": n},
                       "base": [["a"]] * N if N < 200 else [["r", 5]] * (N // 5)}


def go(c, X, D, at, probes, rec):
    """play the base with predict calls before the operations in `at`"""
    f = dom.make(c["kind"], c["n"], c["w"], c["par"])
    res, k = [], 0
    for i, op in enumerate(list(c["base"]) + [None]):
        if i in at:
            first = [np.array(f.predict(p)) for p in probes]
            for p, v in zip(probes, first):
                again = np.array(f.predict(p))
                if not dom.same(again, v):
                    rec.fail("repeated predict returns something else", first=v, then=again, at=i)
        if op is None:
            break
        if op[0] == "r":
            out = f.run(D[k:k + op[1]], X[k:k + op[1]])
            res += [np.array(o) for o in out]
            k += op[1]
        elif op[0] == "p":
            res.append(np.array(f.predict(X[k])))
            f.adapt(D[k], X[k])
            k += 1
        else:
            f.adapt(D[k], X[k])
            k += 1
        res.append(np.array(f.w))
    res.append(np.array([float(f.predict(X[j])) for j in range(min(2, len(X)))]))
    return res


def check_case(c, rec):
    X, D = dom.arrays(c["data"])
    n = c["n"]
    plain = go(c, X, D, (), (), rec)
    if not dom.tame(*plain, lim=1e12):
        rec.skip("diverges")
        return
    L = len(c["base"])
    probe_sets = [[X[0]], [np.zeros(n)], [X[-1] * 1024., X[0]], [np.full(n, -3.5), np.full(n, .5), X[len(X) // 2]]]
    places = [(i,) for i in range(L + 1)] if L < 20 else [(0,), (1,), (2,), (50,), (99,), (100,), (L - 1,)]
    places.append(tuple(range(L + 1)))
    for probes in probe_sets:
        for at in places:
            got = go(c, X, D, at, probes, rec)
            rec.step(L)
            for a, b in zip(plain, got):
                if not dom.same(a, b):
                    rec.fail("predict calls changed the later results", before_op=at[:3], probes=probes,
                             without=a, with_predict=b)
            rec.state((c["kind"], c["n"], len(at), repr(c["base"]), got[-2].tobytes()))
    rec.outcome(plain[-2].tobytes())
