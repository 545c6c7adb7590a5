"""G05: refused input raises ValueError and leaves the filter or network as it was."""
import itertools
import math
import numpy as np
from mc import dom, mlp, surface

PROP = "G05"
LEVEL = "fault_enumeration"
RULE = ("every faulty call of a catalogue is injected at every position (and at two positions) of every short history of "
        "filters and networks: it must be refused and all later results must be those of the history without it; every "
        "faulty argument of the functions must be refused; non-trivial = distinct (history, position, fault)")
ASSUMPTIONS = ["adapt, pretrained_run and MLP predict and update may refuse with any exception, run and filter_data with ValueError only",
               "what a refused pretrained_run learned from a correct head is not judged"]

HIST = [["a", "a", "a", "a"], ["r2", "a", "p", "r2"], ["p", "a", "r3"], ["r1", "r1", "a"], ["t4", "a", "r1"], ["r5", "a"]]


def sample(n, k=3):
    x, d = dom.gen("delay", 40, n)
    return x[k], d[k]


def faults(n):
    """name -> (method, function of nothing giving the arguments, needs ValueError)"""
    X, D = dom.gen("delay", 40, n)
    X, D = X[20:], D[20:]
    out = {}

    def put(name, method, d, x, strict):
        out[name] = (method, d, x, strict)
    for m, strict in (("run", True), ("filter_data", True), ("pretrained_run", False)):
        if m != "filter_data":
            ks = ((3, 2), (2, 3), (1, 0), (0, 1), (4, 1))
        else:
            ks = ((3, 2), (2, 3), (1, 4))
        if m != "pretrained_run":
            for a, b in ks:
                put("%s:length %d/%d" % (m, a, b), m, np.array(D[:a]), np.array(X[:b]).reshape(b, n), strict)
        else:   # the head has the wrong length too
            for a, b in ((4, 1), (5, 0)):
                put("%s:length %d/%d" % (m, a, b), m, np.array(D[:a]), np.array(X[:b]).reshape(b, n), strict)
        if m != "filter_data":
            for wd in (n + 1, n + 2, 2 * n, 1, n - 1, 0):
                if wd != n and wd >= 0:
                    for N in (1, 2, 3):
                        x = np.array([[dom._mix(k, i) for i in range(wd)] for k in range(N)]).reshape(N, wd)
                        put("%s:width %d rows %d" % (m, wd, N), m, np.array(D[:N]), x, strict)
            put("%s:flat" % m, m, np.array(D[:n]), np.array(X[0]), strict)
            put("%s:flat long" % m, m, np.array(D[:3]), np.array([1., 2., 3.]), strict)
            put("%s:three dimensions" % m, m, np.array(D[:2]), np.ones((2, n, 1)), strict)
            put("%s:three dimensions 2" % m, m, np.array(D[:2]), np.ones((2, n, n + 1)), strict)
            put("%s:three dimensions 3" % m, m, np.array(D[:2]), np.ones((2, 1, n)), strict) if n > 1 else None
            put("%s:ragged" % m, m, list(D[:2]), [list(X[0]), list(X[1]) + [1.]], strict)
            put("%s:ragged short" % m, m, list(D[:3]), [list(X[0]), list(X[1]), list(X[2])[:-1]], strict)
            put("%s:ragged number" % m, m, list(D[:2]), [list(X[0]), 1.], strict)
            bad = [list(r) for r in X[:3]]
            bad[2][-1] = "abc"
            put("%s:text in x" % m, m, list(D[:3]), bad, strict)
            bad = [list(r) for r in X[:3]]
            bad[0][0] = {}
            put("%s:object in x" % m, m, list(D[:3]), bad, strict)
        else:
            x = np.array(X[:3], dtype=object)
            x[1, 0] = "abc"
            put("filter_data:text in x", m, np.array(D[:3]), x, strict)
            x = np.array(X[:3], dtype=object)
            x[2, -1] = {}
            put("filter_data:object in x", m, np.array(D[:3]), x, strict)
        for sh in ((3, 1), (3, 2), (3, n), (1, 3), (3, 1, 1)):
            put("%s:target shape %r" % (m, sh), m, np.resize(D[:9], sh), np.array(X[:3]), strict)
        put("%s:three dimensions 4" % m, m, np.array(D[:2]), np.ones((2, n, n)), strict)
        put("%s:four dimensions" % m, m, np.array(D[:3]), np.ones((3, n, 1, 1)), strict)
        put("%s:text in d" % m, m, list(D[:2]) + ["abc"], np.array(X[:3]), strict)
        put("%s:object in d" % m, m, list(D[:2]) + [{}], np.array(X[:3]), strict)
        put("%s:text array d" % m, m, np.array(["a", "b"]), np.array(X[:2]), strict)
        put("%s:ragged d" % m, m, [1., [1., 2.], 3.], np.array(X[:3]), strict)
    for wd in (n + 1, n + 2, 2 * n, n - 1, 0):
        if wd != n and wd >= 0 and not (wd == 1):
            put("adapt:width %d" % wd, "adapt", 1., np.array([dom._mix(1, i) for i in range(wd)]), False)
    if n > 1:
        put("adapt:width one", "adapt", 1., np.array([1.5]), False)
    put("adapt:text", "adapt", 1., ["abc"] * n, False)
    put("adapt:last text", "adapt", 1., list(X[0])[:-1] + ["abc"], False)
    put("adapt:object", "adapt", 1., [{}] * n, False)
    put("adapt:ragged", "adapt", 1., [[1.]] * (n - 1) + [[1., 2.]] if n > 1 else [[1., 2.], [1.]], False)
    put("adapt:target text", "adapt", "abc", np.array(X[0]), False)
    put("adapt:target object", "adapt", {}, np.array(X[0]), False)
    put("adapt:target none", "adapt", None, np.array(X[0]), False)
    put("adapt:target complex", "adapt", 1j, np.array(X[0]), False)
    for k in (2, 3, n, n + 1):
        if k > 1:
            put("adapt:%d targets" % k, "adapt", np.array(D[:k]), np.array(X[0]), False)
            put("adapt:list of %d targets" % k, "adapt", list(D[:k]), np.array(X[0]), False)
    put("adapt:no target", "adapt", [], np.array(X[0]), False)
    put("adapt:ragged target", "adapt", [1., [2.]], np.array(X[0]), False)
    put("adapt:targets 2x2", "adapt", np.ones((2, 2)), np.array(X[0]), False)
    put("adapt:targets nx1", "adapt", np.ones((n, 1)), np.array(X[0]), False) if n > 1 else None
    put("adapt:column", "adapt", 1., np.array(X[0]).reshape(n, 1), False)
    put("adapt:row", "adapt", 1., np.array(X[0]).reshape(1, n), False)
    put("adapt:square", "adapt", 1., np.ones((n, n)), False)
    put("adapt:two rows", "adapt", D[:2], np.array(X[:2]), False)
    return out


def mlp_faults(arch):
    layers, n, outs = arch
    X, D = mlp.data(n, outs, 20)
    out = {}
    for m in ("train", "test"):
        for a, b in ((3, 2), (2, 3), (1, 4)):
            out["%s:length %d/%d" % (m, a, b)] = (m, X[:a], D[:b])
        for wd in (n + 1, n + 3, n - 1, 2 * n):
            if wd != n and wd > 0:
                for N in (1, 2, n, n + 1):
                    x = np.array([[dom._mix(k, i) for i in range(wd)] for k in range(N)])
                    out["%s:width %d rows %d" % (m, wd, N)] = (m, x, D[:N])
        for k in range(3):
            bad = X[:3].astype(object)
            bad[k, -1] = "abc"
            out["%s:text in row %d" % (m, k)] = (m, bad, D[:3])
            bad = D[:3].astype(object)
            bad[(k, -1) if outs > 1 else k] = "abc"
            out["%s:text in target %d" % (m, k)] = (m, X[:3], bad)
        bad = [list(r) for r in X[:3]]
        bad[1] = bad[1] + [1.]
        out["%s:ragged" % m] = (m, bad, D[:3])
        out["%s:ragged short" % m] = (m, [list(X[0]), list(X[1]), list(X[2])[:-1]], D[:3])
        out["%s:text array" % m] = (m, np.full((3, n), "a"), D[:3])
        out["%s:three dimensions" % m] = (m, np.ones((3, n, 1)), D[:3])
        out["%s:three dimensions 2" % m] = (m, np.ones((3, n, n + 1)), D[:3])
        if outs == 1:
            out["%s:column d" % m] = (m, X[:3], D[:3].reshape(3, 1))
            out["%s:two outputs" % m] = (m, X[:3], np.ones((3, 2)))
        else:
            out["%s:three dimensions of d" % m] = (m, X[:3], np.ones((3, outs, 1)))
            out["%s:three dimensions of d 2" % m] = (m, X[:3], np.ones((3, outs, outs)))
            for k in (outs + 1, outs - 1, 2 * outs, 1):
                if k != outs:
                    out["%s:%d outputs" % (m, k)] = (m, X[:3], np.ones((3, k)))
                    out["%s:%d outputs, %d rows" % (m, k, outs)] = (m, X[:outs], np.ones((outs, k)))
    for wd in (n + 1, n + 3, n - 1, 2 * n, 1, 0):
        if wd != n:
            row = [dom._mix(4, i) for i in range(wd)]
            out["predict:width %d" % wd] = ("predict", row)
            out["predict:array of width %d" % wd] = ("predict", np.array(row))
            for N in (1, 3, n):
                x = np.array([[dom._mix(k, i) for i in range(wd)] for k in range(N)]).reshape(N, wd)
                out["run:width %d rows %d" % (wd, N)] = ("run", x)
    if n > 1:
        out["predict:number"] = ("predict", 1.5)
        out["predict:square"] = ("predict", np.ones((n, n)))
        out["run:flat"] = ("run", X[0])
        out["run:three dimensions"] = ("run", np.ones((3, n, n)))
    for k in range(n):
        bad = [float(v) + 1 for v in X[5]]
        bad[k] = "abc"
        out["predict:text at %d" % k] = ("predict", bad)
        bad = list(bad)
        bad[k] = {}
        out["predict:object at %d" % k] = ("predict", bad)
        out["predict:object array at %d" % k] = ("predict", np.array(bad, dtype=object))
    for k in range(3):
        bad = (X[6:9] + 1).astype(object)
        bad[k, -1] = "abc"
        out["run:text in row %d" % k] = ("run", bad)
        out["run:text in list %d" % k] = ("run", bad.tolist())
        out["run:ragged %d" % k] = ("run", [list(X[6 + i]) + ([1.] if i == k else []) for i in range(3)])
    for k in sorted({0, 2, 3, outs - 1, outs + 1, 2 * outs, layers[-1] + 1, layers[-1], n, n + 1} - {outs}):
        out["update:%d targets" % k] = ("update", [float(i) for i in range(k)])
        out["update:array of %d targets" % k] = ("update", np.arange(k) / 2.)
    if outs > 1:
        out["update:one target"] = ("update", 1.5)
        out["update:square"] = ("update", np.ones((outs, outs)))
        for k in range(outs):
            out["update:text at %d" % k] = ("update", ["abc" if i == k else 1. for i in range(outs)])
    out["update:text"] = ("update", "abc")
    out["update:none"] = ("update", None)
    out["update:object"] = ("update", {})
    return out


STRICT = ("train", "test", "run:width")


def jobs(tier):
    deep = tier == "thorough"
    yield {"t": "fn"}
    for i in range(len(mlp.ARCHS) if deep else 8):
        yield {"t": "mlp", "ia": i, "deep": deep}
    for kind in dom.KINDS:
        for n in (1, 2, 3) if not deep else (1, 2, 3, 4, 8):
            yield {"t": "filter", "kind": kind, "n": n, "deep": deep}


def cases(job):
    t = job["t"]
    if t == "fn":
        for name in sorted(FN):
            yield {"t": "fn", "name": name}
    elif t == "filter":
        hs = HIST if job["deep"] else HIST[:5]
        pars = dom.STABLE[job["kind"]]
        for par in pars if job["deep"] else pars[-2:]:
            par = dom.par_for(job["kind"], par, job["n"])
            for h in hs:
                for fault in faults(job["n"]):
                    yield {"t": t, "kind": job["kind"], "n": job["n"], "par": par, "hist": h, "fault": fault,
                           "twice": job["deep"]}
    else:
        arch = mlp.ARCHS[job["ia"]]
        for act in ("sigmoid", "tanh"):
            for h in (["p", "u", "p", "u"], ["t2", "p", "u"], ["e2", "r2", "p", "u"], ["p", "u", "t3", "p"]):
                for fault in mlp_faults(arch):
                    yield {"t": t, "arch": arch, "act": act, "hist": h, "fault": fault}


def refused(rec, fn, strict, what):
    """the call must raise"""
    try:
        fn()
    except ValueError:
        return
    except Exception as ex:
        if strict:
            rec.fail("refused with %s instead of ValueError" % type(ex).__name__, what=what, text=str(ex))
        return
    rec.fail("faulty input is not refused", what=what)


def play(c, at, rec):
    n = c["n"]
    x, d = dom.gen("sign" if c["kind"] in dom.SIGNED else "delay", 40, n)
    X, D = np.array(x), np.array(d)
    f = dom.make(c["kind"], n, dom.w0(n), c["par"])
    out, k = [], 0
    # three more samples and a probe show what the filter is afterwards
    for i, op in enumerate(list(c["hist"]) + ["a", "r2", "p"]):
        if i in at:
            method, fd, fx, strict = faults(n)[c["fault"]]
            if method == "filter_data":
                import padasip as pa
                refused(rec, lambda: pa.filters.filter_data(fd, fx, model=c["kind"], **c["par"]), True, c["fault"])
            else:
                refused(rec, lambda: getattr(f, method)(fd, fx), strict, c["fault"])
        if op[0] == "r":
            m = int(op[1:])
            out += [np.array(o) for o in f.run(D[k:k + m], X[k:k + m])]
            k += m
        elif op[0] == "t":
            m = int(op[1:])
            out += [np.array(o) for o in f.pretrained_run(D[k:k + m], X[k:k + m])]
            k += m
        elif op == "a":
            f.adapt(D[k], X[k])
            k += 1
        else:
            out.append(np.array(f.predict(X[k])))
        out.append(np.array(f.w))
    return out


def check_case(c, rec):
    if c["t"] == "fn":
        for what, fn in FN[c["name"]]():
            refused(rec, fn, True, "%s: %s" % (c["name"], what))
            rec.step()
            rec.state((c["name"], what))
        return
    if c["t"] == "filter":
        base = play(c, (), rec)
        L = len(c["hist"])
        spots = [(i,) for i in range(L + 1)] + [tuple(range(L + 1))]
        if c["twice"]:
            spots += list(itertools.combinations(range(L + 1), 2))
        if c["fault"].startswith("filter_data"):
            spots = spots[:1]
        for at in spots:
            got = play(c, at, rec)
            rec.step()
            for i, (p, q) in enumerate(zip(base, got)):
                if not dom.same(p, q, 1e-9) and not c["fault"].startswith("pretrained_run"):
                    rec.fail("the filter is not as it was after a refused call", fault=c["fault"], at=at, result=i,
                             without=p, after=q)
            rec.state((c["kind"], c["n"], repr(c["par"]), repr(c["hist"]), at, c["fault"]))
        rec.outcome(base[-2].tobytes())
        return
    layers, n, outs = c["arch"]
    X, D = mlp.data(n, outs, 20)

    def go(at):
        nn = mlp.make(layers, n, outs, c["act"], .0625, 3)
        out, k = [], 0
        for i, op in enumerate(list(c["hist"]) + ["u2", "p", "u"]):
            if i in at:
                args = mlp_faults(c["arch"])[c["fault"]]
                refused(rec, lambda: getattr(nn, args[0])(*args[1:]), c["fault"].startswith(STRICT), c["fault"])
            m = int(op[1:] or 0)
            if op[0] == "t":
                out += [np.array(o) for o in nn.train(X[k:k + m], D[k:k + m], epochs=2)]
                k += m
            elif op[0] == "e":
                out.append(np.array(nn.test(X[k:k + m], D[k:k + m])))
            elif op[0] == "r":
                out.append(np.array(nn.run(X[k:k + m])))
            elif op[0] == "p":
                out.append(np.array(nn.predict(X[k])))
            else:   # update of what was predicted last (also "u2": right after the history)
                out.append(np.array(nn.update(D[k])))
                k += 1
            out += mlp.weights(nn)
        return out
    base = go(())
    L = len(c["hist"])
    for at in [(i,) for i in range(L + 1)] + [tuple(range(L + 1))]:
        got = go(at)
        rec.step()
        for i, (p, q) in enumerate(zip(base, got)):
            if not dom.same(p, q, 1e-9):
                rec.fail("the network is not as it was after a refused call", fault=c["fault"], at=at, without=p, after=q)
        rec.state((repr(c["arch"]), c["act"], repr(c["hist"]), at, c["fault"]))
    rec.outcome(base[-1].tobytes())


# -------------------------------------------------------------- the functions
def fn_err():
    import padasip as pa
    a = [1., 2., 3.]
    for name in ("MAE", "MSE", "RMSE", "logSE", "get_mean_error"):
        f = getattr(pa.misc, name)
        for b in ([1.], [1., 2.], [1., 2., 3., 4.], [], [1.] * 6):
            for conv in (list, np.array, tuple):
                yield "%s length %d" % (name, len(b)), lambda f=f, b=conv(b): f(a, b)
                yield "%s length %d first" % (name, len(b)), lambda f=f, b=conv(b): f(b, np.array(a))
        for fn in ("MSE", "MAE", "RMSE"):
            if name == "get_mean_error":
                yield "two series " + fn, lambda fn=fn: pa.misc.get_mean_error(a, [1., 2.], function=fn)


WORDS = ["", "mse", "Mse", "MSE ", " MSE", "RMS", "RMSE2", "logSE", "MAX", "Max", "max ", "sum ", "SUM", "mean", "min", "maxsum",
         "msum", "m", "ax", "s", "10", "10 %", "20%", "%", "SQRT", "Sqrt", "log", "log10 ", "log10log10log10", "log2", "0.1", "35",
         "30", "xMSE", "MSEx", "MA", "AE"]


def fn_get():
    import padasip as pa
    for w in WORDS + [None, 1, 0, ("MSE",), True]:
        if w not in ("MSE", "MAE", "RMSE"):
            yield repr(w), lambda w=w: pa.misc.get_mean_error([1., 2.], function=w)
            yield repr(w) + " two", lambda w=w: pa.misc.get_mean_error([1., 2.], [2., 2.5], function=w)


def fn_elbnd():
    import padasip as pa
    W = np.array([[0., 1.], [1., 3.], [2., 2.]])
    e = np.array([1., -1., 2.])
    for w in WORDS + [None, 1, 0, True, np.max, max]:
        yield repr(w), lambda w=w: pa.detection.ELBND(W, e, function=w)
        yield repr(w) + " positional", lambda w=w: pa.detection.ELBND(W, e, w)


def fn_ese():
    import padasip as pa
    W = np.array([[math.sin(k * k), k % 3] for k in range(16)], dtype=float)
    for w in WORDS + [None, 1, 0, .1, True]:
        if w not in ("10%", "30%", "35%", "sqrt", "log10", "log10log10"):
            yield repr(w), lambda w=w: pa.detection.ESE(W, window=11, pot_method=w)
            yield repr(w) + " short", lambda w=w: pa.detection.ESE(W[:12], 11, w)
            yield repr(w) + " constant", lambda w=w: pa.detection.ESE(W * 0, 11, w)


def fn_hist():
    import padasip as pa
    a = [1., 2., 3., 4.]
    for n in (0, -1, -2, -100, 1., 2., 2.5, 0., -1., "1", "a", "", None, [1], (2,), {}, 1j, np.float64(2), float("nan"), float("inf"), b"2"):
        for bias in (False, True):
            yield "n=%r bias=%r" % (n, bias), lambda n=n, bias=bias: pa.input_from_history(a, n, bias=bias)
            yield "n=%r bias=%r array" % (n, bias), lambda n=n, bias=bias: pa.preprocess.input_from_history(np.array(a), n, bias)


def fn_std():
    import padasip as pa
    x = [1., 2., 4.]
    for bad in ("a", "", "1,5", [], [1., 2.], {}, {"a": 1}, (1, 2), np.array([1., 2.]), 1j, object(), b"x"):
        yield "offset=%r" % (bad,), lambda bad=bad: pa.standardize(x, offset=bad)
        yield "scale=%r" % (bad,), lambda bad=bad: pa.standardize(x, scale=bad)
        yield "both, offset=%r" % (bad,), lambda bad=bad: pa.standardize(x, offset=bad, scale=2.)
        yield "both, scale=%r" % (bad,), lambda bad=bad: pa.standardize(x, 0., bad)
        yield "back offset=%r" % (bad,), lambda bad=bad: pa.standardize_back(x, bad, 2.)
        yield "back scale=%r" % (bad,), lambda bad=bad: pa.standardize_back(x, 1., bad)
    for bad in (["a", "b"], "abc", [1., "x"], [{}, 1.], [[1.], [1., 2.]], np.array(["a", "b"]), np.array([{}, 1.], dtype=object)):
        yield "series %r" % (bad,), lambda bad=bad: pa.standardize(bad, offset=1., scale=2.)
        yield "series default %r" % (bad,), lambda bad=bad: pa.standardize(bad)
        yield "series offset %r" % (bad,), lambda bad=bad: pa.standardize(bad, offset=1.)
        yield "series scale %r" % (bad,), lambda bad=bad: pa.standardize(bad, scale=1.)
        yield "series back %r" % (bad,), lambda bad=bad: pa.standardize_back(bad, 1., 2.)


FN = {"error measures": fn_err, "get_mean_error": fn_get, "ELBND": fn_elbnd, "ESE": fn_ese, "input_from_history": fn_hist,
      "standardize": fn_std}
