"""G08: filters, networks and functions run for ever in constant memory."""
import gc
import itertools
import sys
import types
import numpy as np
from mc import dom, mlp

PROP = "G08"
LEVEL = "model_checking"
FRESH = True        # what one job leaves in the modules is not seen by another
RULE = ("every word of calls up to the depth (adapt, predict, runs of 0, 1 and 3 samples, pretrained run; for networks "
        "predict, update, train, shuffled train, test, run) repeated for ever, cut after thousands of calls, for every "
        "filter and several architectures, and every function called hundreds of times with new data: the memory reachable "
        "from the object and from the modules of the library stays what it was after the first third, and after a long run "
        "it returns to what a short run leaves; a state is (object, word, bytes held)")
ASSUMPTIONS = ["memory is counted by walking everything reachable from the object and from the modules of padasip (arrays "
               "with their bases, closures, caches); memory hidden in C extensions is not seen"]
SLACK = 600         # counters, a first warning
OPS = ["a", "p", "r1", "r3", "r0", "t4"]
NETOPS = ["p", "u", "t2", "s2", "e2", "r2"]
MEMS = {"OCNLMS": {"mem": 7}, "AP": {"order": 3}}


def size(roots):
    """bytes reachable, without other libraries"""
    seen, todo, total, n = set(), list(roots), 0, 0
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == "padasip" or name.startswith("padasip.")):
            todo.append(mod.__dict__)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.ModuleType) or isinstance(o, (types.CodeType, types.FrameType)):
            continue
        if isinstance(o, types.FunctionType):
            if not (o.__module__ or "").startswith("padasip"):
                continue
            todo += [o.__dict__, o.__defaults__, o.__kwdefaults__] + list(o.__closure__ or ())
            continue
        if isinstance(o, type):
            if (o.__module__ or "").startswith("padasip"):
                todo += list(o.__dict__.values())
            continue
        total += sys.getsizeof(o, 0)
        n += 1
        if isinstance(o, np.ndarray):
            if o.base is not None:
                todo.append(o.base)
            if o.dtype == object:
                todo += list(o.ravel())
            continue
        todo += gc.get_referents(o)
    return total, n


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        for n in (1, 4) if not deep else (1, 2, 4, 33):
            yield {"t": "filter", "kind": kind, "n": n, "depth": 2 if not deep else 3}
    for arch in ([2], 2, 1), ([3, 2], 2, 2), ([20, 20], 5, 1):
        for act in ("sigmoid", "tanh"):
            yield {"t": "net", "arch": arch, "act": act, "depth": 2 if not deep else 3}
    for fn in ("le", "lea", "elbnd", "ese", "std", "back", "hist", "pca", "lda", "err", "filter_data", "factory", "create", "net", "bad"):
        yield {"t": "fn", "fn": fn, "calls": 300 if not deep else 3000}


def cases(job):
    if job["t"] == "fn":
        yield dict(job)
        return
    for k in range(1, job["depth"] + 1):
        for w in itertools.product(OPS if job["t"] == "filter" else NETOPS, repeat=k):
            yield dict(job, word=list(w), turns=900 // k ** 2 if k < 3 else 60)
    if job["t"] == "filter":
        yield dict(job, t="back")


def grown(rec, what, sizes):
    """sizes after one, two, three thirds of the calls"""
    if sizes[2][0] > sizes[0][0] + SLACK and sizes[1][0] > sizes[0][0]:
        rec.fail("the memory held grows with the number of calls", what=what, bytes=[s[0] for s in sizes],
                 objects=[s[1] for s in sizes])
    rec.state((repr(what), sizes[2]))


def data(k, n, N):
    x = np.cos((np.arange(N * n) + 1. + k) * 1.7).reshape(N, n) / (2. * n)
    return x, np.sin(np.arange(N) * 2.3 + k)


def filter_ops(f, n, word, k):
    for op in word:
        if op == "a":
            x, d = data(k, n, 1)
            f.adapt(d[0], x[0])
        elif op == "p":
            f.predict(data(k, n, 1)[0][0])
        else:
            m = int(op[1:])
            x, d = data(k, n, m)
            if op[0] == "r":
                f.run(d, x)
            else:
                f.pretrained_run(d, x)
        k += 1
    return k


def net_ops(nn, arch, word, k):
    layers, n_in, outs = arch
    for op in word:
        if op == "p":
            nn.predict(data(k, n_in, 1)[0][0])
        elif op == "u":
            nn.update(data(k, 1, 1)[1][0] if outs == 1 else data(k, outs, 1)[0][0])
        else:
            m = int(op[1:])
            x, d = data(k, n_in, m)
            if outs > 1:
                d = data(k, outs, m)[0]
            if op[0] in "ts":
                nn.train(x, d, epochs=2, shuffle=op[0] == "s")
            elif op[0] == "e":
                nn.test(x, d)
            else:
                nn.run(x)
        k += 1
    return k


def calls(fn, k):
    import padasip as pa
    # new lengths all the time, in no order: what a store keyed by the shape of the data would keep
    N = 12 + (k * 7 % 10 + k // 10 * 10) // (1 if fn in ("le", "lea", "elbnd", "std", "back", "err", "hist") else 20 if fn in ("ese", "net") else 4)
    x, d = data(k, 2, N)
    if fn in ("le", "lea"):
        pa.detection.learning_entropy(x, m=4 + k // 16, order=1 + k % 2, **({"alpha": [1 + k, 2.]} if fn == "lea" else {}))
    elif fn == "elbnd":
        pa.detection.ELBND(x, d, function=("max", "sum")[k % 2])
    elif fn == "ese":
        if k % 20 == 0:
            pa.detection.ESE(np.cumsum(np.abs(x), axis=0) ** 2, window=8, pot_method="sqrt")
    elif fn == "std":
        pa.standardize(d), pa.standardize(d, offset=k, scale=k + 1.)
    elif fn == "back":
        pa.standardize_back(d, k, k + .5)
    elif fn == "hist":
        pa.input_from_history(d, 1 + k % 9 if k % 50 else N // 2, bias=k % 2 == 0)
    elif fn == "pca":
        pa.preprocess.PCA(x, 1), pa.preprocess.PCA_components(x)
    elif fn == "lda":
        lab = ["c%d" % (i % 2 + k) for i in range(N)]
        pa.preprocess.LDA(x, lab, 1), pa.preprocess.LDA_discriminants(x, lab)
    elif fn == "err":
        for g in (pa.misc.MAE, pa.misc.MSE, pa.misc.RMSE, pa.misc.logSE):
            g(d), g(d, x[:, 0])
        pa.misc.get_mean_error(d, x[:, 0], function=("MSE", "MAE", "RMSE")[k % 3])
    elif fn == "filter_data":
        pa.filters.filter_data(d, x, dom.KINDS[k % 15], mu=.01 + k * 1e-6)
    elif fn == "factory":
        pa.filters.AdaptiveFilter(dom.KINDS[k % 15], n=1 + k % 7).run(d, data(k, 1 + k % 7, N)[0])
        pa.filters.get_filter(dom.KINDS[k % 15].lower())
    elif fn == "create":
        f = dom.cls(dom.KINDS[k % 15])(2, w=[k, 1.], mu=.001 + k * 1e-6)
        f.adapt(d[0], x[0])
        f.predict(x[1])
    elif fn == "net":
        nn = pa.ann.NetworkMLP([1 + k % 5], 2, mu=.01 + k * 1e-6)
        nn.train(x, d, epochs=1, shuffle=True)
        nn.test(x, d)
    else:
        for bad in (lambda: pa.filters.FilterLMS(2).run(d, x[:k % N]), lambda: pa.filters.FilterAP(2).adapt(1., np.ones(3 + k % 3)),
                    lambda: pa.filters.AdaptiveFilter("model%d" % k, n=2), lambda: pa.filters.get_filter("model%d" % k),
                    lambda: pa.standardize("text%d" % k), lambda: pa.misc.MAE(d, d[:k % N]),
                    lambda: pa.misc.get_mean_error(d, function="f%d" % k), lambda: pa.detection.ELBND(x, d, function="f%d" % k)):
            try:
                bad()
            except Exception:
                pass


def check_case(c, rec):
    import padasip as pa
    np.random.seed(1)
    if c["t"] == "fn":
        sizes, k = [], 0
        for _ in range(3):
            for _ in range(c["calls"]):
                calls(c["fn"], k)
                k += 1
            gc.collect()
            sizes.append(size([]))
        rec.step(k)
        grown(rec, c["fn"], sizes)
        rec.outcome((c["fn"], sizes[2]))
        return
    if c["t"] == "net":
        nn = pa.ann.NetworkMLP(list(c["arch"][0]), c["arch"][1], outputs=c["arch"][2], activation=c["act"], mu=.01)
        sizes, k = [], 0
        if "u" in c["word"]:
            nn.predict(data(0, c["arch"][1], 1)[0][0])
        for _ in range(3):
            for _ in range(c["turns"] // 3 if "p" in c["word"] or "u" in c["word"] else 60):
                k = net_ops(nn, c["arch"], c["word"], k)
            sizes.append(size([nn]))
        rec.step(k)
        grown(rec, [c["arch"], c["act"], c["word"]], sizes)
        rec.outcome((repr(c["arch"]), repr(c["word"]), sizes[2]))
        return
    kind, n = c["kind"], c["n"]
    par = MEMS.get(kind, {})
    f = dom.make(kind, n, "zeros", par)
    if c["t"] == "back":
        filter_ops(f, n, ["r3"] * 10, 0)
        small = size([f])
        filter_ops(f, n, ["r400", "r3", "r3"], 0)
        after = size([f])
        if after[0] > small[0] + SLACK:
            rec.fail("a long run is kept in memory", before=small, after=after)
        rec.step(13)
        rec.state((kind, n, after))
        return
    sizes, k = [], 0
    for _ in range(3):
        for _ in range(c["turns"] // 3):
            k = filter_ops(f, n, c["word"], k)
        sizes.append(size([f]))
    rec.step(k)
    grown(rec, [kind, n, c["word"]], sizes)
    rec.outcome((kind, n, repr(c["word"]), sizes[2]))
