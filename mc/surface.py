"""
The whole public surface of the library as scenarios: a scenario is a JSON spec;
steps(spec, call) is a generator that makes one call of the library per step and
yields its result.  Every argument goes through `call`, which may store the numbers
in another form, make them read-only, scribble over them afterwards, ...

Roles of arguments:  "s" series, "m" sample matrix, "v" sample vector (lists and
tuples are fine), "S"/"M"/"V" the same but arrays only, "t" one target,
"l" labels, anything not wrapped is passed as it is.
"""
import json
import sys
import numpy as np
from mc import dom, mlp


class A:
    """an argument: numbers and role"""

    def __init__(self, role, value):
        self.role, self.value = role, value


class Call:
    """the plain caller: fresh float64 arrays"""

    def prepare(self, role, value):
        if role == "l":
            return np.array(value)
        if role == "t":
            return float(value)
        return np.array(value, dtype=float)

    def after(self, role, value, passed):
        pass

    def result(self, out, passed):
        return out

    def __call__(self, fn, *args, **kw):
        live = []

        def conv(a):
            if isinstance(a, A):
                p = self.prepare(a.role, a.value)
                live.append((a.role, a.value, p))
                return p
            return a
        pa_, kw_ = [conv(a) for a in args], {k: conv(v) for k, v in kw.items()}
        out = fn(*pa_, **kw_)
        out = self.result(out, [p for _, _, p in live])
        for r, v, p in live:
            self.after(r, v, p)
        return out


def freeze(out):
    """copy of a result"""
    if isinstance(out, tuple) or isinstance(out, list):
        return [freeze(o) for o in out]
    if out is None:
        return None
    return np.array(out, dtype=float)


# small parameters: stable for integer data up to 255 and for small dyadic data
INTPAR = {
    "LMS": {"mu": 2. ** -18}, "NLMS": {"mu": .5, "eps": .25}, "LMF": {"mu": 2. ** -36}, "NLMF": {"mu": 2. ** -20, "eps": .5},
    "SSLMS": {"mu": 2. ** -6}, "NSSLMS": {"mu": .5, "eps": .25}, "GMCC": {"mu": 2. ** -12, "lambd": 2. ** -12, "alpha": 2},
    "Llncosh": {"mu": 2. ** -12, "lambd": .25}, "GNGD": {"mu": .5, "eps": 2, "ro": .25},
    "VSLMS_Mathews": {"mu": 2. ** -18, "ro": 2. ** -56}, "VSLMS_Benveniste": {"mu": 2. ** -18, "ro": 2. ** -56},
    "VSLMS_Ang": {"mu": 2. ** -18, "ro": 2. ** -56, "a": .5}, "AP": {"order": 3, "ifc": 2. ** 12, "mu": .5},
    "RLS": {"mu": .95, "eps": 2. ** 12}, "OCNLMS": {"mu": .5, "eps": .5, "mem": 4}}
INTGENS = ("u7", "u8", "i8", "wide", "u7h", "hu7")
WIDEPAR = dict(INTPAR, LMS={"mu": 2. ** -42}, LMF={"mu": 2. ** -80}, NLMF={"mu": 2. ** -42, "eps": .5},
               VSLMS_Mathews={"mu": 2. ** -42, "ro": 2. ** -126}, VSLMS_Benveniste={"mu": 2. ** -42, "ro": 2. ** -126},
               VSLMS_Ang={"mu": 2. ** -42, "ro": 2. ** -126, "a": .5}, AP={"order": 3, "ifc": 2. ** 34, "mu": .5},
               RLS={"mu": .95, "eps": 2. ** 34})


def intpar(kind, gen):
    return (WIDEPAR if gen == "wide" else INTPAR)[kind]


GENPAR = {k: (v[1] if len(v) > 1 else v[0]) for k, v in dom.STABLE.items()}


def numbers(gen, N, n):
    """-> X (N rows of n), D (N)"""
    if "~" in gen:              # the same numbers at other places: what a cache keyed by a summary takes for the same
        gen, how = gen.split("~")
        x, d = numbers(gen, N, n)
        if how == "rev":
            return x[::-1], d[::-1]
        if how == "cols":
            return [r[::-1] for r in x], d
        if how == "neg":
            return [[-v for v in r] for r in x], [-v for v in d]
        if how == "swap":       # neighbours, but not the ends
            for k in range(1, N - 2, 2):
                x[k], x[k + 1], d[k], d[k + 1] = x[k + 1], x[k], d[k + 1], d[k]
            return x, d
        if how == "inner":      # ends and sum stay
            if N > 3:
                x[1] = [v + 1 for v in x[1]]
                x[2] = [v - 1 for v in x[2]]
                d[1], d[2] = d[1] + 1, d[2] - 1
            return x, d
        raise KeyError(how)
    if gen in ("u7", "u8"):     # non-negative integers below 128, below 256
        top = 127 if gen == "u7" else 255
        x = [[float((97 * k * (i + 2) + 61 * i * i + 13 * k * k + 5) % (top + 1)) for i in range(n)] for k in range(N)]
        d = [float((151 * k + 31 * k * k + top) % (top + 1)) for k in range(N)]
        return x, d
    if gen == "i8":
        x = [[float((97 * k * (i + 2) + 61 * i * i + 13 * k * k + 5) % 255 - 127) for i in range(n)] for k in range(N)]
        d = [float((151 * k + 31 * k * k + 254) % 255 - 127) for k in range(N)]
        return x, d
    if gen == "u7h":            # integer inputs, targets that are not
        x, d = numbers("u7", N, n)
        return x, [v + .375 for v in d]
    if gen == "hu7":            # the other way round
        x, d = numbers("u7", N, n)
        return [[v + .375 for v in r] for r in x], d
    if gen == "wide":           # integers for 32 bits
        x, d = dom.gen("mix", N, n)
        return [[v * 4 * 40000 for v in r] for r in x], [v * 4 * 30000 for v in d]
    return dom.gen(gen, N, n)


def labels(N, names):
    return [names[k * k % 7 % len(names)] for k in range(N)]


def regular(gen, N, n, names):
    """the within-class scatter can be inverted without losing what is compared"""
    x = np.array(numbers(gen, N, n)[0])
    lab = labels(N, names)
    sw = np.zeros((n, n))
    for l in names:
        c = x[[q == l for q in lab]]
        sw += (c - c.mean(axis=0)).T @ (c - c.mean(axis=0))
    return np.linalg.cond(sw) < 1e6


def weights_of(gen, N, n):
    """a fixed weight history over the same numbers"""
    x, d = numbers(gen, N, n)
    return x, d


def steps(spec, call):
    import padasip as pa
    s = spec["s"]
    if s == "filter":
        kind, n, ops = spec["kind"], spec["n"], spec["ops"]
        x, d = numbers(spec["gen"], 64, n)
        w = spec.get("w")
        if w is None:
            w = A("s", dom.w0(n) if spec["gen"] not in INTGENS else [float(1 + i % 3) for i in range(n)])
        if w == "random":
            np.random.seed(spec["seed"])
        f = call(dom.cls(kind), n, w=w, **spec["par"])
        yield freeze(f.w)
        k = 0
        for op in ops:
            if op[0] == "r":
                m = int(op[1:])
                out = call(f.run, A("s", d[k:k + m]), A("m", x[k:k + m] if m else np.zeros((0, n))))
                k += m
            elif op[0] == "t":
                m = int(op[1:])
                out = call(f.pretrained_run, A("s", d[k:k + m]), A("m", x[k:k + m]), ntrain=.5, epochs=2)
                k += m
            elif op == "a":
                out = call(f.adapt, A("t", d[k]), A("v", x[k]))
                k += 1
            elif op == "q":     # probe with another sample
                out = call(f.predict, A("v", x[-1 - k]))
            else:
                out = call(f.predict, A("v", x[k]))
            yield [freeze(out), freeze(f.w)]
    elif s == "filter_data":
        x, d = numbers(spec["gen"], spec["N"], spec["n"])
        kw = dict(spec["par"])
        kw["w"] = A("s", [float(1 + i % 3) for i in range(spec["n"])])
        yield freeze(call(pa.filters.filter_data, A("s", d), A("M", x), model=spec["kind"], **kw))
    elif s == "factory":
        x, d = numbers(spec["gen"], spec["N"], spec["n"])
        f = call(pa.filters.AdaptiveFilter, model=spec["kind"].lower(), n=spec["n"],
                 w=A("s", [float(1 + i % 3) for i in range(spec["n"])]), **spec["par"])
        yield freeze(f.w)
        yield freeze(call(f.run, A("s", d), A("m", x)))
        yield freeze(call(pa.filters.get_filter(spec["kind"]), spec["n"], w="zeros", **spec["par"]).w)
    elif s == "mlp":
        layers, n_in, outs = spec["arch"]
        x, d = numbers(spec["gen"], 64, n_in)
        _, d2 = numbers(spec["gen"], 64 * outs, 1)
        if spec["gen"] in INTGENS:
            scale = None
        D = d if outs == 1 else [d2[i * outs:(i + 1) * outs] for i in range(64)]
        np.random.seed(spec["seed"])
        nn = pa.ann.NetworkMLP(call.layers(layers) if hasattr(call, "layers") else list(layers), n_in, outputs=outs,
                               activation=spec["act"], mu=spec["mu"])
        yield [freeze(w) for w in mlp.weights(nn)]
        k = 0
        for op in spec["ops"]:
            role = "S" if outs == 1 else "M"
            if op[0] in "tsTS":     # capitals: a single epoch
                m = int(op[1:])
                if op[0] in "sS":
                    np.random.seed(spec["seed"] + 1)
                out = call(nn.train, A("M", x[k:k + m]), A(role, D[k:k + m]), epochs=2 if op[0] in "ts" else 1,
                           shuffle=op[0] in "sS")
                k += m
            elif op[0] == "e":
                m = int(op[1:])
                out = call(nn.test, A("M", x[k:k + m]), A(role, D[k:k + m]))
            elif op[0] == "r":
                m = int(op[1:])
                out = call(nn.run, A("M", x[k:k + m]))
            elif op == "q":
                out = call(nn.predict, A("V", x[-1 - k]))
            elif op == "p":
                out = call(nn.predict, A("V", x[k]))
            else:
                out = call(nn.update, A("t" if outs == 1 else "V", D[k]))
                k += 1
            yield [freeze(out)] + [freeze(w) for w in mlp.weights(nn)]
    elif s == "le":
        w, _ = weights_of(spec["gen"], spec["N"], spec["n"])
        kw = {}
        if spec.get("alpha"):
            kw["alpha"] = A("s", spec["alpha"])
        yield freeze(call(pa.detection.learning_entropy, A("m", w), m=spec["m"], order=spec["order"], **kw))
    elif s == "elbnd":
        w, e = weights_of(spec["gen"], spec["N"], spec["n"])
        yield freeze(call(pa.detection.ELBND, A("M", w), A("S", e), function=spec["fn"]))
    elif s == "ese":
        w, _ = weights_of(spec["gen"], spec["N"], spec["n"])
        yield freeze(call(pa.detection.ESE, A("M", w), window=spec["win"], pot_method=spec["pot"]))
    elif s == "std":
        _, x = numbers(spec["gen"], spec["N"], 1)
        kw = {k: spec[k] for k in ("offset", "scale") if k in spec}
        xs = call(pa.standardize, A("s", x), **kw)
        yield freeze(xs)
        yield freeze(call(pa.standardize_back, A("s", x), spec.get("offset", 2.5), spec.get("scale", -3.)))
        yield freeze(call(pa.preprocess.standardize_back, A("s", np.array(xs).tolist() if spec["gen"] not in INTGENS else x),
                          1., 2.))
    elif s == "hist":
        _, x = numbers(spec["gen"], spec["N"], 1)
        yield freeze(call(pa.input_from_history, A("s", x), spec["n"], bias=spec["bias"]))
    elif s == "pca":
        x, _ = numbers(spec["gen"], spec["N"], spec["n"])
        yield freeze(call(pa.preprocess.PCA_components, A("M", x)))
        yield freeze(call(pa.preprocess.PCA, A("M", x), *([spec["keep"]] if spec["keep"] else [])))
    elif s == "lda":
        x, _ = numbers(spec["gen"], spec["N"], spec["n"])
        lab = labels(spec["N"], spec["names"])
        yield freeze(call(pa.preprocess.LDA_discriminants, A("M", x), A("l", lab)))
        yield freeze(call(pa.preprocess.LDA, A("M", x), A("l", lab), *([spec["keep"]] if spec["keep"] else [])))
    elif s == "err":
        _, a = numbers(spec["gen"], spec["N"], 1)
        b, _ = numbers(spec["gen"], spec["N"], 1)
        args = [A("s", a)] + ([A("s", [r[0] for r in b])] if spec["two"] else [])
        fn = spec["fn"]
        if fn == "get":
            for name in ("MSE", "MAE", "RMSE"):
                yield freeze(call(pa.misc.get_mean_error, *args, function=name))
        else:
            yield freeze(call(getattr(pa.misc, fn), *args))
    else:
        raise KeyError(s)


def run(spec, call=None):
    return list(steps(spec, call or Call()))


def shape_of(spec):
    return {"lda": "sign"}.get(spec["s"])


def close(a, b, spec=None, rtol=1e-9, atol=0.):
    """results of two runs of a scenario agree (LDA projections up to signs)"""
    if len(a) != len(b):
        return False
    for i, (p, q) in enumerate(zip(a, b)):
        if isinstance(p, list) or isinstance(q, list):
            if not (isinstance(p, list) and isinstance(q, list)) or not close(p, q, None, rtol, atol):
                return False
        elif p is None or q is None:
            if p is not q:
                return False
        else:
            if spec is not None and spec["s"] in ("lda", "pca") and i == 1 and np.ndim(p) == 2 and np.shape(p) == np.shape(q):
                p, q = np.array(p), np.array(q)
                for j in range(p.shape[1]):
                    if np.dot(p[:, j], q[:, j]) < 0:
                        q[:, j] = -q[:, j]
            if not dom.same(p, q, rtol, atol):
                return False
    return True


def tame(res, lim=1e9):
    for r in res:
        if isinstance(r, list):
            if not tame(r, lim):
                return False
        elif r is not None and not dom.tame(r, lim=lim):
            return False
    return True


# ------------------------------------------------------------------ catalogue
OPSETS = [["r3", "a", "p", "r2"], ["a", "a", "p", "a", "r2"], ["p", "a", "q", "t4", "a"], ["r1", "r0", "a", "r3", "p"]]
MLP_OPS = [["p", "u", "p", "u", "r2"], ["t3", "e2", "p", "u"], ["q", "p", "u", "r2", "u", "t2"], ["s4", "p", "u", "S3", "T2"]]


def filters(gens=("delay",), par=None, sizes=(1, 2, 3), opsets=OPSETS, kinds=dom.KINDS):
    for kind in kinds:
        for n in sizes:
            for gen in gens:
                g = "sign" if kind in dom.SIGNED and gen in dom.GENS + ["small"] else gen
                p = intpar(kind, gen) if gen in INTGENS else (par or GENPAR)[kind]
                for ops in opsets:
                    yield {"s": "filter", "kind": kind, "par": dom.par_for(kind, p, n), "n": n, "gen": g, "ops": ops}


def networks(gens=("mix",), archs=None, opsets=MLP_OPS, mus=("auto", .0625)):
    for arch in archs or mlp.ARCHS[:7]:
        for act in ("sigmoid", "tanh"):
            for mu in mus:
                for gen in gens:
                    for ops in opsets:
                        yield {"s": "mlp", "arch": arch, "act": act, "mu": mu, "gen": gen, "ops": ops, "seed": 4}


def functions(gens=("mix",), ese=True):
    for gen in gens:
        for N, n, m, order in ((6, 1, 2, 1), (9, 2, 3, 2), (12, 3, 4, 1), (7, 2, 1, 3), (40, 5, 20, 1)):
            yield {"s": "le", "gen": gen, "N": N, "n": n, "m": m, "order": order}
            yield {"s": "le", "gen": gen, "N": N, "n": n, "m": m, "order": order, "alpha": [1, 2, 3]}
        for N, n, m in ((5, 5, 2), (6, 6, 3), (3, 7, 2)):      # as many weights as samples, and more
            yield {"s": "le", "gen": gen, "N": N, "n": n, "m": m, "order": 1}
        for N, n in ((2, 1), (6, 2), (9, 3), (40, 7), (4, 4), (3, 6)):
            for fn in ("max", "sum"):
                yield {"s": "elbnd", "gen": gen, "N": N, "n": n, "fn": fn}
        if ese:
            for N, n, win, pot in ((8, 1, 5, "sqrt"), (16, 2, 12, "30%"), (14, 1, 12, "log10"), (14, 2, 11, "log10log10"),
                                   (13, 1, 10, "10%"), (13, 1, 10, "35%"), (8, 8, 5, "sqrt")):
                yield {"s": "ese", "gen": gen, "N": N, "n": n, "win": win, "pot": pot}
        for N in (2, 3, 8, 33, 130):
            for kw in ({}, {"offset": 0}, {"scale": 2.}, {"offset": 1.5, "scale": -.5}, {"offset": 3, "scale": 4},
                       {"scale": 1}, {"scale": 1.}, {"scale": -1}, {"offset": 0., "scale": 1.}, {"offset": 0, "scale": 1},
                       {"offset": 1, "scale": 1}, {"offset": -.5, "scale": 1.}, {"offset": 0., "scale": 2}):
                if N > 8 and len(kw) == 1:
                    continue
                yield dict({"s": "std", "gen": gen, "N": N}, **kw)
        for N in (1, 5, 8, 70):
            for n in (1, 2, 5, 8, 40):
                if n <= N and (N < 70 or n in (1, 40)):
                    for bias in (False, True):
                        yield {"s": "hist", "gen": gen, "N": N, "n": n, "bias": bias}
        # few samples: the within-class scatter is just regular (N - classes = n), PCA has zero components
        for N, n in ((3, 3), (5, 5), (4, 8)):
            yield {"s": "pca", "gen": gen, "N": N, "n": n, "keep": 1}
        for N, n in ((5, 3), (6, 4), (7, 5)):
            if regular(gen, N, n, [0, 1]):
                yield {"s": "lda", "gen": gen, "N": N, "n": n, "keep": 1, "names": [0, 1]}
        for N, n in ((6, 2), (9, 3), (12, 4), (60, 7)):
            for keep in (1, n - 1, 0):
                yield {"s": "pca", "gen": gen, "N": N, "n": n, "keep": keep}
                for names in ([0, 1], ["a", "b", "c"], [5, -1, 7], ["1", "a", 3]):
                    if (keep or n - 1) >= len(names) or not regular(gen, N + 6, n, names):      # directions of zero discriminants are arbitrary
                        continue
                    yield {"s": "lda", "gen": gen, "N": N + 6, "n": n, "keep": keep, "names": names}
        for N in (1, 2, 7, 33, 130):
            for two in (False, True):
                for fn in ("MAE", "MSE", "RMSE", "logSE", "get"):
                    yield {"s": "err", "gen": gen, "N": N, "two": two, "fn": fn}


def large():
    """sizes for which an implementation could take another way"""
    for kind in dom.KINDS:
        for n in (14, 40):
            par = dom.par_for(kind, GENPAR[kind], n)
            yield {"s": "filter", "kind": kind, "par": par, "n": n, "gen": "sign" if kind in dom.SIGNED else "small", "ops": ["r20", "a", "p", "t9", "r5"]}
        yield {"s": "filter_data", "kind": kind, "par": dom.par_for(kind, GENPAR[kind], 2), "n": 2, "N": 1100,
               "gen": "sign" if kind in dom.SIGNED else "small"}
    for order in (9, 20, 40):
        yield {"s": "filter", "kind": "AP", "par": {"order": order, "ifc": .25}, "n": 3, "gen": "small", "ops": ["r20", "a", "p", "r15"]}
    yield {"s": "filter", "kind": "OCNLMS", "par": {"mem": 150}, "n": 3, "gen": "small", "ops": ["r20", "a", "p", "r15"]}
    for arch in ([20, 20], 5, 1), ([40], 30, 1), ([2], 3, 12), ([70], 2, 2):
        for act in ("sigmoid", "tanh"):
            yield {"s": "mlp", "arch": arch, "act": act, "mu": "auto", "gen": "small", "ops": ["p", "u", "t20", "r20", "s9", "e9"], "seed": 4}
    for N, n, m, order in ((300, 2, 128, 1), (1030, 1, 10, 2), (60, 40, 20, 1)):
        for alpha in ([], [.5, 1, 2, 3, 5, 8, 13, 21, 34, 55]):
            yield {"s": "le", "gen": "mix", "N": N, "n": n, "m": m, "order": order, "alpha": alpha}
        for fn in ("max", "sum"):
            yield {"s": "elbnd", "gen": "mix", "N": N, "n": n, "fn": fn}
    for N in (1100, 5000):
        for kw in ({}, {"offset": 1.5, "scale": -.5}):
            yield dict({"s": "std", "gen": "mix", "N": N}, **kw)
        for n in (1, 100):
            for bias in (False, True):
                yield {"s": "hist", "gen": "mix", "N": N, "n": n, "bias": bias}
        for two in (False, True):
            for fn in ("MAE", "MSE", "RMSE", "logSE", "get"):
                yield {"s": "err", "gen": "mix", "N": N, "two": two, "fn": fn}
    for N, n in ((60, 9), (60, 14), (200, 30), (1100, 3), (20, 50)):
        yield {"s": "pca", "gen": "mix", "N": N, "n": n, "keep": 1}
        for names in ([0, 1], list(range(9))):
            for gen in ("mix", "delay"):
                if regular(gen, N, n, names):
                    yield {"s": "lda", "gen": gen, "N": N, "n": n, "keep": 1, "names": names}


def factories(gens=("mix",)):
    for kind in dom.KINDS:
        for gen in gens:
            g = "sign" if kind in dom.SIGNED and gen in dom.GENS else gen
            p = intpar(kind, gen) if gen in INTGENS else GENPAR[kind]
            for n in (1, 3):
                for s in ("filter_data", "factory"):
                    yield {"s": s, "kind": kind, "par": dom.par_for(kind, p, n), "n": n, "N": 5, "gen": g}


def encode(res):
    if isinstance(res, list):
        return [encode(r) for r in res]
    if res is None:
        return None
    return {"shape": list(res.shape), "hex": res.tobytes().hex()}


def decode(o):
    if isinstance(o, list):
        return [decode(v) for v in o]
    if o is None:
        return None
    return np.frombuffer(bytes.fromhex(o["hex"])).reshape(o["shape"])


def block_scipy(how):
    import importlib.abc
    if how == "none":
        for name in ("scipy", "scipy.stats"):
            sys.modules[name] = None
        return

    class Block(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name == "scipy" or name.startswith("scipy."):
                if how == "stats" and not name.startswith("scipy.stats"):
                    return None
                raise (ModuleNotFoundError if how != "import" else ImportError)("No module named %r" % name)
            return None
    sys.meta_path.insert(0, Block())


def worker():
    """read {"block":, "first":, "specs":, "seed":} from stdin, print the results"""
    from mc import core
    job = json.load(sys.stdin)
    if job.get("block"):
        block_scipy(job["block"])
    sys.path.insert(0, core.REPO)
    for stmt in job.get("first", []):
        exec(stmt, {})
    core.setup_env()
    if job.get("seed") is not None:
        np.random.seed(job["seed"])
    out = []
    for spec in job["specs"]:
        try:
            out.append({"ok": encode(run(spec))})
        except BaseException as ex:
            out.append({"error": type(ex).__name__, "mro": [c.__name__ for c in type(ex).__mro__], "text": str(ex)[:300]})
    extra = {}
    for name, code in job.get("probe", {}).items():
        try:
            exec(code, {})
            extra[name] = ["returned"]
        except BaseException as ex:
            extra[name] = [c.__name__ for c in type(ex).__mro__]
    sys.stdout.write("\n@@RESULT@@" + json.dumps({"out": out, "probe": extra, "scipy": sys.modules.get("scipy") is not None}))


def subprocess_run(specs, env=None, block=None, first=(), probe=None, seed=None, args=()):
    import os
    import subprocess
    from mc import core
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run([sys.executable, "-W", "ignore"] + list(args) + ["-c", "from mc import surface; surface.worker()"],
                       input=json.dumps({"specs": specs, "block": block, "first": list(first), "probe": probe or {}, "seed": seed}),
                       capture_output=True, text=True, cwd=core.VERIF, env=e, timeout=140)
    if "@@RESULT@@" not in r.stdout:
        return None, (r.stdout[-500:] + r.stderr[-1500:])
    return json.loads(r.stdout.split("@@RESULT@@", 1)[1]), None


def warm():
    """the cache of SciPy's fits (see d04), the only thing kept from a child"""
    from mc.checks import d04
    return d04._fits


def isolated(fn):
    """fn() in a forked child, so that nothing it does stays; -> (True, value) or (False, text)"""
    import os
    import pickle
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(120)
            try:
                out = pickle.dumps((True, fn(), warm()))
            except BaseException:
                out = pickle.dumps((False, traceback.format_exc(limit=-5), {}))
            with os.fdopen(w, "wb") as fh:
                fh.write(out)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return False, "the process ended without a result"
    ok, out, fits = pickle.loads(data)
    warm().update(fits)
    return ok, out
