"""F10: starting weights are exactly what was asked for."""
import numpy as np
from mc import dom
from mc.checks.f09 import raises

PROP = "F10"
LEVEL = "exploration"
RULE = ("every filter, size and way to give the starting weights (the two words, sequences of every storage form, "
        "wrong words, lengths and items), through class and factory, several filters in a row from one generator "
        "state; non-trivial = distinct (filter, weights)")
ASSUMPTIONS = []
SIZES = list(range(1, 13)) + [16, 17, 32, 33, 64, 100, 257]
BADWORDS = ["", "zero", "Zeros", "ZEROS", "zeros ", "Random", "RANDOM", "rand", "ones", "none", "z", "r", "0", "random,zeros"]


def jobs(tier):
    for kind in dom.KINDS:
        yield {"kind": kind, "deep": tier == "thorough"}


def cases(job):
    kind = job["kind"]
    sizes = SIZES if not job["deep"] else list(range(1, 80)) + [100, 128, 129, 257, 500]
    for n in sizes:
        for seed in (0, 1, 123) if not job["deep"] else range(20):
            yield {"kind": kind, "t": "random", "n": n, "seed": seed}
        yield {"kind": kind, "t": "zeros", "n": n}
        for form in ("list", "tuple", "f8", "f4", "i8", "i4", "i2", "i1", "u1", "u2", "bool", "stride", "rev", "ro", "big",
                     "ints", "mixed", "range", "npitems", "tinyhuge", "special", "equal", "negzero", "digits", "bigints", "bigi8", "bigu4", "bigstride",
                     "bigu8", "halfdigits"):
            yield {"kind": kind, "t": "array", "n": n, "form": form}
        for m in sorted({0, 1, n - 1, n + 1, n + 2, 2 * n, 3 * n}):
            if m != n and m >= 0:
                yield {"kind": kind, "t": "length", "n": n, "m": m}
        for sh in ((n, 1), (n, 2), (n, n), (n, 1, 1), (n, 0), (1, n)):
            if sh != (1, n) or n > 1:
                yield {"kind": kind, "t": "shape", "n": n, "shape": list(sh)}
        for word in ("zeros", "random", "array"):
            yield {"kind": kind, "t": "init", "n": n, "word": word}
        for pos in sorted({0, n // 2, n - 1}):
            for item in ("a", "1,5", "x1", [1, 2], {}, "obj"):
                yield {"kind": kind, "t": "item", "n": n, "pos": pos, "item": item}
    for n in (1, 2, 5):
        for word in BADWORDS + ["z" * n, "r" * n]:
            yield {"kind": kind, "t": "word", "n": n, "word": word}


def form(n, how):
    base = [(-1) ** i * (i % 7) / 4. for i in range(n)]
    ints = [(3 * i + 1) % 100 for i in range(n)]
    if how == "list":
        return base, base
    if how == "tuple":
        return tuple(base), base
    if how == "ints":
        return ints, ints
    if how == "mixed":
        v = [i if i % 2 else i + .5 for i in range(n)]
        return v, v
    if how == "range":
        return range(n), list(range(n))
    if how == "npitems":
        return [np.float32(v) for v in base], base
    if how == "digits":         # all digits count
        v = [1. / (3 + i) * (-1) ** i for i in range(n)]
        return v, v
    if how == "halfdigits":
        v = [np.float32(1. / (3 + i)) for i in range(n)]
        return np.array(v)[::-1], [float(q) for q in v][::-1]
    if how[:3] == "big" and how != "big":
        v = [2 ** (24 + i % 8) - 1 - 2 * (i % 3) for i in range(n)]
        if how in ("bigi8", "bigints"):
            v = [(-1) ** i * (2 ** (25 + i % 28) - 1) for i in range(n)]
        if how == "bigu8":
            v = [2 ** 53 - 1 - i for i in range(n)]
        if how == "bigstride":
            b = np.zeros(3 * n)
            b[::3] = v
            return b[::3], v
        return v if how == "bigints" else np.array(v, dtype={"bigi8": "i8", "bigu4": "u4", "bigu8": "u8"}[how]), v
    if how == "special":
        v = [(np.inf, -np.inf, 5e-324, -1.7e308)[i % 4] for i in range(n)]
        return v, v
    if how == "equal":
        return [.375] * n, [.375] * n
    if how == "negzero":
        return np.full(n, -0.), [0.] * n
    if how == "tinyhuge":
        v = [10. ** (-300 + 37 * (i % 16)) for i in range(n)]
        return v, v
    if how in ("i8", "i4", "i2", "i1", "u1", "u2"):
        return np.array(ints, dtype=how), ints
    if how == "bool":
        b = np.array([i % 3 == 0 for i in range(n)])
        return b, b.astype(float)
    if how == "big":
        return np.array(base).astype(">f8"), base
    a = np.array(base, dtype="f4" if how == "f4" else "f8")
    if how == "stride":
        b = np.full(2 * n, 9.)
        b[::2] = a
        return b[::2], base
    if how == "rev":
        return np.array(base[::-1])[::-1], base
    if how == "ro":
        a.flags.writeable = False
    return a, base


def check_case(c, rec):
    import padasip as pa
    kind, n, t = c["kind"], c["n"], c["t"]
    C = dom.cls(kind)
    ways = [lambda **k: C(n, **k), lambda **k: C(n=n, **k), lambda **k: pa.filters.AdaptiveFilter(kind, n=n, **k)]
    rec.step(len(ways))
    if t == "random":
        for fn in ways:
            for kw in ({}, {"w": "random"}):
                ref = np.random.RandomState(c["seed"])
                np.random.seed(c["seed"])
                for _ in range(3):
                    f = fn(**kw)
                    want = ref.normal(0, .5, n)
                    if np.shape(f.w) != (n,) or not dom.same(f.w, want, 1e-12):
                        rec.fail("random weights are not n draws of the global generator", got=f.w, want=want)
                if not dom.same(np.random.normal(), ref.normal()):
                    rec.fail("creating filters drew more numbers than weights")
        rec.state((kind, n, c["seed"]))
        rec.outcome(f.w.tobytes())
    elif t == "zeros":
        for fn in ways:
            f = fn(w="zeros")
            g = fn(w="zeros")
            if np.shape(f.w) != (n,) or np.any(f.w != 0) or f.w.dtype != np.float64:
                rec.fail("not zeros", got=f.w)
            f.adapt(1., np.ones(n))
            f.run(np.ones(2), np.ones((2, n)))
            if np.any(g.w != 0) or np.any(fn(w="zeros").w != 0):
                rec.fail("zeros shared between filters", got=g.w)
        rec.state((kind, n, "z"))
    elif t == "array":
        for fn in ways:
            arg, want = form(n, c["form"])
            before = np.array(arg).tobytes()
            f = fn(w=arg)
            if np.shape(f.w) != (n,) or f.w.dtype != np.float64 or not np.array_equal(f.w, np.array(want, dtype=float)):
                rec.fail("weights are not the given numbers", got=f.w, want=want)
            if isinstance(arg, np.ndarray) and np.shares_memory(arg, f.w):
                rec.fail("weights share memory with the argument")
            g = fn(w=arg)
            f.run(np.ones(2), np.ones((2, n)))
            f.adapt(1., np.ones(n) / 2)
            if np.array(arg).tobytes() != before:
                rec.fail("learning changed the argument", arg=arg)
            if not np.array_equal(g.w, np.array(want, dtype=float)):
                rec.fail("two filters from one argument share weights")
        rec.state((kind, n, c["form"]))
        rec.outcome(f.w.tobytes())
    elif t == "length":
        for fn in ways:
            for arg in ([.5] * c["m"], tuple([1] * c["m"]), np.zeros(c["m"])):
                raises(rec, lambda: fn(w=arg), "%d weights for size %d" % (c["m"], n))
        rec.state((kind, n, c["m"], "len"))
    elif t == "shape":
        for fn in ways:
            a = np.arange(1., 1 + np.prod(c["shape"])).reshape(c["shape"])
            for arg in (a, a.astype(int), a.tolist()) if n <= 33 else (a,):
                raises(rec, lambda: fn(w=arg), "weights of shape %r for size %d" % (c["shape"], n))
        rec.state((kind, n, repr(c["shape"])))
    elif t == "init":
        f = C(n, w="zeros")
        for kw in ({}, {"n": n}):
            np.random.seed(5)
            arg = [k / 4. for k in range(n)] if c["word"] == "array" else c["word"]
            got = f.init_weights(arg, **kw)
            want = np.zeros(n) if c["word"] == "zeros" else np.random.RandomState(5).normal(0, .5, n) if c["word"] == "random" else np.array(arg)
            if not isinstance(got, np.ndarray) or got.dtype != np.float64 or not np.array_equal(got, want):
                rec.fail("init_weights does not give the weights asked for", got=got, want=want)
            if np.any(f.w != 0) or np.shares_memory(got, f.w):
                rec.fail("init_weights changed the filter", got=f.w)
        rec.state((kind, n, c["word"]))
    elif t == "item":
        item = object() if c["item"] == "obj" else c["item"]
        if n == 1 and c["item"] == [1, 2]:
            rec.state((kind, "skip"))
            return
        for fn in ways:
            arg = [1.] * n
            arg[c["pos"]] = item
            raises(rec, lambda: fn(w=arg), "weights with item %r" % (item,))
        rec.state((kind, n, c["pos"], repr(c["item"]), "item"))
    else:
        for fn in ways:
            raises(rec, lambda: fn(w=c["word"]), "w=%r" % c["word"])
        rec.state((kind, n, c["word"]))
