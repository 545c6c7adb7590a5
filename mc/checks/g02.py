"""G02: results depend on the numbers, not on how they are stored."""
import itertools
import numpy as np
from mc import dom, surface
from mc.surface import A

PROP = "G02"
LEVEL = "model_checking"
RULE = ("every scenario of the public surface (filters, factories, MLP, detection, preprocessing, error measures) with "
        "every assignment of storage forms to its first arguments that can hold the numbers exactly; results are "
        "compared with those of fresh float64 arrays; a state is (scenario, assignment of forms, results)")
ASSUMPTIONS = ["comparison up to 1e-9 of the largest value (another memory layout may sum in another order)"]
INTS = {"i1": (-128, 127), "i2": (-2 ** 15, 2 ** 15 - 1), "i4": (-2 ** 31, 2 ** 31 - 1), "i8": (-2 ** 63, 2 ** 63 - 1),
        "u1": (0, 255), "u2": (0, 2 ** 16 - 1), "u4": (0, 2 ** 32 - 1), "u8": (0, 2 ** 64 - 1)}
DTYPES = ["f4"] + list(INTS)
LAYOUTS = ["strided", "reversed", "fortran", "view", "negfortran", "i1strided", "u1reversed", "f4fortran"]
LISTS = ["list", "tuple", "intlist", "rows", "mixed"]
FORMS = ["f8"] + DTYPES + LAYOUTS + LISTS


def fits(v, dt):
    v = np.asarray(v, dtype=float)
    if dt == "f4":
        return bool(np.all(v.astype("f4").astype(float) == v))
    lo, hi = INTS[dt]
    return bool(v.size == 0 or (np.all(v == np.floor(v)) and v.min() >= lo and v.max() <= hi))


def deep(v, f, seq):
    return seq(deep(i, f, seq) if isinstance(i, list) else f(i) for i in v)


def store(form, role, value):
    """-> stored value or None where the form does not apply"""
    if role == "l":
        if form == "f8":
            return np.array(value)
        if form == "list":
            return list(value)
        if form == "tuple":
            return tuple(value)
        if form == "mixed":
            return np.array(value, dtype=object) if len({type(v) for v in value}) == 1 else None
        if form == "strided":
            return np.repeat(np.array(value), 2)[::2]
        if form == "reversed":
            return np.array(list(value)[::-1])[::-1]
        if form in INTS and all(isinstance(v, int) for v in value) and fits(value, form):
            return np.array(value, dtype=form)
        return None
    v = np.asarray(value, dtype=float)
    if role == "t":
        if form == "f8":
            return np.float64(value)
        if form in DTYPES:
            return np.dtype(form).type(value) if fits(v, form) else None
        if form in ("list", "tuple"):
            return float(value)
        if form == "intlist":
            return int(value) if float(value).is_integer() else None
        if form == "view":
            return np.array([[value, 1.]])[0, 0]
        return None
    base = None
    for dt in DTYPES:
        if form.startswith(dt) and form != dt:
            base = dt
    if base:
        if not fits(v, base):
            return None
        v = v.astype(base)
        form = form[len(base):]
    if form == "f8":
        return v.copy()
    if form in DTYPES:
        return v.astype(form) if fits(v, form) else None
    if form == "strided":
        big = np.empty(tuple(2 * s for s in v.shape), dtype=v.dtype)
        big[...] = 77
        out = big[tuple(slice(None, None, 2) for _ in v.shape)]
        out[...] = v
        return out
    if form == "reversed":
        sl = tuple(slice(None, None, -1) for _ in v.shape)
        return v[sl].copy()[sl]
    if form == "fortran":
        return np.asfortranarray(v) if v.ndim == 2 else None
    if form == "negfortran":
        return np.asfortranarray(v[::-1])[::-1] if v.ndim == 2 else None
    if form == "view":      # part of a bigger matrix: a column, or inner columns
        if v.ndim == 1:
            big = np.full((len(v), 3), 77.)
            big[:, 1] = v
            return big[:, 1]
        big = np.full((v.shape[0] + 2, v.shape[1] + 2), 77.)
        big[1:-1, 1:-1] = v
        return big[1:-1, 1:-1]
    if form == "f4fortran":
        return None
    if form in LISTS:
        if role in "SMV":
            return None
        if v.ndim == 2 and v.shape[0] == 0:
            return [] if form == "list" else None
        if form == "list":
            return v.tolist()
        if form == "tuple":
            return deep(v.tolist(), float, tuple)
        if form == "intlist":
            return deep(v.tolist(), int, list) if np.all(v == np.floor(v)) else None
        if form == "rows":      # list of arrays
            return [r.copy() for r in v] if v.ndim == 2 else [np.float32(i) if fits(i, "f4") else i for i in v]
        if form == "mixed":     # ints and floats mixed
            return deep(v.tolist(), lambda i: int(i) if i.is_integer() else i, list)
    raise KeyError(form)


class Stored(surface.Call):
    """argument number i (of every call) is stored in forms[i % len(forms)]"""

    def __init__(self, forms):
        self.forms = forms
        self.i = 0
        self.used = False

    def __call__(self, fn, *args, **kw):
        self.i = 0
        return surface.Call.__call__(self, fn, *args, **kw)

    def prepare(self, role, value):
        form = self.forms[self.i % len(self.forms)]
        self.i += 1
        out = store(form, role, value)
        if out is None:
            return store("f8", role, value)
        self.used = self.used or form != "f8"
        return out


def scenarios(part, deep_):
    big = ("u7", "i8", "u8", "wide")
    gens = big + ("mix", "offset", "u7h", "hu7")
    if part == "filters":
        sizes = (1, 2, 3) if not deep_ else (1, 2, 3, 4, 8, 17)
        ops = [["r3", "a", "p", "r2"], ["p", "a", "q", "t4"]] if not deep_ else surface.OPSETS
        yield from surface.filters(big + ("delay", "small", "u7h", "hu7"), sizes=sizes, opsets=ops)
    elif part == "factories":
        yield from surface.factories(big + ("mix", "u7h", "hu7"))
    elif part == "networks":
        archs = [([2], 2, 1), ([3], 2, 2), ([2, 3], 2, 1), ([3, 2], 1, 2)]
        yield from surface.networks(("u7", "i8", "u8", "mix", "u7h", "hu7"), archs if not deep_ else None, mus=(2. ** -12,),
                                    opsets=[["p", "u", "r2"], ["t2", "e2"]] if not deep_ else surface.MLP_OPS)
    else:
        yield from surface.functions(gens, ese=True)


def jobs(tier):
    deep_ = tier == "thorough"
    for part in ("functions", "factories", "networks", "filters"):
        for sh in range(16 if part in ("functions", "filters") else 6):
            yield {"part": part, "shard": sh, "of": 16 if part in ("functions", "filters") else 6, "deep": deep_}


def cases(job):
    for i, spec in enumerate(scenarios(job["part"], job["deep"])):
        if i % job["of"] == job["shard"]:
            yield {"spec": spec, "pairs": "all" if job["deep"] else "axes"}


def assignments(mode):
    for f in FORMS[1:]:
        yield [f]
        yield [f, "f8"]
        yield ["f8", f]
    if mode == "all":
        for f, g in itertools.permutations(FORMS[1:], 2):
            yield [f, g]
    else:
        for f, g in itertools.permutations(["u1", "i1", "f4", "list", "view", "reversed"], 2):
            yield [f, g]


def check_case(c, rec):
    from mc.checks import d04
    d04.cache_fit()
    spec = c["spec"]
    base = surface.run(spec)
    if spec["s"] in ("filter", "filter_data", "factory", "mlp") and not surface.tame(base, 1e13):
        rec.skip("diverges")
        return
    n = 0
    for forms in [c["forms"]] if "forms" in c else assignments(c["pairs"]):
        call = Stored(forms)
        got = surface.run(spec, call)
        if not call.used:
            rec.skip("form cannot hold the numbers")
            continue
        rec.step(len(got))
        n += 1
        if not surface.close(base, got, spec, 1e-9, atol(spec)):
            for i, (p, q) in enumerate(zip(base, got)):
                if not surface.close([p], [q], None, 1e-9):
                    break
            rec.case = dict(c, forms=forms)
            rec.fail("stored as %s gives another result" % "/".join(forms), step=i, float64=p, got=q)
        rec.state((repr(spec), repr(forms), repr(got[-1])))
    rec.outcome(repr(base[-1]))


def atol(spec):
    if spec["s"] in ("pca", "lda"):
        return 1e-7
    return 1e-12
