"""G01: arguments are neither modified nor kept."""
import copy
import itertools
import numpy as np
from mc import dom, surface
from mc.checks import g02

PROP = "G01"
LEVEL = "model_checking"
RULE = ("every scenario of the public surface (all filters, factories, MLP, detection, preprocessing, error measures) is "
        "executed with every storage form of its arguments and every buffer discipline (fresh; read-only; overwritten "
        "with NaN or numbers after every call; one buffer per shape reused by all calls; overwritten after each single "
        "call of the history alone); after each call the argument must hold what it held, no result may share memory "
        "with it, and all results must be those of fresh arguments; a state is (scenario, form, discipline, results)")
ASSUMPTIONS = []
FORMS = ["f8", "fortran", "strided", "view", "f4", "i8", "u1", "list", "rows"]
MODES = ["readonly", "nan", "number", "pool", "rowpool"]


def copy_of(p):
    return copy.deepcopy(p)


def equal(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    return type(a) is type(b) and a == b


def arrays_in(o):
    if isinstance(o, np.ndarray):
        yield o
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from arrays_in(v)


def scribble(p, mode, filler):
    if isinstance(p, np.ndarray):
        if p.dtype.kind == "f":
            p[...] = np.nan if mode == "nan" else filler
        elif p.dtype.kind in "iu":
            p[...] = 13
        elif p.dtype.kind == "U":
            p[...] = "z"
        elif p.dtype.kind == "O":
            p[...] = 0
    elif isinstance(p, list):
        for i, v in enumerate(p):
            if isinstance(v, (list, np.ndarray)):
                scribble(v, mode, filler)
            elif isinstance(v, str):
                p[i] = "z"
            else:
                p[i] = type(v)(13)
        p.append(p[0] if p else 1.)


class Watch(surface.Call):
    def __init__(self, form, mode, only, rec):
        self.form, self.mode, self.only, self.rec = form, mode, only, rec
        self.calls = 0
        self.pool = {}
        self.kept = []
        self.fn = None

    def prepare(self, role, value):
        out = g02.store(self.form, role, value)
        if out is None:
            out = g02.store("f8", role, value)
        if self.mode in ("pool", "rowpool") and isinstance(out, np.ndarray) and out.size:
            # one buffer for all arguments of this shape and type, as in a real-time loop
            key = (out.shape, out.dtype.str, out.strides, sum(1 for k in self.busy if k[0] == out.shape))
            self.busy.append(key)
            if key in self.pool:
                self.pool[key][...] = out
                out = self.pool[key]
            elif self.mode == "rowpool" and out.ndim == 1:
                big = np.full((2, len(out)), 5., dtype=out.dtype) if out.dtype.kind in "fiu" else None
                if big is not None:
                    big[1] = out
                    out = big[1]
                self.pool[key] = out
            else:
                self.pool[key] = out
        if self.mode == "readonly":
            for a in arrays_in(out):
                a.flags.writeable = False
        self.kept.append((out, copy_of(out)))
        return out

    def result(self, out, passed):
        for arg, was in self.kept:
            if not equal(arg, was):
                self.rec.fail("the call changed its argument", call=self.calls, fn=self.fn, before=was, after=arg)
        res = list(arrays_in(out))
        for a in arrays_in([p for p in passed]):
            for r in res:
                if a.size and r.size and np.shares_memory(a, r):
                    self.rec.fail("a result shares memory with an argument", call=self.calls, fn=self.fn)
        return out

    def after(self, role, value, passed):
        if self.mode in ("nan", "number", "pool", "rowpool") and (self.only is None or self.only == self.calls):
            scribble(passed, "nan" if self.mode == "nan" else "number", 12.5)

    def layers(self, layers):
        self.lay = list(layers)
        return self.lay

    def __call__(self, fn, *args, **kw):
        self.kept, self.busy = [], []
        self.fn = getattr(fn, "__qualname__", str(fn))
        self.calls += 1
        out = surface.Call.__call__(self, fn, *args, **kw)
        if self.only is None or self.only == self.calls:
            for i, v in enumerate(getattr(self, "lay", [])):
                self.lay[i] = 1
        return out


def scenarios(part, deep):
    if part == "filters":
        gens = ("u7", "delay") if not deep else ("u7", "delay", "offset")
        yield from surface.filters(gens, sizes=(1, 2, 3) if not deep else (1, 2, 3, 5, 17), opsets=surface.OPSETS)
    elif part == "factories":
        yield from surface.factories(("u7", "mix"))
    elif part == "networks":
        yield from surface.networks(("mix",), None, mus=(.0625,))
    else:
        yield from surface.functions(("u7", "mix"), ese=True)


def jobs(tier):
    deep = tier == "thorough"
    for part, of in (("functions", 8), ("factories", 4), ("networks", 8), ("filters", 20)):
        for sh in range(of):
            yield {"part": part, "shard": sh, "of": of, "deep": deep}


def cases(job):
    for i, spec in enumerate(scenarios(job["part"], job["deep"])):
        if i % job["of"] == job["shard"]:
            yield {"spec": spec}


def check_case(c, rec):
    from mc.checks import d04
    d04.cache_fit()
    spec = c["spec"]
    base = surface.run(spec)
    if spec["s"] in ("filter", "filter_data", "factory", "mlp") and not surface.tame(base, 1e13):
        rec.skip("diverges")
        return
    n = len(base)
    combos = [(f, m, None) for f in FORMS for m in MODES]
    if n > 1:
        combos += [("f8", m, k) for m in ("nan", "number") for k in range(1, n + 1)]
        combos += [("f8", "pool", k) for k in range(1, n + 1)]
    for form, mode, only in [c["combo"]] if "combo" in c else combos:
        watch = Watch(form, mode, only, rec)
        rec.case = dict(c, combo=[form, mode, only])
        got = surface.run(spec, watch)
        rec.step(n)
        if not surface.close(base, got, spec, 1e-9, g02.atol(spec)):
            for i, (p, q) in enumerate(zip(base, got)):
                if not surface.close([p], [q], None, 1e-9):
                    break
            rec.fail("%s arguments, %s: another result" % (form, mode), only_call=only, step=i, fresh=p, got=q)
        rec.state((repr(spec), form, mode, only, repr(got[-1])))
    rec.case = c
    rec.outcome(repr(base[-1]))
