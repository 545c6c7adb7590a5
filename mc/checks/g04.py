"""G04: no hidden randomness or history."""
import itertools
import json
import numpy as np
from mc import dom, mlp, surface

PROP = "G04"
LEVEL = "model_checking"
FRESH = True        # every job in a process that called nothing before
RULE = ("every scenario of the public surface: the state of NumPy's global generator (and of Python's) is compared around every call; "
        "the scenario is repeated from other generator states, after every other scenario of a set (all ordered pairs), "
        "and in fresh processes with other hash seeds; random creation and shuffling are repeated from equal generator "
        "states; a state is (scenario, what was done before, results)")
ASSUMPTIONS = ["LDA and PCA projections are compared up to the sign of a column, everything up to 1e-9"]


def rng_key():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


class Guard(surface.Call):
    """the call may not touch the global generators"""

    def __init__(self, rec, free=()):
        self.rec, self.free = rec, free

    def __call__(self, fn, *args, **kw):
        import random
        a, b = rng_key(), random.getstate()
        out = surface.Call.__call__(self, fn, *args, **kw)
        name = getattr(fn, "__name__", str(fn))
        if rng_key() != a and not (name == "train" and kw.get("shuffle")):
            self.rec.fail("the call uses the global random generator", fn=getattr(fn, "__qualname__", name))
        if random.getstate() != b:
            self.rec.fail("the call uses Python's random generator", fn=getattr(fn, "__qualname__", name))
        return out


def everything(deep):
    out = list(surface.filters(("delay",), sizes=(1, 2) if not deep else (1, 2, 3, 5), opsets=surface.OPSETS[:2] if not deep else surface.OPSETS))
    out += list(surface.factories(("mix",)))
    out += list(surface.networks(("mix",), [([2], 2, 1), ([3], 2, 2), ([2, 3], 2, 1)], mus=(.0625,)))
    out += list(surface.functions(("mix",)))
    return out


def randoms():
    for kind in dom.KINDS:
        for n in (1, 2, 3, 7, 17):
            yield {"s": "filter", "kind": kind, "par": dom.par_for(kind, surface.GENPAR[kind], n), "n": n,
                   "gen": "sign" if kind in dom.SIGNED else "delay", "ops": ["r2", "a", "p"], "w": "random", "seed": 5 + n}
    for arch in mlp.ARCHS:
        for act in ("sigmoid", "tanh"):
            for ops in (["p", "u"], ["s4", "s5"], ["t3"]):
                yield {"s": "mlp", "arch": arch, "act": act, "mu": .0625, "gen": "mix", "ops": ops, "seed": 8}


def pair_set(deep):
    """one scenario of each kind of call"""
    out = []
    for kind in dom.KINDS:
        out.append({"s": "filter", "kind": kind, "par": dom.par_for(kind, surface.GENPAR[kind], 2), "n": 2,
                    "gen": "sign" if kind in dom.SIGNED else "delay", "ops": ["r2", "a", "p", "a"]})
    out.append(dict(out[0], n=3))
    out.append({"s": "filter_data", "kind": "NLMS", "par": {"mu": .5}, "n": 2, "N": 4, "gen": "mix"})
    out.append({"s": "factory", "kind": "AP", "par": {"order": 2}, "n": 2, "N": 4, "gen": "mix"})
    for act in ("sigmoid", "tanh"):
        out.append({"s": "mlp", "arch": ([2, 3], 2, 1), "act": act, "mu": "auto", "gen": "mix", "ops": ["p", "u", "t2", "r2"], "seed": 4})
    out += [s for i, s in enumerate(surface.functions(("mix",))) if deep or i % 4 in (1, 2)]
    return out


SEEDS = ["0", "1", "2", "3", "17", "4242", "random"]


def jobs(tier):
    deep = tier == "thorough"
    for h in SEEDS if not deep else SEEDS + [str(k) for k in range(20, 40)]:
        yield {"t": "process", "hash": h, "deep": deep}
    for sh in range(8):
        yield {"t": "single", "shard": sh, "of": 8, "deep": deep}
    yield {"t": "random"}
    for start in (0, 7, 100, 200) if not deep else range(0, 300, 7):
        for back in (False, True):
            yield {"t": "chain", "start": start, "back": back}
    for sh in range(16):
        yield {"t": "kin", "shard": sh, "of": 16, "deep": deep}
    for i in range(len(pair_set(deep))):
        yield {"t": "pairs", "i": i, "deep": deep}


def cases(job):
    t = job["t"]
    if t in ("process", "chain"):
        yield dict(job)
    elif t == "single":
        for i, spec in enumerate(everything(job["deep"])):
            if i % job["of"] == job["shard"]:
                yield {"t": t, "spec": spec}
    elif t == "kin":        # the same function with other numbers of the same size, and with other parameters
        fs = list(surface.functions(("mix",))) + list(surface.factories(("mix",)))
        kin = ("mix~rev", "mix~cols", "mix~neg", "mix~swap", "mix~inner")
        gens = ("offset", "mix") if not job["deep"] else ("offset", "mix", "delay", "burst")
        for i, spec in enumerate(fs):
            if i % job["of"] == job["shard"]:
                for g in gens:
                    for o in fs:
                        if o["s"] == spec["s"] and (spec["s"] not in ("filter_data", "factory") or o["kind"] == spec["kind"]) \
                                and (o is not spec or g != "mix"):
                            yield {"t": "pairs", "spec": spec, "first": dict(o, gen=g)}
                for g in kin[1:3] if spec["s"] == "lda" else kin:   # another order of the rows can leave the classes singular
                    yield {"t": "pairs", "spec": spec, "first": dict(spec, gen=g)}
    elif t == "random":
        for spec in randoms():
            yield {"t": t, "spec": spec}
    else:
        ps = pair_set(job["deep"])
        for j in range(len(ps)):
            yield {"t": t, "spec": ps[job["i"]], "first": ps[j]}


def first_diff(a, b):
    for i, (p, q) in enumerate(zip(a, b)):
        if not surface.close([p], [q], None, 1e-9):
            return i, p, q
    return None, a, b


def same(spec, a, b):
    from mc.checks import g02
    return surface.close(a, b, spec, 1e-9, g02.atol(spec))


def check_case(c, rec):
    from mc.checks import d04
    t = c["t"]
    if t == "process":
        specs = everything(c["deep"]) + list(randoms())
        env = {"PYTHONHASHSEED": c["hash"]}
        got, err = surface.subprocess_run(specs, env, seed=3)
        if got is None:
            rec.fail("the scenarios do not run in a fresh process", text=err)
        d04.cache_fit()
        for spec, o in zip(specs, got["out"]):
            if "error" in o:
                rec.fail("fails in a fresh process", hash=c["hash"], spec=spec, error=o)
            want = surface.run(spec)
            res = surface.decode(o["ok"])
            rec.step(len(res))
            if not same(spec, want, res):
                i, p, q = first_diff(want, res)
                rec.fail("another result in another process", hash=c["hash"], spec=spec, step=i, here=p, there=q)
            rec.state((c["hash"], repr(spec)))
        rec.outcome(c["hash"])
        return
    spec = c.get("spec")
    d04.cache_fit()
    if t == "pairs":
        base = solo(spec, rec)
        ok, out = surface.isolated(lambda: (surface.run(c["first"]), surface.run(spec), list(zip_steps(spec, c["first"]))))
        if not ok:
            rec.fail("fails after other calls", other=c["first"], error=out)
        before, again, inter = out
        rec.step(len(base) * 2 + len(before))
        for what, other, res in (("after", c["first"], again), ("between", c["first"], inter)):
            if not same(spec, base, res):
                i, p, q = first_diff(base, res)
                rec.fail("another result %s other calls" % what, other=other, step=i, alone=p, then=q)
        rec.state((repr(spec), repr(c["first"])))
        rec.outcome(repr(base[-1]))
        return
    if t == "chain":
        specs = everything(False)
        specs = specs[c["start"]:] + specs[:c["start"]]
        if c["back"]:
            specs.reverse()
        ok, out = surface.isolated(lambda: [surface.run(s) for s in specs])
        if not ok:
            rec.fail("fails in a long sequence of calls", error=out)
        for s, res in zip(specs, out):
            base = solo(s, rec)
            rec.step(len(res))
            if not same(s, base, res):
                i, p, q = first_diff(base, res)
                rec.fail("another result in a long sequence of calls", spec=s, step=i, alone=p, then=q)
            rec.state((c["start"], c["back"], repr(s)))
        return
    res = []
    for seed in (0, 1, 12345):
        np.random.seed(seed)
        if seed:
            np.random.normal(size=seed % 7)
        call = Guard(rec)
        if t == "random":
            call = surface.Call()
        r = surface.run(spec, call)
        rec.step(len(r))
        res.append(r)
        if not same(spec, res[0], r):
            i, p, q = first_diff(res[0], r)
            rec.fail("repeating the same calls gives another result", generator_seed=seed, step=i, first=p, then=q)
        rec.state((repr(spec), seed))
    if t == "random":
        other = surface.run(dict(spec, seed=spec["seed"] + 100))
        rec.step(len(other))
        if surface.close([res[0][0]], [other[0]], None, 1e-6):
            rec.fail("random weights do not depend on the seed")
    rec.outcome(repr(res[0][-1]))


_solo = {}


def solo(spec, rec):
    """results in a process that called nothing before"""
    key = repr(spec)
    if key not in _solo:
        ok, out = surface.isolated(lambda: surface.run(spec))
        if not ok:
            rec.fail("the scenario fails", error=out)
        _solo[key] = out
    return _solo[key]


def zip_steps(spec, other):
    a, b = surface.steps(spec, surface.Call()), surface.steps(other, surface.Call())
    for r in a:
        next(b, None)
        yield r
