"""G03: separate objects and calls never influence each other."""
import itertools
import numpy as np
from mc import dom, mlp, surface, sched

PROP = "G03"
LEVEL = "model_checking"
FRESH = True
CASE_LIMIT = 3000
RULE = ("every order of the calls on two and three objects of the same or of different kinds; and real threads under a "
        "controlled scheduler that preempts at every line (at every bytecode) of the library, all schedules up to the "
        "preemption bound, for objects of their own, for functions, and for predict on a shared filter; all results must be "
        "those of each object used alone; a state is (scenarios, order or schedule)")
ASSUMPTIONS = ["threads are preempted at lines or bytecodes of the library, not inside NumPy's C code",
               "creation of networks draws from the global generator and is not preempted"]


def filt(kind, n=2, variant=0):
    return {"s": "filter", "kind": kind, "par": dom.par_for(kind, (dom.STABLE[kind] * 2)[variant], n), "n": n,
            "gen": ("sign" if kind in dom.SIGNED else ("delay", "small")[variant]), "ops": ["a", "p", "r2", "a"]}


def net(act, variant=0):
    return {"s": "mlp", "arch": [([2], 2, 1), ([2, 3], 2, 1), ([3], 2, 2)][variant], "act": act, "mu": .0625,
            "gen": ("mix", "delay", "small")[variant], "ops": ["p", "u", "r1", "t2"], "seed": 4 + variant}


def fn_specs(gen, small=False):
    yield {"s": "le", "gen": gen, "N": 5, "n": 2, "m": 2, "order": 1}
    yield {"s": "le", "gen": gen, "N": 5, "n": 2, "m": 2, "order": 1, "alpha": [1, 2]}
    yield {"s": "elbnd", "gen": gen, "N": 4, "n": 2, "fn": "max"}
    yield {"s": "elbnd", "gen": gen, "N": 4, "n": 2, "fn": "sum"}
    yield {"s": "std", "gen": gen, "N": 4}
    yield {"s": "std", "gen": gen, "N": 4, "offset": 1.5, "scale": 3.}
    yield {"s": "hist", "gen": gen, "N": 5, "n": 2, "bias": True}
    yield {"s": "pca", "gen": gen, "N": 6, "n": 2, "keep": 1}
    yield {"s": "lda", "gen": gen, "N": 6, "n": 2, "keep": 1, "names": [0, 1]}
    yield {"s": "err", "gen": gen, "N": 4, "two": True, "fn": "get"}
    yield {"s": "err", "gen": gen, "N": 4, "two": False, "fn": "logSE"}
    yield {"s": "ese", "gen": gen, "N": 6, "n": 1, "win": 4, "pot": "sqrt"}
    yield {"s": "filter_data", "gen": gen, "kind": "NLMS", "par": {"mu": .5}, "n": 2, "N": 2}
    yield {"s": "factory", "gen": gen, "kind": "AP", "par": {"order": 2}, "n": 2, "N": 2}


def objects(variant):
    return [filt(k, 2, variant) for k in dom.KINDS] + [net("sigmoid", variant), net("tanh", variant)]


def jobs(tier):
    deep = tier == "thorough"
    K = len(objects(0))
    for i in range(K):
        yield {"t": "orders", "i": i, "deep": deep}
    yield {"t": "three", "deep": deep}
    for i in range(K):
        yield {"t": "threads", "i": i, "level": "line", "bound": 2, "deep": deep}
        yield {"t": "threads", "i": i, "level": "opcode", "bound": 1, "deep": deep}
    F = len(list(fn_specs("mix")))
    for i in range(F):
        yield {"t": "functions", "i": i, "level": "line", "bound": 2, "deep": deep}
        yield {"t": "functions", "i": i, "level": "opcode", "bound": 1, "deep": deep}
    for kind in dom.KINDS:
        yield {"t": "predict", "kind": kind, "level": "opcode", "bound": 2, "deep": deep}
    for i in range(K):
        yield {"t": "cross", "i": i, "level": "line", "bound": 1 if not deep else 2, "deep": deep}
    if deep:
        for i in range(K):
            yield {"t": "threads3", "i": i, "level": "line", "bound": 3, "deep": deep}
        for i in range(F):
            yield {"t": "functions3", "i": i, "level": "line", "bound": 3, "deep": deep}


def cases(job):
    t, deep = job["t"], job["deep"]
    if t == "orders":
        a = objects(0)[job["i"]]
        for j, b in enumerate(objects(1)):
            own = j == job["i"]
            yield {"t": "orders", "specs": [a, b], "limit": None if own or deep else 4}
        # the same parameters, numbers of another kind; another size
        if a["s"] == "filter":
            yield {"t": "orders", "specs": [a, dict(a)], "limit": None}
            yield {"t": "orders", "specs": [a, dict(a, n=3, par=dom.par_for(a["kind"], dom.STABLE[a["kind"]][0], 3))], "limit": None}
            for n in (17, 70):
                big = dict(a, n=n, par=dom.par_for(a["kind"], dom.STABLE[a["kind"]][0], n))
                yield {"t": "orders", "specs": [big, dict(big, gen="sign" if a["kind"] in dom.SIGNED else "small")], "limit": None}
        else:
            for arch in ([2], 17, 1), ([2], 17, 3), ([33], 2, 1), ([20, 20], 5, 1), ([2, 2], 130, 1), ([3], 2, 2), ([1], 1, 1):
                big = dict(a, arch=arch)
                yield {"t": "orders", "specs": [big, dict(big, seed=9)], "limit": None}
        for b in fn_specs("mix"):
            yield {"t": "orders", "specs": [a, b], "limit": None}
    elif t == "three":
        for k in dom.KINDS:
            yield {"t": "orders", "specs": [dict(filt(k), ops=["a", "r1"]), dict(filt(k, variant=1), ops=["r1", "p"]),
                                            dict(filt(k), gen="sign" if k in dom.SIGNED else "small", ops=["a", "a"])], "limit": None}
        for x in ("sigmoid", "tanh"):
            yield {"t": "orders", "specs": [dict(net(x, v), ops=["p", "u"]) for v in (0, 1, 2)], "limit": None}
    elif t in ("threads", "threads3"):
        a, b = objects(0)[job["i"]], objects(1)[job["i"]]
        if a["s"] == "filter":
            sets = [(["a", "p"], ["a"]), (["r2"], ["r1"]), (["a"], ["r1"])]
            if job["level"] == "line" and t == "threads":
                yield {"t": "threads", "specs": [dict(a, ops=["t2"]), dict(b, ops=["a", "a"])], "level": "line", "bound": 1}
                sets = [(["a"], ["r1"]), (["p", "a"], ["a"])]
        else:
            sets = [(["p", "u"], ["p"]), (["p", "u"], ["p", "u"]), (["r1"], ["p", "u"]), (["t1"], ["e1"])]
        if t == "threads3":
            sets = [(["a"], ["a"]), (["p"], ["a"])] if a["s"] == "filter" else [(["p"], ["p"])]
        for oa, ob in sets:
            yield {"t": "threads", "specs": [dict(a, ops=oa), dict(b, ops=ob)], "level": job["level"], "bound": job["bound"],
                   "made": t == "threads3" or job["level"] == "line", "cap": 200000 if deep else 6000}
        if a["s"] == "filter" and t == "threads":
            # nothing differs but the numbers: caches keyed by parameters
            yield {"t": "threads", "specs": [dict(a, ops=["a"]), dict(a, gen="sign" if a["kind"] in dom.SIGNED else "small", ops=["r1"])],
                   "level": job["level"], "bound": job["bound"]}
    elif t == "cross":
        a = objects(0)[job["i"]]
        for j, b in enumerate(objects(1)):
            if j != job["i"]:
                yield {"t": "threads", "specs": [dict(a, ops=["a"] if a["s"] == "filter" else ["p", "u"]),
                                                 dict(b, ops=["r1"])], "level": "line", "bound": job["bound"]}
    elif t in ("functions", "functions3"):
        a, b = list(fn_specs("mix"))[job["i"]], list(fn_specs("offset"))[job["i"]]
        if t == "functions3":
            if a["s"] not in ("ese", "factory", "filter_data", "lda"):
                yield {"t": "threads", "specs": [a, b], "level": "line", "bound": 3}
            return
        yield {"t": "threads", "specs": [a, b], "level": job["level"], "bound": job["bound"],
               "cap": 200000 if deep else 6000}
        if job["level"] == "line":
            for k, o in enumerate(fn_specs("offset")):
                if k != job["i"]:
                    yield {"t": "threads", "specs": [a, o], "level": "line", "bound": 1 if not deep else 2}
    elif t == "predict":
        for n in (1, 3):
            for h in ([], ["r3"], ["r2", "a", "a"]) if n == 3 or deep else (["r3"],):
                yield {"t": "predict", "kind": job["kind"], "n": n, "hist": h, "level": "opcode", "bound": 2 if not deep else 3}


_solo = {}


def solo(spec, rec):
    key = repr(spec)
    if key not in _solo:
        ok, out = surface.isolated(lambda: surface.run(spec))
        if not ok:
            rec.fail("the scenario fails", error=out)
        _solo[key] = out
    return _solo[key]


def orders(lens, limit):
    """every merge of the step sequences; limit bounds the number of switches between objects"""
    def go(left, last, sw):
        if not any(left):
            yield []
            return
        for i, l in enumerate(left):
            if l and (limit is None or last is None or i == last or sw < limit):
                rest = list(left)
                rest[i] -= 1
                for tail in go(rest, i, sw + (last is not None and i != last)):
                    yield [i] + tail
    return go(list(lens), None, 0)


def compare(rec, specs, got, want, **how):
    from mc.checks import g04
    for i, (s, g, w) in enumerate(zip(specs, got, want)):
        if not g04.same(s, w, g):
            k, p, q = g04.first_diff(w, g)
            rec.fail("object %d of %d is influenced by the others" % (i, len(specs)), spec=s, step=k, alone=p, got=q, **how)


def check_case(c, rec):
    from mc.checks import d04
    d04.cache_fit()
    if c["t"] == "predict":
        return check_predict(c, rec)
    specs = c["specs"]
    want = [solo(s, rec) for s in specs]
    if c["t"] == "orders":
        for order in [c["order"]] if "order" in c else orders([len(w) for w in want], c["limit"]):
            gens = [surface.steps(s, surface.Call()) for s in specs]
            got = [[] for _ in specs]
            for i in order:
                got[i].append(next(gens[i]))
            for g in gens:
                for _ in g:
                    pass
            rec.step(len(order))
            rec.case = dict(c, order=order)
            compare(rec, specs, got, want, order="".join(map(str, order)))
            rec.state((repr(specs), tuple(order)))
        rec.case = c
        rec.outcome(repr(want))
        return

    def factory():
        fns = []
        for s in specs:
            gen = surface.steps(s, surface.Call())
            # made: the objects exist before the threads start
            head = [next(gen)] if s["s"] == "mlp" or (s["s"] == "filter" and c.get("made")) else []
            fns.append(lambda gen=gen, head=head: head + list(gen))
        return fns
    opc = c["level"] == "opcode"
    counts = sched.lengths(factory, opc)
    stride = 1
    total = sum(1 for _ in sched.plans(counts, c["bound"])) if c["bound"] < 3 else 0
    bound = c["bound"]
    if total > c.get("cap", 3000):       # too long for this bound: one preemption less, said in the evidence
        bound -= 1
        rec.skip("preemption bound reduced by one")
    for plan in [c["plan"]] if "plan" in c else sched.plans(counts, bound, stride):
        r = sched.Run(factory(), [tuple(p) for p in plan], opc)
        rec.case = dict(c, plan=plan)
        got = r.go()
        rec.step(sum(r.count))
        if r.free:
            rec.skip("the chosen thread was blocked by a lock of the library")
            if rec.skipped["the chosen thread was blocked by a lock of the library"] > 5:
                break
        compare(rec, specs, got, want, schedule=plan, level=c["level"])
        rec.state((repr(specs), repr(plan), c["level"]))
    rec.case = c
    rec.outcome(repr(want))


def check_predict(c, rec):
    n, kind = c["n"], c["kind"]
    x, d = dom.gen("sign" if kind in dom.SIGNED else "delay", 20, n)
    X, D = np.array(x), np.array(d)

    def fresh():
        f = dom.make(kind, n, dom.w0(n), dom.par_for(kind, dom.STABLE[kind][-1], n))
        k = 0
        for op in c["hist"]:
            if op[0] == "r":
                m = int(op[1:])
                f.run(D[k:k + m], X[k:k + m])
                k += m
            else:
                f.adapt(D[k], X[k])
                k += 1
        return f

    def rest(f):
        y, e, w = f.run(D[10:13], X[10:13])
        return [np.array(v) for v in (y, e, w, f.w)]
    A, B = X[6], X[7] * 3.
    f = fresh()
    want = [np.array(f.predict(A)), np.array(f.predict(B))]
    after = rest(fresh())

    def factory(f):
        return [lambda: np.array(f.predict(A)), lambda: np.array(f.predict(B))]
    counts = sched.lengths(lambda: factory(fresh()), True)
    for plan in [c["plan"]] if "plan" in c else sched.plans(counts, c["bound"]):
        f = fresh()
        r = sched.Run(factory(f), [tuple(p) for p in plan], True)
        rec.case = dict(c, plan=plan)
        got = r.go()
        rec.step(sum(r.count))
        for g, w in zip(got, want):
            if not dom.same(g, w):
                rec.fail("concurrent predict calls on one filter influence each other", schedule=plan, alone=w, got=g)
        for g, w in zip(rest(f), after):
            if not dom.same(g, w):
                rec.fail("concurrent predict calls change the filter", schedule=plan, without=w, got=g)
        rec.state((kind, n, repr(c["hist"]), repr(plan)))
    rec.case = c
    rec.outcome(repr(after))
