"""F09: every way to create a filter gives the same filter."""
import itertools
import numpy as np
from mc import dom

PROP = "F09"
LEVEL = "model_checking"
RULE = ("every letter-case variant of every model name (all of them for names up to 6 letters), every name one edit "
        "away, every subset of omitted parameters, through every factory; the created filters are run through the "
        "same histories and must behave identically; a state is (factory, name, parameters, final weights)")
ASSUMPTIONS = []
DEFAULTS = {
    "LMS": {"mu": .01}, "LMF": {"mu": .01}, "SSLMS": {"mu": .01},
    "NLMS": {"mu": .1, "eps": .001}, "NLMF": {"mu": .1, "eps": .001}, "NSSLMS": {"mu": .1, "eps": .001},
    "RLS": {"mu": .1, "eps": .001}, "GMCC": {"mu": .01, "lambd": .03, "alpha": 2},
    "Llncosh": {"mu": .01, "lambd": 3}, "GNGD": {"mu": 1., "eps": 1., "ro": .1},
    "VSLMS_Mathews": {"mu": 1., "ro": .1}, "VSLMS_Benveniste": {"mu": 1., "ro": .1},
    "VSLMS_Ang": {"mu": 1., "ro": .0002, "a": .95}, "AP": {"mu": .01, "order": 5, "ifc": .001},
    "OCNLMS": {"mu": .1, "eps": 1., "mem": 100}}
OTHER = {"mu": .0625, "eps": .375, "lambd": .25, "alpha": 3, "ro": .03125, "a": .5, "order": 2, "ifc": .5, "mem": 7}
# more values of single parameters: the defaults of other filters, special and extreme ones
MORE = {"mu": [0, 0., 1, 1., .01, .1, .5, .9, -.125, 1e-3, 2.], "eps": [0.001, .01, 1, 1., 2., 1e-6, 100.],
        "lambd": [.01, .02, .03, .1, 1, 3, 3., 10.], "alpha": [1, 1.5, 2, 2., 4, 6], "ro": [0, 0., .0002, .1, .5, 1., -.1],
        "a": [0, .1, .95, .99, 1.], "order": [1, 2, 3, 4, 5, 6, 8, 12], "ifc": [.001, .01, .1, 1, 5.],
        "mem": [1, 2, 5, 10, 99, 100, 101, 128]}
ORDER = {"GMCC": ["mu", "lambd", "alpha"], "Llncosh": ["mu", "lambd"], "GNGD": ["mu", "eps", "ro"],
         "NLMS": ["mu", "eps"], "NLMF": ["mu", "eps"], "NSSLMS": ["mu", "eps"], "RLS": ["mu", "eps"],
         "OCNLMS": ["mu", "eps", "mem"], "VSLMS_Mathews": ["mu", "ro"], "VSLMS_Benveniste": ["mu", "ro"],
         "VSLMS_Ang": ["mu", "ro", "a"], "LMS": ["mu"], "LMF": ["mu"], "SSLMS": ["mu"], "AP": ["mu"]}
UPPER = [k.upper() for k in dom.KINDS]


def variants(name, deep):
    if len(name) <= (16 if deep else 7):
        for bits in itertools.product((0, 1), repeat=len(name)):
            v = "".join(c.upper() if b else c.lower() for c, b in zip(name, bits))
            yield v
    else:
        yield name
        yield name.upper()
        yield name.lower()
        yield name.swapcase()
        yield name.title()
        for i in range(len(name)):
            yield name.lower()[:i] + name[i].upper() + name.lower()[i + 1:]
            yield name.upper()[:i] + name[i].lower() + name.upper()[i + 1:]


def wrong(name):
    out = set()
    for i in range(len(name)):
        out.add(name[:i] + name[i + 1:])
        for c in "SNxVM_ -":
            out.add(name[:i] + c + name[i + 1:])
    for i in range(len(name) + 1):
        for c in "SNxVM_ 2":
            out.add(name[:i] + c + name[i:])
    out.add(name + "\n")
    out.add("Filter" + name)
    out.add(name[::-1])
    return sorted(v for v in out if v.upper() not in UPPER)


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        yield {"t": "names", "kind": kind, "deep": deep}
        yield {"t": "wrong", "kind": kind}
        yield {"t": "defaults", "kind": kind}
        yield {"t": "data", "kind": kind}
    yield {"t": "misc"}


def cases(job):
    t, kind = job["t"], job.get("kind")
    if t == "names":
        for v in dict.fromkeys(variants(kind, job["deep"])):
            yield {"t": t, "kind": kind, "name": v}
    elif t == "wrong":
        for v in wrong(kind) + wrong(kind.lower()):
            yield {"t": t, "name": v}
    elif t == "defaults":
        keys = list(DEFAULTS[kind])
        for r in range(len(keys) + 1):
            for given in itertools.combinations(keys, r):
                for n in (1, 2, 5):
                    for w in (None, "random", "zeros", dom.w0(n)):
                        yield {"t": t, "kind": kind, "given": {k: OTHER[k] for k in given}, "n": n, "w": w}
        for k in keys:
            for v in MORE[k]:
                if kind == "RLS" and k == "mu" and v <= 0:
                    continue        # the forgetting factor divides
                for n in (1, 3, 4):
                    yield {"t": t, "kind": kind, "given": {k: v}, "n": n, "w": dom.w0(n)}
                    yield {"t": t, "kind": kind, "given": dict({q: OTHER[q] for q in keys}, **{k: v}), "n": n, "w": dom.w0(n)}
    elif t == "data":
        for width in (1, 2, 3, 5):
            for n in (None, 1, 2, 3, 4, 7, 0, -1):
                for N in (1, 2, 6, 30):
                    for par in ({}, {k: OTHER[k] for k in DEFAULTS[kind]}):
                        yield {"t": t, "kind": kind, "width": width, "n": n, "N": N, "par": par}
        for k in DEFAULTS[kind]:
            for v in MORE[k]:
                if not (kind == "RLS" and k == "mu" and v <= 0):
                    for par in ({k: v}, dict({q: OTHER[q] for q in DEFAULTS[kind]}, **{k: v})):
                        yield {"t": t, "kind": kind, "width": 2, "n": None, "N": 6, "par": par}
    else:
        for i in range(6):
            yield {"t": t, "i": i}


def behave(f, kind):
    """observations of a filter over a history longer than any default memory"""
    n = len(f.w)
    out = [np.array(f.w, dtype=float)]
    for g, N in (("sign", 5), ("irr", 130)):
        x, d = dom.gen(g, N, n)
        X, D = np.array(x, dtype=float), np.array(d, dtype=float)
        out += [np.array(o) for o in f.run(D, X)]
        out.append(np.array(f.predict(X[0])))
        f.adapt(D[0], X[0])
        out.append(np.array(f.w))
    return out


def equal(rec, a, b, what):
    if len(a) != len(b) or not all(dom.same(p, q, 1e-10) for p, q in zip(a, b)):
        rec.fail(what)


def raises(rec, fn, what, exc=ValueError):
    try:
        fn()
    except exc:
        return
    except Exception as ex:
        rec.fail("%s raises %s instead of %s" % (what, type(ex).__name__, exc.__name__))
    rec.fail("%s is accepted" % what)


def check_case(c, rec):
    import padasip as pa
    fl = pa.filters
    t = c["t"]
    if t == "names":
        kind, v = c["kind"], c["name"]
        n = 2
        par = {k: OTHER[k] for k in DEFAULTS[kind]}
        want = behave(dom.cls(kind)(n, w=dom.w0(n), **par), kind)
        for how, f in (("AdaptiveFilter", fl.AdaptiveFilter(v, n=n, w=dom.w0(n), **par)),
                       ("AdaptiveFilter(model=)", fl.AdaptiveFilter(model=v, n=n, w=dom.w0(n), **par)),
                       ("get_filter", fl.get_filter(v)(n=n, w=dom.w0(n), **par))):
            equal(rec, behave(f, kind), want, "%s(%r) behaves differently from Filter%s" % (how, v, kind))
            rec.step()
        x, d = dom.gen("irr", 20, n)
        X, D = np.array(x), np.array(d)
        equal(rec, fl.filter_data(D, X, v, w=dom.w0(n), **par), dom.cls(kind)(n, w=dom.w0(n), **par).run(D, X),
              "filter_data(model=%r) differs from Filter%s" % (v, kind))
        rec.state((kind, v, want[-1].tobytes()))
        rec.outcome(want[-1].tobytes())
    elif t == "wrong":
        v = c["name"]
        X, D = np.ones((3, 2)), np.ones(3)
        raises(rec, lambda: fl.AdaptiveFilter(v, n=2), "AdaptiveFilter(%r)" % v)
        raises(rec, lambda: fl.get_filter(v), "get_filter(%r)" % v)
        raises(rec, lambda: fl.filter_data(D, X, v), "filter_data(model=%r)" % v)
        rec.step(3)
        rec.state(v)
        rec.outcome("refused")
    elif t == "defaults":
        kind, n, given = c["kind"], c["n"], c["given"]
        full = dict(DEFAULTS[kind], **given)
        w = {} if c["w"] is None else {"w": c["w"]}
        seed = 77

        def created(fn):
            np.random.seed(seed)
            return behave(fn(), kind)
        want = created(lambda: dom.cls(kind)(n=n, w="random" if c["w"] is None else c["w"], **full))
        ways = [("class", lambda: dom.cls(kind)(n, **dict(w, **given))),
                ("class(n=)", lambda: dom.cls(kind)(n=n, **dict(w, **given))),
                ("AdaptiveFilter", lambda: fl.AdaptiveFilter(kind, n=n, **dict(w, **given))),
                ("get_filter", lambda: fl.get_filter(kind)(n, **dict(w, **given)))]
        pos = ORDER[kind][:len([k for k in ORDER[kind] if k in given])]
        if pos and all(k in given for k in pos):
            rest = {k: v for k, v in given.items() if k not in pos}
            ways.append(("class, positional", lambda: dom.cls(kind)(n, *[given[k] for k in pos], **dict(w, **rest))))
        for how, fn in ways:
            rec.step()
            equal(rec, created(fn), want, "%s with %r given (w=%r) does not behave as with the published defaults"
                  % (how, given, c["w"]))
        rec.state((kind, n, repr(given), repr(c["w"]), want[-1].tobytes()))
        rec.outcome(want[-1].tobytes())
    elif t == "data":
        kind, width, N = c["kind"], c["width"], c["N"]
        x, d = dom.gen("irr", N, width)
        X, D = np.array(x), np.array(d)
        kw = dict(c["par"], w=dom.w0(width))
        if c["n"] is not None:
            kw["n"] = c["n"]
        got = fl.filter_data(D, X, model=kind, **kw)
        want = dom.cls(kind)(width, w=dom.w0(width), **c["par"]).run(D, X)
        equal(rec, got, want, "filter_data differs from create and run")
        np.random.seed(5)
        got = fl.filter_data(D, X, kind, **c["par"])
        np.random.seed(5)
        want = dom.cls(kind)(width, **c["par"]).run(D, X)
        equal(rec, got, want, "filter_data without weights differs from create and run")
        rec.step(2)
        rec.state((kind, width, c["n"], N, np.array(want[2]).tobytes()))
        rec.outcome(np.array(want[0]).tobytes())
    else:
        i = c["i"]
        X, D = np.ones((3, 2)), np.ones(3)
        if i == 0:
            for kind in [None] + dom.KINDS:
                for kw in ({}, {"mu": .1}, {"w": "zeros"}, {"N": 3}):
                    if kind is None:
                        raises(rec, lambda: fl.AdaptiveFilter(**kw), "AdaptiveFilter without n")
                    else:
                        raises(rec, lambda: fl.AdaptiveFilter(kind, **kw), "AdaptiveFilter(%s) without n" % kind)
        elif i == 1:
            f = fl.AdaptiveFilter(n=3, w="zeros")
            equal(rec, behave(f, "LMS"), behave(fl.FilterLMS(3, w="zeros"), "LMS"), "default model is not LMS")
        elif i == 2:
            equal(rec, fl.filter_data(D, X, w="zeros"), fl.FilterLMS(2, w="zeros").run(D, X),
                  "default model of filter_data is not LMS")
        elif i == 3:
            for kind in dom.KINDS:
                if fl.get_filter(kind) is not dom.cls(kind):
                    rec.fail("get_filter does not return the class", kind=kind)
        elif i == 4:
            for bad in ("", " ", "lms ", " lms", "LMS\0", "all", "None", "ALMS", "kalman"):
                raises(rec, lambda: fl.get_filter(bad), "get_filter(%r)" % bad)
                raises(rec, lambda: fl.AdaptiveFilter(bad, n=2), "AdaptiveFilter(%r)" % bad)
                raises(rec, lambda: fl.filter_data(D, X, bad), "filter_data(%r)" % bad)
        else:       # one factory call after another with the same keyword dictionary
            for kind in dom.KINDS:
                kw = {"n": 2, "w": "zeros"}
                a = fl.AdaptiveFilter(kind, **kw)
                b = fl.AdaptiveFilter(kind, **kw)
                if a is b or kw != {"n": 2, "w": "zeros"}:
                    rec.fail("factory keeps something between calls", kind=kind)
                a.run(D, X)
                equal(rec, behave(b, kind), behave(dom.cls(kind)(2, w="zeros"), kind), "second filter of a factory differs")
        rec.step()
        rec.state(("misc", i))
