"""G09: a call that is interrupted at any point leaves everything else as it was, and its object usable."""
import os
import sys
import numpy as np
from mc import core, dom, mlp, surface
from mc.checks import d04, g04, g07

PROP = "G09"
LEVEL = "fault_enumeration"
CASE_LIMIT = 60
RULE = ("every line of the library that a call executes is a point of interruption: for every scenario the call is repeated "
        "and stopped there by KeyboardInterrupt and by MemoryError; afterwards arguments, other objects, process-wide state, the retried call, "
        "weights and further use of the interrupted object are judged; non-trivial = distinct (scenario, point, exception)")
ASSUMPTIONS = ["points between lines of padasip only (a NumPy or SciPy call either happens or not)",
               "the memory of an interrupted filter beyond its weights (past samples, step size) is not judged"]
STOPS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Stop:
    """raise an exception before the k-th line of padasip (k = 0: only count)"""

    def __init__(self, k, exc):
        self.k, self.exc, self.n = k, exc, 0
        self.top = os.path.join(os.path.realpath(core.REPO), "padasip") + os.sep
        self.where = None

    def trace(self, frame, event, arg):
        if not os.path.realpath(frame.f_code.co_filename).startswith(self.top):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k:
                self.where = "%s:%d" % (os.path.relpath(frame.f_code.co_filename, core.REPO), frame.f_lineno)
                raise self.exc("stopped")
        return self.line

    def __call__(self, fn):
        """-> (True, result) or (False, exception)"""
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            out = fn()
        except core.Violation:
            raise
        except BaseException as ex:
            return False, ex
        finally:
            sys.settrace(old)
        return True, out


# extremes are fitted in these
EXTREMES = [{"s": "ese", "gen": "burst", "N": 16, "n": 2, "win": 10, "pot": "30%"}, {"s": "ese", "gen": "mix", "N": 26, "n": 1, "win": 10, "pot": "sqrt"}]
FOPS = ["r3", "a", "p", "t4", "r0"]
NOPS = ["t2", "s2", "e2", "r2", "p", "u"]


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        yield {"t": "filter", "kind": kind, "deep": deep}
    for ia in (1, 3, 4, 6, 8, 12)[:6 if deep else 5]:
        yield {"t": "net", "ia": ia, "deep": deep}
    for s in ("le", "elbnd", "ese", "std", "hist", "pca", "lda", "err", "filter_data", "factory"):
        yield {"t": "fn", "s": s, "deep": deep}
    yield {"t": "create", "deep": deep}


def cases(job):
    t = job["t"]
    if t == "filter":
        for ip in range(len(dom.STABLE[job["kind"]])) if job["deep"] else (0, -1):
            for n in (1, 3):
                par = dom.par_for(job["kind"], dom.STABLE[job["kind"]][ip], n)
                for pre in ([], ["r2"], ["a", "r3"]) + ((["r3", "t4", "a"],) if job["deep"] else ()):
                    for op in FOPS:
                        for exc in STOPS:
                            yield {"t": t, "kind": job["kind"], "par": par, "n": n, "pre": pre, "op": op, "exc": exc}
    elif t == "net":
        for act in ("sigmoid", "tanh"):
            for pre in (["p"], ["t2"], ["p", "u", "p"]):
                for op in NOPS:
                    for exc in STOPS:
                        yield {"t": t, "arch": mlp.ARCHS[job["ia"]], "act": act, "pre": pre, "op": op, "exc": exc}
    elif t == "fn":
        specs = surface.factories(("small",)) if job["s"] in ("filter_data", "factory") else surface.functions(("mix",))
        for spec in list(specs) + (EXTREMES if job["s"] == "ese" else []):
            if spec["s"] == job["s"] and spec.get("N", 0) <= (12 if not job["deep"] else 40) + (14 if spec["s"] == "ese" else 0):
                for exc in STOPS:
                    yield {"t": t, "spec": spec, "exc": exc}
    else:
        for exc in STOPS:
            for kind in dom.KINDS:
                yield {"t": t, "kind": kind, "exc": exc}
            for arch in mlp.ARCHS[:4]:
                yield {"t": t, "arch": arch, "exc": exc}


def basket():
    """small scenarios of every part of the library"""
    out = [s for s in surface.filters(("small",), sizes=(2,), opsets=[["r2", "a", "p"]])]
    out += list(surface.networks(archs=mlp.ARCHS[1:2], opsets=[["p", "u", "t2"]], mus=(.0625,)))
    for s in surface.functions(("mix",)):
        if s["s"] not in [q["s"] for q in out]:
            out.append(s)
    return out + EXTREMES[:1]


_basket = []


def undisturbed():
    """the results of the basket, before anything was ever interrupted in this process"""
    if not _basket:
        for s in basket():
            _basket.append((s, surface.run(s)))


def everything_else(rec, c, what):
    for s, want in _basket:
        got = surface.run(s)
        if not g04.same(s, want, got):
            rec.fail("after an interrupted call another one gives other results", interrupted=what, spec=s, got=got, want=want)


def look():
    return g07.look()


def arrives(rec, c, done, res, what):
    """Ctrl-C reaches the caller as such"""
    if not done and c["exc"] == "KeyboardInterrupt" and not isinstance(res, KeyboardInterrupt):
        rec.fail("the interruption reaches the caller as another exception", interrupted=what, got=repr(res))


def feed(f, op, X, D, pos):
    m = int(op[1:]) if len(op) > 1 else 1
    x, d = X[pos:pos + m], D[pos:pos + m]
    if op[0] == "r":
        return lambda: f.run(d, x)
    if op[0] == "t":
        return lambda: f.pretrained_run(d, x, ntrain=.5, epochs=2)
    if op == "a":
        return lambda: f.adapt(D[pos], X[pos])
    return lambda: f.predict(X[pos])


def check_filter(c, rec):
    from mc.checks import f02
    kind, n, op = c["kind"], c["n"], c["op"]
    x, d = dom.gen("sign" if kind in dom.SIGNED else "small", 40, n)
    X, D = np.array(x), np.array(d)

    def fresh():
        f = dom.make(kind, n, dom.w0(n), c["par"])
        pos = 0
        for o in c["pre"]:
            feed(f, o, X, D, pos)()
            pos += int(o[1:]) if len(o) > 1 else 1
        return f, pos
    # weights after every whole number of samples
    f, pos = fresh()
    m = int(op[1:]) if len(op) > 1 else 1
    order = [] if op == "p" else list(range(pos, pos + m))
    if op[0] == "t":
        order = order[:2] * 2 + order[2:]
    whole = [np.array(f.w)]
    for k in order:
        f.adapt(D[k], X[k])
        whole.append(np.array(f.w))
    f, pos = fresh()
    count = Stop(0, None)
    ok, want = count(feed(f, op, X, D, pos))
    if not ok:
        rec.fail("call fails", op=op, error=repr(want))
    want = surface.freeze(want)
    twin, _ = fresh()
    twin_next = [np.array(o) for o in twin.run(D[20:24], X[20:24])]
    k = 0
    while True:
        k += 1
        f, pos = fresh()
        other, _ = fresh()
        XX, DD = X.copy(), D.copy()
        before = look()
        stop = Stop(k, STOPS[c["exc"]])
        call = feed(f, op, XX, DD, pos)
        done, res = stop(call)
        if stop.where is None:
            break
        rec.step()
        what = "%s of %s stopped by %s at %s" % (op, kind, c["exc"], stop.where)
        arrives(rec, c, done, res, what)
        now = look()
        if now != before:
            rec.fail("process-wide state changed", interrupted=what, change=[q for q in now if now[q] != before[q]])
        if XX.tobytes() != X.tobytes() or DD.tobytes() != D.tobytes():
            rec.fail("arguments changed", interrupted=what)
        w = np.array(f.w, dtype=float)
        if done and not surface.close([surface.freeze(res)], [want]):
            rec.fail("the interruption is swallowed and other results are returned", interrupted=what, got=res, want=want)
        if w.shape != (n,) or not any(dom.same(w, v) for v in whole):
            rec.fail("weights are not those after a whole number of samples", interrupted=what, got=w, want=whole)
        o = [np.array(q) for q in other.run(D[20:24], X[20:24])]
        if not all(dom.same(p, q) for p, q in zip(o, twin_next)):
            rec.fail("another filter is influenced", interrupted=what, got=o, want=twin_next)
        w = np.array(f.w)
        out = f.run(D[24:28], X[24:28])
        f02.fits(rec, kind, n, "run after an interruption: " + what, out, D[24:28], X[24:28], w)
        f.adapt(D[28], X[28])
        rec.state((kind, repr(c["par"]), n, tuple(c["pre"]), op, k, c["exc"]))
    if k - 1 != count.n:
        rec.skip("points differ from run to run")
    everything_else(rec, c, what if k > 1 else "")
    rec.outcome((kind, op, k))


def check_net(c, rec):
    layers, n_in, outs = c["arch"]
    X, D = mlp.data(n_in, outs, 30)
    op = c["op"]

    def act(nn, o, X, D, pos):
        m = int(o[1:]) if len(o) > 1 else 1
        x, d = X[pos:pos + m], D[pos:pos + m]
        if o[0] in "ts":
            return lambda: nn.train(x, d, epochs=2, shuffle=o[0] == "s")
        if o[0] == "e":
            return lambda: nn.test(x, d)
        if o[0] == "r":
            return lambda: nn.run(x)
        if o == "p":
            return lambda: nn.predict(X[pos])
        return lambda: nn.update(D[pos])

    def fresh():
        nn = mlp.make(layers, n_in, outs, c["act"], .125, 5)
        pos = 0
        for o in c["pre"]:
            act(nn, o, X, D, pos)()
            pos += int(o[1:]) if len(o) > 1 else 0
        return nn, pos
    nn, pos = fresh()
    whole = [mlp.weights(nn)]
    np.random.seed(9)
    if op[0] in "ts":
        idx = np.arange(pos, pos + int(op[1:]))
        for _ in range(2):
            if op[0] == "s":
                r = np.arange(len(idx))
                np.random.shuffle(r)
                idx = idx[r]
            for k in idx:
                nn.predict(X[k])
                nn.update(D[k])
                whole.append(mlp.weights(nn))
    elif op == "u":
        nn.update(D[pos])
        whole.append(mlp.weights(nn))
    nn, pos = fresh()
    np.random.seed(9)
    count = Stop(0, None)
    ok, want = count(act(nn, op, X, D, pos))
    if not ok:
        rec.fail("call fails", op=op, error=repr(want))
    want = surface.freeze(want)
    final = mlp.weights(nn)
    if op[0] in "tsu" and not all(dom.same(p, q) for p, q in zip(final, whole[-1])):
        rec.skip("another way to shuffle")
        return
    twin, _ = fresh()
    twin_next = twin.run(X[20:24])
    k = 0
    while True:
        k += 1
        nn, pos = fresh()
        other, _ = fresh()
        XX, DD = X.copy(), D.copy()
        np.random.seed(9)
        before = look()
        stop = Stop(k, STOPS[c["exc"]])
        done, res = stop(act(nn, op, XX, DD, pos))
        if stop.where is None:
            break
        rec.step()
        what = "%s of a network stopped by %s at %s" % (op, c["exc"], stop.where)
        arrives(rec, c, done, res, what)
        now = look()
        if now != before:
            rec.fail("process-wide state changed", interrupted=what, change=[q for q in now if now[q] != before[q]])
        if XX.tobytes() != X.tobytes() or DD.tobytes() != D.tobytes():
            rec.fail("arguments changed", interrupted=what)
        if done and not surface.close([surface.freeze(res)], [want]):
            rec.fail("the interruption is swallowed and other results are returned", interrupted=what, got=res, want=want)
        for i, w in enumerate(mlp.weights(nn)):
            if not any(dom.same(w, v[i]) for v in whole):
                rec.fail("weights of a layer are not those after a whole number of samples", interrupted=what, layer=i, got=w)
        if not dom.same(other.run(X[20:24]), twin_next):
            rec.fail("another network is influenced", interrupted=what)
        W = mlp.weights(nn)
        y = nn.run(X[24:28])
        f = [mlp.forward(W, X[j], c["act"])[0] for j in range(24, 28)]
        if not dom.same(np.array(y).reshape(4, -1), np.array(f), 1e-9):
            rec.fail("the network does not predict any more", interrupted=what, got=y, want=f)
        nn.predict(X[28])
        nn.update(D[28])
        nn.train(X[:3], D[:3], epochs=1)
        rec.state((repr(c["arch"]), c["act"], tuple(c["pre"]), op, k, c["exc"]))
    everything_else(rec, c, what if k > 1 else "")
    rec.outcome((repr(c["arch"]), op, k))


def check_fn(c, rec):
    spec = c["spec"]
    want = surface.run(spec)
    k = 0
    what = ""
    while True:
        k += 1
        args = []

        class Keep(surface.Call):
            """remembers the arguments as they were given"""

            def prepare(self, role, value):
                v = super().prepare(role, value)
                if isinstance(v, np.ndarray):
                    args.append((v, v.tobytes()))
                return v
        before = look()
        stop = Stop(k, STOPS[c["exc"]])
        done, res = stop(lambda: surface.run(spec, Keep()))
        if stop.where is None:
            break
        rec.step()
        what = "%r stopped by %s at %s" % (spec, c["exc"], stop.where)
        arrives(rec, c, done, res, what)
        now = look()
        if now != before:
            rec.fail("process-wide state changed", interrupted=what, change=[q for q in now if now[q] != before[q]])
        if any(a.tobytes() != b for a, b in args):
            rec.fail("arguments changed", interrupted=what)
        if done and not g04.same(spec, want, res):
            rec.fail("the interruption is swallowed and other results are returned", interrupted=what, got=res, want=want)
        again = surface.run(spec)
        if not g04.same(spec, want, again):
            rec.fail("the call gives other results after it was interrupted", interrupted=what, got=again, want=want)
        rec.state((repr(spec), k, c["exc"]))
    everything_else(rec, c, what)
    rec.outcome((repr(spec), k))


def check_create(c, rec):
    kind = c.get("kind")

    def make():
        return dom.cls(kind)(3, w="zeros") if kind else mlp.make(*c["arch"], "tanh", .125, 5)

    def behave(o):
        if kind:
            x, d = dom.gen("small", 6, 3)
            return [np.array(q) for q in o.run(np.array(d), np.array(x))]
        X, D = mlp.data(c["arch"][1], c["arch"][2], 6)
        return [np.array(q) for q in o.train(X, D, epochs=2)]
    want = behave(make())
    k = 0
    what = ""
    while True:
        k += 1
        before = look()
        stop = Stop(k, STOPS[c["exc"]])
        done, res = stop(make)
        if stop.where is None:
            break
        rec.step()
        what = "creation of %r stopped by %s at %s" % (kind or c["arch"], c["exc"], stop.where)
        arrives(rec, c, done, res, what)
        if look() != before:
            rec.fail("process-wide state changed", interrupted=what)
        for o in [make()] + ([res] if done else []):
            if not all(dom.same(p, q) for p, q in zip(behave(o), want)):
                rec.fail("an object behaves differently after an interrupted creation", interrupted=what)
        rec.state((repr(c), k))
    everything_else(rec, c, what)
    rec.outcome(k)


def check_case(c, rec):
    d04.cache_fit()
    np.seterr(all="warn" if c["exc"] == "MemoryError" else "ignore")
    undisturbed()
    {"filter": check_filter, "net": check_net, "fn": check_fn, "create": check_create}[c["t"]](c, rec)
