"""F02: outputs, errors and weight history of a run fit together and stay fixed."""
import itertools
import numpy as np
from mc import dom

PROP = "F02"
LEVEL = "model_checking"
RULE = ("every sequence of operations (runs of 0..3 samples, adapt, predict, pretrained_run, new weights) up to "
        "the depth on one filter; after every operation all arrays returned so far are compared with snapshots, "
        "and every run is checked for shape and internal consistency; long runs likewise")
ASSUMPTIONS = []
OPS = ["r0", "r1", "r2", "r3", "a", "p", "t4", "t3", "w"]


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        for ip in range(len(dom.STABLE[kind])):
            for n in (1, 2):
                yield {"t": "ops", "kind": kind, "ip": ip, "n": n, "depth": 4 if deep else 3}
            yield {"t": "long", "kind": kind, "ip": ip}


def cases(job):
    kind = job["kind"]
    if job["t"] == "ops":
        n = job["n"]
        par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
        for ops in itertools.product(OPS, repeat=job["depth"]):
            yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": "delay", "ops": list(ops)}
    else:
        for g in dom.GENS + ["small", "irr", "tiny", "sign", "scales"]:
            for n, N in ((1, 30), (2, 101), (3, 300), (8, 40), (17, 20), (33, 10), (70, 5), (2, 1030)):
                par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
                yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g,
                       "ops": ["r%d" % N, "r2", "a", "r3", "t9", "t%d" % min(N, 70)]}
                for rest in (["a", "a", "p", "a", "r1", "a"], ["p", "a", "t9"], ["w", "a", "p", "r3"], ["t9", "a"]):
                    yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g, "ops": ["r%d" % N] + rest}
                    yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g, "ops": ["r2", "t%d" % N, "r%d" % N] + rest}
        g = "irr"
        for n, N in ((2, 10500), (257, 12), (300, 6), (520, 5), (1030, 5), (40, 520)):
            if job["ip"] and N > 5000:
                continue
            par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
            for ops in (["r%d" % N, "r2", "a", "r3"], ["r1", "t%d" % N, "r%d" % N, "a", "w", "r2"]):
                yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "gen": g, "ops": ops}


def fits(rec, kind, n, op, out, dd, xx, first):
    """outputs, errors and weight rows of one run agree; first: weights before it or None"""
    m = len(dd)
    if len(out) != 3:
        rec.fail("y, e, w expected", op=op)
    y, e, W = out
    if np.shape(y) != (m,) or np.shape(e) != (m,) or np.shape(W) != (m, n):
        rec.fail("one item per sample expected", op=op, shapes=[np.shape(a) for a in out], samples=m)
    if m and first is not None and not np.array_equal(W[0], first, equal_nan=True):
        rec.fail("first row is not the weights before the call", op=op, got=W[0], want=first)
    if not dom.tame(W, y, e, lim=1e150):
        return
    sc = (np.abs(W * xx).sum(axis=1) + np.abs(dd)) * dom.EPS * 8 * (n + 2) + 1e-300
    if kind != "OCNLMS":
        bad = np.abs((W * xx).sum(axis=1) - y) > sc
        if bad.any():
            rec.fail("output is not weight row times input", op=op, k=int(np.argmax(bad)), y=y, W=W)
    bad = np.abs(dd - y - e) > sc + 8 * dom.EPS * np.abs(y)
    if bad.any():
        rec.fail("error is not target minus output", op=op, k=int(np.argmax(bad)), y=y, e=e)


def check_case(c, rec):
    kind, n = c["kind"], c["n"]
    f = dom.make(kind, n, c["w"], c["par"])
    need = sum(int(o[1:]) if o[0] in "rt" else 1 for o in c["ops"])
    x, d = dom.gen(c["gen"], need, n)
    X, D = np.array(x, dtype=float).reshape(-1, n), np.array(d, dtype=float)
    kept = []
    k = 0
    for op in c["ops"]:
        rec.step()
        w_before = np.array(f.w)
        if op[0] == "r":
            m = int(op[1:])
            out = f.run(D[k:k + m], X[k:k + m])
            fits(rec, kind, n, op, out, D[k:k + m], X[k:k + m], w_before)
            if m == 0 and not np.array_equal(f.w, w_before, equal_nan=True):
                rec.fail("run without samples changed the weights")
            k += m
        elif op[0] == "t":      # t3: one sample is left for the test
            m = int(op[1:])
            out = f.pretrained_run(D[k:k + m], X[k:k + m], ntrain=.75 if m == 3 else .5, epochs=2)
            cut = 2 if m == 3 else m // 2
            fits(rec, kind, n, op, out, D[k + cut:k + m], X[k + cut:k + m], None)
            k += m
        elif op == "a":
            f.adapt(D[k], X[k])
            out = ()
            k += 1
        elif op == "p":
            out = (f.predict(X[k]),)
            k += 1
        else:       # weights set from outside, as documented: filter.w
            f.w = np.array(dom.w0(n))[::-1].copy()
            out = ()
            k += 1
        for arrs, snaps, when in kept:
            for a, s in zip(arrs, snaps):
                if np.asarray(a).tobytes() != s:
                    rec.fail("a later %s changed results returned by %s" % (op, when))
        kept.append((out, [np.asarray(a).tobytes() for a in out], op))
        rec.state((kind, tuple(c["ops"]), len(kept), np.array(f.w).tobytes()))
    rec.outcome(np.array(f.w).tobytes())
