"""F14: a copy (deep copy or pickled) of a filter continues identically and independently."""
import copy
import pickle
import itertools
import numpy as np
from mc import dom

PROP = "F14"
LEVEL = "model_checking"
RULE = ("every history of up to 3 operations before the copy is taken (deep copies, copies of copies, pickles of all protocols), and every interleaving of operations on the "
        "original and the copy after it, compared with filters that were never copied")
ASSUMPTIONS = []
OPS = ["r1", "r2", "a", "p", "t"]


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        for ip in range(len(dom.STABLE[kind])):
            for n in (1, 2):
                yield {"kind": kind, "ip": ip, "n": n, "deep": deep, "t": "short"}
            yield {"kind": kind, "ip": ip, "t": "long"}


def cases(job):
    kind = job["kind"]
    g = "sign" if kind in dom.SIGNED else "delay"
    if job["t"] == "short":
        n = job["n"]
        par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
        pres = [p for L in range(3 if not job["deep"] else 4) for p in itertools.product(OPS[:4], repeat=L)]
        posts = list(itertools.product([(o, q) for o in (0, 1) for q in (("r2", "a") if not job["deep"] else ("r1", "a", "t"))],
                                       repeat=3))
        for pre in pres:
            yield {"kind": kind, "par": par, "n": n, "gen": g, "pre": list(pre), "posts": posts}
    else:
        for n, pre in ((2, 101), (3, 20), (17, 5), (33, 3), (65, 3), (129, 2), (2, 260), (2, 520)):
            par = dom.par_for(kind, dom.STABLE[kind][job["ip"]], n)
            yield {"kind": kind, "par": par, "n": n, "gen": g, "pre": ["r%d" % pre],
                   "posts": [[(0, "r2"), (1, "r2"), (0, "a"), (1, "a")]] + [] if n > 60 else
                   [[(0, "r2"), (1, "r2"), (0, "a"), (1, "a")], [(0, "r60"), (1, "r60"), (0, "r60"), (1, "r60")],
                             [(1, "r60"), (1, "a"), (0, "r60")]]}


def do(f, op, X, D, pos):
    if op[0] == "r":
        m = int(op[1:])
        return [np.array(o) for o in f.run(D[pos:pos + m], X[pos:pos + m])] + [np.array(f.w)], pos + m
    if op == "a":
        f.adapt(D[pos], X[pos])
        return [np.array(f.w)], pos + 1
    if op == "p":
        return [np.array(f.predict(X[pos]))], pos
    return [np.array(o) for o in f.pretrained_run(D[pos:pos + 2], X[pos:pos + 2])] + [np.array(f.w)], pos + 2


def check_case(c, rec):
    n = c["n"]
    x, d = dom.gen(c["gen"], 760, n)
    X, D = np.array(x), np.array(d)
    # the copy is fed data of its own after the same first results are compared
    X2, D2 = X[::-1].copy(), D[::-1].copy()

    def fresh():
        f = dom.make(c["kind"], n, dom.w0(n), c["par"])
        pos = 0
        for op in c["pre"]:
            _, pos = do(f, op, X, D, pos)
        return f, pos
    alone = {}

    def expected(who, ops):
        key = (who, ops)
        if key not in alone:
            f, pos = fresh()
            out = []
            for op in ops:
                o, pos = do(f, op, (X, X2)[who], (D, D2)[who], pos)
                out.append(o)
            alone[key] = out
        return alone[key]
    # identical continuation
    a, pos = fresh()
    copies = {"copy": copy.deepcopy(a), "copy of a copy": copy.deepcopy(copy.deepcopy(a)),
              "copy in a list": copy.deepcopy([a, {"f": a}])[1]["f"]}
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        copies["pickled copy (protocol %d)" % proto] = pickle.loads(pickle.dumps(a, proto))
    copies["saved copy of a copy"] = pickle.loads(pickle.dumps(copy.deepcopy(a)))
    for op in ("r2", "a", "p", "r1"):
        start = pos
        oa, pos = do(a, op, X, D, start)
        for what, b in copies.items():
            ob, _ = do(b, op, X, D, start)
            rec.step()
            if not all(dom.same(p, q) for p, q in zip(oa, ob)):
                rec.fail("the %s continues differently" % what, op=op, original=oa, copy=ob)
    for what, b in copies.items():
        if b.n != a.n or type(b) is not type(a):
            rec.fail("the %s is another filter" % what)
    # independence, every interleaving
    for i, post in enumerate(c["posts"]):
        f, pos = fresh()
        pair = [f, pickle.loads(pickle.dumps(f)) if i % 2 else copy.deepcopy(f)]
        at = [pos, pos]
        outs = [[], []]
        for who, op in post:
            o, at[who] = do(pair[who], op, (X, X2)[who], (D, D2)[who], at[who])
            outs[who].append(o)
            rec.step()
        for who in (0, 1):
            want = expected(who, tuple(op for w, op in post if w == who))
            for o, q in zip(outs[who], want):
                if not all(dom.same(s, t) for s, t in zip(o, q)):
                    rec.fail("%s is influenced by the other one" % ("original", "copy")[who], post=post, got=o, want=q)
        rec.state((c["kind"], n, tuple(c["pre"]), repr(post), np.array(f.w).tobytes()))
    rec.outcome(np.array(f.w).tobytes())
