"""N05: a copy (deep copy or pickled) of a network continues identically and independently."""
import copy
import itertools
import pickle
import numpy as np
from mc import dom, mlp

PROP = "N05"
LEVEL = "model_checking"
RULE = ("every history of up to 3 calls before the copy is taken (deep copies, copies of copies, pickles of all protocols), "
        "also between predict and update, and every interleaving of calls on the original and the copy after it, compared "
        "with networks that were never copied")
ASSUMPTIONS = []
PRE = ["p", "u", "t2", "s3", "r2", "e2"]
POST = ["p", "u", "t2"]


def jobs(tier):
    deep = tier == "thorough"
    for ia in range(len(mlp.ARCHS)):
        for act in ("sigmoid", "tanh"):
            yield {"ia": ia, "act": act, "deep": deep}


def cases(job):
    deep = job["deep"]
    small = job["ia"] < 9
    for mu in ("auto", .125):
        for L in range(4 if deep and small else 3 if small else 2):
            for pre in itertools.product(PRE, repeat=L):
                yield {"arch": mlp.ARCHS[job["ia"]], "act": job["act"], "mu": mu, "pre": ["p"] + list(pre),     # an update needs a prediction
                       "depth": 3 if (L < 2 or deep) and small else 2}
        yield {"arch": mlp.ARCHS[job["ia"]], "act": job["act"], "mu": mu, "pre": ["t100", "p"], "depth": 2}


def do(nn, op, X, D, pos):
    """-> observations, next position; an update follows the last prediction"""
    if op[0] == "p":
        out, pos = nn.predict(X[pos]), pos + 1
    elif op[0] == "u":
        out = nn.update(D[pos])
    else:
        m = int(op[1:])
        if op[0] in "ts":
            np.random.seed(pos)
            out = nn.train(X[pos:pos + m], D[pos:pos + m], epochs=2, shuffle=op[0] == "s")
        elif op[0] == "r":
            out = (nn.run(X[pos:pos + m]),)
        else:
            out = (nn.test(X[pos:pos + m], D[pos:pos + m]),)
        pos += m
        return [np.array(o) for o in out] + mlp.weights(nn), pos
    return [np.array(out)] + mlp.weights(nn), pos


def same(a, b):
    return len(a) == len(b) and all(dom.same(p, q) for p, q in zip(a, b))


def check_case(c, rec):
    layers, n_in, outs = c["arch"]
    X, D = mlp.data(n_in, outs, 130)
    X2, D2 = X[::-1].copy(), D[::-1].copy()

    def fresh():
        nn = mlp.make(layers, n_in, outs, c["act"], c["mu"], 5)
        pos = 0
        for op in c["pre"]:
            _, pos = do(nn, op, X, D, pos)
        return nn, pos
    a, pos = fresh()
    if not all(dom.tame(w) for w in mlp.weights(a)):
        rec.skip("diverges")
        return
    copies = {"copy": copy.deepcopy(a), "copy of a copy": copy.deepcopy(copy.deepcopy(a)), "copy in a list": copy.deepcopy([a, {"f": a}])[1]["f"]}
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        copies["pickled copy (protocol %d)" % proto] = pickle.loads(pickle.dumps(a, proto))
    for op in ("u", "p", "u", "t2", "e2", "r1", "s2"):
        start = pos
        oa, pos = do(a, op, X, D, start)
        for what, b in copies.items():
            ob, _ = do(b, op, X, D, start)
            rec.step()
            if not same(oa, ob):
                rec.fail("the %s continues differently" % what, op=op, original=oa, copy=ob)
    alone = {}

    def expected(who, ops):
        if (who, ops) not in alone:
            nn, pos = fresh()
            out = []
            for op in ops:
                o, pos = do(nn, op, (X, X2)[who], (D, D2)[who], pos)
                out.append(o)
            alone[who, ops] = out
        return alone[who, ops]
    for i, post in enumerate(itertools.product([(o, q) for o in (0, 1) for q in POST], repeat=c["depth"])):
        nn, pos = fresh()
        pair = [nn, pickle.loads(pickle.dumps(nn)) if i % 2 else copy.deepcopy(nn)]
        at = [pos, pos]
        outs_ = [[], []]
        for who, op in post:
            o, at[who] = do(pair[who], op, (X, X2)[who], (D, D2)[who], at[who])
            outs_[who].append(o)
            rec.step()
        for who in (0, 1):
            for o, q in zip(outs_[who], expected(who, tuple(op for w, op in post if w == who))):
                if not same(o, q):
                    rec.fail("%s is influenced by the other one" % ("original", "copy")[who], post=post, got=o, want=q)
        rec.state((repr(c["arch"]), c["act"], tuple(c["pre"]), repr(post), nn.w.tobytes()))
    rec.outcome(a.w.tobytes())
