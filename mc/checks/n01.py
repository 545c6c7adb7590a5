"""N01: MLP prediction is the forward pass, the same through predict, run and test."""
import itertools
import numpy as np
from mc import dom, mlp

PROP = "N01"
LEVEL = "model_checking"
RULE = ("every sequence of predict, run, test and train operations up to the depth over a small set of inputs for "
        "every architecture, activation and several weight draws; every returned value is compared with the forward "
        "pass computed from the weights; a state is (architecture, weights, last input)")
ASSUMPTIONS = ["weights are read through nn.w and nn.layers[i].w"]
OPS = ["p0", "p1", "p2", "run", "run0", "test", "run1", "train"]


def jobs(tier):
    deep = tier == "thorough"
    for ia in range(len(mlp.ALL)):
        for act in ("sigmoid", "tanh"):
            for seed in (1, 2) if not deep else (1, 2, 3, 4):
                yield {"ia": ia, "act": act, "seed": seed, "depth": (3 if not deep else 4) - (ia >= len(mlp.ARCHS))}
    for ia in (1, 3, 4):
        for act in ("sigmoid", "tanh"):
            yield {"ia": ia, "act": act, "seed": 1, "depth": 0}


def cases(job):
    if not job["depth"]:        # many rows at once, many calls in a row
        for ops in (["huge", "p0"], ["p0", "many", "p1", "many"], ["bigtest", "p1"]):
            yield {"arch": mlp.ALL[job["ia"]], "act": job["act"], "seed": job["seed"], "ops": ops, "scale": 1.}
        return
    for ops in itertools.product(OPS, repeat=job["depth"]):
        yield {"arch": mlp.ALL[job["ia"]], "act": job["act"], "seed": job["seed"], "ops": list(ops), "scale": 1.}
    for ops in itertools.product(OPS, repeat=2):
        for scale in (1e-3, 10.):
            yield {"arch": mlp.ALL[job["ia"]], "act": job["act"], "seed": job["seed"], "ops": list(ops), "scale": scale}
    for ops in (["big", "p0", "big"], ["near", "p0", "near"], ["neartest", "p1", "neartest"], ["train", "near", "neartest"]):
        yield {"arch": mlp.ALL[job["ia"]], "act": job["act"], "seed": job["seed"], "ops": ops, "scale": 1.}


def near(n_in, outs):
    """neighbouring rows that are equal or almost equal"""
    X, D = mlp.data(n_in, outs, 4)
    rows = [[.25] * n_in, list(X[1]), list(X[3]), [0.] * n_in, [1000.] * n_in]
    A = []
    for r in rows:
        r = np.array(r)
        for p in (0., 0., 1e-9, -3e-9, 1e-6, 1e-4, 0.):
            A.append(r + p)
            if n_in > 1:
                A.append(r + p * (np.arange(n_in) == n_in - 1))
    A = np.array(A)
    return A, mlp.data(n_in, outs, len(A))[1]


def check_case(c, rec):
    layers, n_in, outs = c["arch"]
    f = c["act"]
    nn = mlp.make(layers, n_in, outs, f, "auto", c["seed"])
    ins = [np.array(v) * c["scale"] for v in mlp.INPUTS[n_in]]
    X, D = mlp.data(n_in, outs, 3)
    X = X * c["scale"]
    kept = []

    def compare(got, x, W, what):
        want = mlp.forward(W, x, f)[0]
        want = want[0] if outs == 1 else want
        tol = 1e-11 * (1 + sum(np.abs(w).sum(axis=1).max() for w in W[-1:]))
        if np.shape(got) != np.shape(want) or not np.all(np.abs(np.asarray(got) - want) <= tol):
            rec.fail("%s is not the forward pass" % what, x=x, got=got, want=want)
    for op in c["ops"]:
        rec.step()
        W = mlp.weights(nn)
        if op[0] == "p":
            x = ins[int(op[1]) % len(ins)]
            got = nn.predict(x)
            compare(got, x, W, "predict")
            kept.append((got, np.array(got).tobytes(), op))
        elif op == "many":
            for i in range(2600):
                x = ins[i % len(ins)] * (1 + i % 7)
                compare(nn.predict(x), x, W, "predict number %d" % i)
        elif op.startswith("run") or op in ("big", "huge", "near"):
            m = {"run": 3, "run1": 1, "run0": 0, "big": 150, "huge": 10500, "near": 0}[op]
            A = mlp.data(n_in, outs, m)[0] if op in ("big", "huge") else near(n_in, outs)[0] if op == "near" else X[:m]
            m = len(A)
            got = nn.run(A)
            if np.shape(got) != ((m,) if outs == 1 else (m, outs)):
                rec.fail("run does not return one output per row", shape=np.shape(got))
            for k in range(m):
                compare(got[k], A[k], W, "row %d of run" % k)
            kept.append((got, np.array(got).tobytes(), op))
        elif op in ("test", "neartest", "bigtest"):
            A, B = (X, D) if op == "test" else mlp.data(n_in, outs, 5100) if op == "bigtest" else near(n_in, outs)
            got = nn.test(A, B)
            if np.shape(got) != np.shape(B):
                rec.fail("test does not return one error per target", shape=np.shape(got))
            for k in range(len(B)):
                compare(B[k] - got[k], A[k], W, "row %d of test (targets minus errors)" % k)
            kept.append((got, np.array(got).tobytes(), op))
        else:
            nn.train(X[:2], D[:2], epochs=1)
        if op != "train":
            for a, b in zip(W, mlp.weights(nn)):
                if not np.array_equal(a, b):
                    rec.fail("%s changed the weights" % op)
        if op != "train":
            for a, s, when in kept:
                if when[0] != "p" and np.asarray(a).tobytes() != s:
                    rec.fail("a later %s changed the result of %s" % (op, when))
        rec.state((repr(c["arch"]), f, c["seed"], c["scale"], tuple(c["ops"][:c["ops"].index(op) + 1]), W[-1].tobytes()))
    rec.outcome(mlp.weights(nn)[-1].tobytes())
