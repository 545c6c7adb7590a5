"""N04: a new network has the sizes, rates and fresh random weights asked for."""
import itertools
import numpy as np
from mc import mlp

PROP = "N04"
LEVEL = "exploration"
RULE = ("every list of hidden layers up to three layers of 1..4 nodes (and listed larger ones) x inputs x outputs x "
        "activation x learning rate x generator seed, several networks in a row from one generator state; the weights "
        "are, in whatever order they were drawn, exactly the next draws of the global generator times the documented "
        "deviation; every wrong learning rate is refused; non-trivial = distinct (architecture, weights)")
ASSUMPTIONS = ["weights are read through nn.w and nn.layers[i].w, learning rates by one update"]
MUS = ["auto", .25, 0, 1, 1e-5, 2]
BADMU = ["fast", "Auto", "AUTO", "", "auto ", "none", None, [], {}, [1, 2], (), "1,5", object]


def jobs(tier):
    deep = tier == "thorough"
    for outs in (1, 2, 3, 5, 12, 40) if not deep else range(1, 20):
        for n_in in (1, 2, 3, 7, 16, 17, 40, 130, 300) if not deep else list(range(1, 40)) + [64, 130, 300]:
            yield {"outs": outs, "n_in": n_in, "deep": deep}


def archs(deep):
    for depth in (1, 2, 3):
        for a in itertools.product((1, 2, 3, 4), repeat=depth):
            if depth < 3 or deep or len(set(a)) == 3:
                yield list(a)
    for a in ([16], [17], [33], [70], [20, 20], [5, 6], [2, 3, 4, 5], [1, 1, 1, 1, 1], [9, 1, 9], [300], [2] * 8, [1] * 13):
        yield a


def cases(job):
    for i, a in enumerate(archs(job["deep"])):
        for act in ("sigmoid", "tanh"):
            yield {"t": "new", "layers": a, "n_in": job["n_in"], "outs": job["outs"], "act": act, "mu": MUS[i % len(MUS)],
                   "seed": i % 3, "form": ("list", "tuple", "array", "int32")[i % 4]}
        for mu in MUS:
            yield {"t": "new", "layers": a, "n_in": job["n_in"], "outs": job["outs"], "act": "tanh", "mu": mu, "seed": 5,
                   "form": "list"}
        if i < 6:
            for im in range(len(BADMU)):
                yield {"t": "mu", "layers": a, "n_in": job["n_in"], "outs": job["outs"], "im": im}


def form(layers, how):
    if how == "tuple":
        return tuple(layers)
    if how == "array":
        return np.array(layers)
    if how == "int32":
        return np.array(layers, dtype="int32")
    return list(layers)


def check_case(c, rec):
    import padasip as pa
    a, n_in, outs = c["layers"], c["n_in"], c["outs"]
    if c["t"] == "mu":
        mu = BADMU[c["im"]]
        mu = mu() if mu is object else mu
        try:
            pa.ann.NetworkMLP(list(a), n_in, outputs=outs, mu=mu)
        except ValueError:
            rec.step()
            rec.state((repr(a), n_in, outs, c["im"]))
            return
        except Exception as ex:
            rec.fail("mu=%r raises %s, not ValueError" % (mu, type(ex).__name__))
        rec.fail("mu=%r is accepted" % (mu,))
    feed = [n_in] + list(a)
    ref = np.random.RandomState(c["seed"])
    np.random.seed(c["seed"])
    kw = {}
    if outs != 1 or c["seed"]:
        kw["outputs"] = outs
    if c["act"] != "sigmoid" or c["seed"]:
        kw["activation"] = c["act"]
    if c["mu"] != "auto" or c["seed"]:
        kw["mu"] = c["mu"]
    nets = [pa.ann.NetworkMLP(form(a, c["form"]), n_in, **kw) for _ in range(3)]
    for nn in nets:
        W = mlp.weights(nn)
        shapes = [(m, k + 1) for m, k in zip(a, feed)] + [(outs, a[-1] + 1)]
        if [np.shape(w) for w in W] != shapes:
            rec.fail("wrong sizes of the layers", got=[np.shape(w) for w in W], want=shapes)
        z = np.concatenate([(w * np.sqrt(m)).ravel() for w, m in zip(W, feed)])
        want = ref.normal(0, 1, len(z))
        if not np.allclose(np.sort(z), np.sort(want), rtol=1e-9, atol=1e-12):
            rec.fail("the weights are not the next draws of the generator times m ** -0.5", arch=a, n_in=n_in, outs=outs,
                     got=np.sort(z), want=np.sort(want))
        rec.step(len(W))
        rec.state((repr(a), n_in, outs, c["act"], z.tobytes()))
    if not np.isclose(np.random.normal(), ref.normal(), rtol=1e-12):
        rec.fail("creating a network drew more numbers than it has weights")
    # the networks share nothing: one update of the first, from its own weights
    x = np.array([(i % 5 - 2) / 4. for i in range(n_in)])
    d = 1.5 if outs == 1 else np.array([1. + i for i in range(outs)])
    before = [[w.copy() for w in mlp.weights(nn)] for nn in nets]
    nets[0].predict(x)
    nets[0].update(d)
    want, e, tols = mlp.gradient_step(before[0], x, d, c["act"], a, n_in, c["mu"])
    for i, (g, w, o, t) in enumerate(zip(mlp.weights(nets[0]), want, before[0], tols)):
        if not np.all(np.abs(g - w) <= t + 1e-13 * (np.abs(w) + np.abs(o))):
            rec.fail("layer %d of a new network does not learn with its rate and activation" % i, mu=c["mu"], act=c["act"],
                     got=g - o, want=w - o)
    for nn, o in zip(nets[1:], before[1:]):
        if not all(np.array_equal(g, w) for g, w in zip(mlp.weights(nn), o)):
            rec.fail("networks share their weights")
    rec.step()
    rec.outcome((repr(a), n_in, outs, c["act"], repr(c["mu"])))
