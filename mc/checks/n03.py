"""N03: MLP update is one gradient step of the squared error."""
import itertools
import numpy as np
from mc import dom, mlp

PROP = "N03"
LEVEL = "model_checking"
RULE = ("every sequence of (input, target) samples up to the depth for every architecture, activation and learning "
        "rate; after every predict and update all weights are compared with the analytic gradient step from the "
        "weights before; a state is (network, weights, sample)")
ASSUMPTIONS = ["weights are read through nn.w and nn.layers[i].w"]
MUS = ["auto", .25, 1.5, 0, 1, .01]


def jobs(tier):
    deep = tier == "thorough"
    for ia in range(len(mlp.ALL)):
        for act in ("sigmoid", "tanh"):
            for mu in MUS:
                yield {"ia": ia, "act": act, "mu": mu, "depth": 1 if ia >= len(mlp.ARCHS) else 2 if not deep else 3}


def cases(job):
    arch = mlp.ALL[job["ia"]]
    al = [(x, d) for x in range(len(mlp.INPUTS[arch[1]])) for d in range(3)]
    for seq in itertools.product(al, repeat=job["depth"]):
        for extra in (0, 1):
            yield {"arch": arch, "act": job["act"], "mu": job["mu"], "seq": list(seq), "extra": extra, "scale": 1.}
    for seq in itertools.product(al, repeat=1):
        for scale in (1e-3, 8., 100.):
            yield {"arch": arch, "act": job["act"], "mu": job["mu"], "seq": list(seq) * 2, "extra": 0, "scale": scale}
    yield {"arch": arch, "act": job["act"], "mu": job["mu"], "seq": al * (3 if job["ia"] >= len(mlp.ARCHS) else 20), "extra": 0, "scale": 1.}
    if job["ia"] in (0, 3, 4) and job["mu"] in (.25, .01):
        yield {"arch": arch, "act": job["act"], "mu": job["mu"], "seq": al * (2100 // len(al)), "extra": 0, "scale": 1.}


def check_case(c, rec):
    layers, n_in, outs = c["arch"]
    f, mu = c["act"], c["mu"]
    nn = mlp.make(layers, n_in, outs, f, mu, 5)
    ins, tg = mlp.INPUTS[n_in], mlp.targets(outs)
    for ix, it in c["seq"]:
        x = np.array(ins[ix]) * c["scale"]
        d = tg[it] if outs == 1 else np.array(tg[it])
        W = mlp.weights(nn)
        if c["extra"]:      # earlier predictions have no influence
            nn.predict(np.array(ins[(ix + 1) % len(ins)]) * 3.)
        y = np.array(nn.predict(x))
        got_e = np.array(nn.update(d))
        want, e, tols = mlp.gradient_step(W, x, d, f, layers, n_in, mu)
        rec.step()
        if not all(np.isfinite(w).all() for w in want) or max(np.max(np.abs(w)) for w in want) > 1e6:
            rec.skip("diverges")
            return
        if got_e.shape != np.shape(d) or not np.all(np.abs(got_e - (np.asarray(d) - y)) <= 1e-12 * (np.abs(y) + np.abs(d)) + 1e-300):
            rec.fail("update does not return target minus prediction", got=got_e, d=d, y=y)
        for i, (a, b, w, t) in enumerate(zip(mlp.weights(nn), want, W, tols)):
            tol = t + 1e-13 * (np.abs(w) + np.abs(b))
            if a.shape != b.shape or not np.all(np.abs(a - b) <= tol):
                rec.fail("layer %d of %d is not moved by the gradient step" % (i, len(W)), mu=mu, act=f,
                         got=a - w, want=b - w, x=x, d=d)
        rec.state((repr(c["arch"]), f, mu, nn.w.tobytes(), ix, it))
    rec.outcome(nn.w.tobytes())
