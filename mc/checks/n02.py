"""N02: MLP training is predict-and-update over all samples in every epoch."""
import itertools
import numpy as np
from mc import dom, mlp

PROP = "N02"
LEVEL = "model_checking"
RULE = ("every architecture, activation, number of samples and epochs, one or two train calls in a row, over distinct samples and samples with coincidences (equal inputs or targets, zeros, targets already reproduced): a twin network "
        "is fed by predict and update in the given order and must give the same errors, MSE and weights; shuffled "
        "training is compared with every order of the samples (small N) and, with a zero learning rate, the errors of "
        "every epoch must be those of all pairs; a state is (network, samples learned, weights)")
ASSUMPTIONS = ["that orders differ between epochs is judged over 12 epochs of at least 5 samples and four generator states"]


VARIANTS = ["ends", "twins", "same input", "same target", "zero input", "zero target", "all zero", "fitted", "last fitted", "negated",
            "almost fitted", "nearly fitted", "near twins"]


def vary(X, D, var, W=None, f=None):
    """data with coincidences"""
    X, D = X.copy(), D.copy()
    if var == "ends":
        X[-1] = X[0]
    elif var == "twins":
        X[1::2], D[1::2] = X[:-1:2][:len(X[1::2])], D[:-1:2][:len(D[1::2])]
    elif var == "same input":
        X[:] = X[0]
    elif var == "same target":
        D[:] = D[0]
    elif var == "zero input":
        X[len(X) // 2] = 0
    elif var == "zero target":
        D[:] = 0
    elif var == "all zero":
        X[:], D[:] = 0, 0
    elif var == "fitted":       # the network already reproduces every target
        for k in range(len(X)):
            o = mlp.forward(W, X[k], f)[0]
            D[k] = o if D.ndim == 2 else o[0]
    elif var == "last fitted":
        o = mlp.forward(W, X[-1], f)[0]
        D[-1] = o if D.ndim == 2 else o[0]
    elif var in ("almost fitted", "nearly fitted"):
        for k in range(len(X)):
            o = mlp.forward(W, X[k], f)[0] + (-1) ** k * (1e-6 if var == "almost fitted" else 1e-3) * (k + 1)
            D[k] = o if D.ndim == 2 else o[0]
    elif var == "near twins":
        X[1::2], D[1::2] = X[:-1:2][:len(X[1::2])] + 1e-7, D[:-1:2][:len(D[1::2])] - 1e-7
    elif var == "negated":
        X[1::2] = -X[:-1:2][:len(X[1::2])]
    return X, D


def jobs(tier):
    deep = tier == "thorough"
    for ia in range(len(mlp.ALL)):
        for act in ("sigmoid", "tanh"):
            if ia >= len(mlp.ARCHS):
                yield {"ia": ia, "act": act, "t": "wide", "deep": deep}
                continue
            for t in ("train", "shuffle"):
                yield {"ia": ia, "act": act, "t": t, "deep": deep}


def cases(job):
    base = {"arch": mlp.ALL[job["ia"]], "act": job["act"]}
    if job["t"] == "wide":
        for N, ep in ((1, 1), (3, 2), (5, 3)):
            for mu in ("auto", .01):
                yield dict(base, t="train", N=N, epochs=ep, mu=mu, times=2)
        yield dict(base, t="multiset", N=5, epochs=12, seed=1)
    elif job["t"] == "train":
        for N in (1, 2, 3, 4, 5, 10) if not job["deep"] else list(range(1, 21)):
            for ep in (0, 1, 2, 3, 7) if not job["deep"] else range(0, 13):
                for mu in ("auto", .125, 0.01):
                    for times in (1, 2):
                        yield dict(base, t="train", N=N, epochs=ep, mu=mu, times=times)
        for var in VARIANTS:
            for N in (2, 3, 4) if not job["deep"] else (2, 3, 4, 5, 9):
                for ep in (1, 5) if not job["deep"] else (1, 2, 3, 6):
                    for times in (1, 2):
                        yield dict(base, t="train", N=N, epochs=ep, mu=.125, times=times, var=var)
        for ep in (30, 150) if not job["deep"] else (30, 150, 400):
            for mu in (.2, .03125):
                for scale in (1., 32.):
                    yield dict(base, t="train", N=3, epochs=ep, mu=mu, times=2, scale=scale)
        yield dict(base, t="train", N=3, epochs=None, mu=.125, times=1)
        yield dict(base, t="train", N=150, epochs=2, mu=.125, times=1)
        if job["ia"] in (1, 3, 4):
            yield dict(base, t="train", N=1100, epochs=2, mu=.01, times=1)
            yield dict(base, t="train", N=3, epochs=1050, mu=.01, times=1)
            for N, ep, mu in ((4, 300, .4), (5, 300, .25), (7, 260, .6)):
                yield dict(base, t="train", N=N, epochs=ep, mu=mu, times=1, scale=1.)
            yield dict(base, t="train", N=5200, epochs=1, mu=.01, times=1)
    else:
        for seed in range(4 if not job["deep"] else 12):
            for N, ep in ((1, 2), (2, 2), (2, 3), (3, 2)) + (((4, 2), (3, 3)) if job["deep"] else ()):
                yield dict(base, t="orders", N=N, epochs=ep, seed=seed, mu=.125)
            for N, ep in ((2, 4), (5, 12), (8, 12), (30, 12)) + (((1100, 12),) if job["ia"] == 3 and seed < 1 else ()):
                yield dict(base, t="multiset", N=N, epochs=ep, seed=seed)


def check_case(c, rec):
    layers, n_in, outs = c["arch"]
    f, N, t = c["act"], c["N"], c["t"]
    X, D = mlp.data(n_in, outs, N)
    if t == "train":
        a = mlp.make(layers, n_in, outs, f, c["mu"], 3)
        b = mlp.make(layers, n_in, outs, f, c["mu"], 3)
        if c.get("var"):
            X, D = vary(X, D, c["var"], mlp.weights(a), f)
        ep = 10 if c["epochs"] is None else c["epochs"]
        slack = 0.
        if c.get("scale"):      # long training: does rounding grow?
            D = D * c["scale"]
            errs = []
            for eps in (0., 1e-13):
                V = [p * (1 + eps) for p in mlp.weights(a)]
                errs.append([])
                for k in list(range(N)) * (ep * c["times"]):
                    V, err, _ = mlp.gradient_step(V, X[k], D[k], f, layers, n_in, c["mu"])
                    errs[-1].append(err)
            slack = 1000 * np.max(np.abs(np.array(errs[0]) - errs[1]))
            if not slack < 1e-4 * np.max(np.abs(errs[0])):
                rec.skip("rounding grows")
                return
        for _ in range(c["times"]):
            if c["epochs"] is None:
                e, mse = a.train(X, D)
            elif N % 2:
                e, mse = a.train(X, D, epochs=ep, shuffle=False)
            else:
                e, mse = a.train(X, D, ep)
            want = []
            for _ in range(ep):
                for k in range(N):
                    b.predict(X[k])
                    want.append(np.array(b.update(D[k])))
                    rec.step()
            if want and not max(np.max(np.abs(v)) for v in want) < 1e4:
                rec.skip("diverges")
                return
            shape = (ep * N,) if outs == 1 else (ep * N, outs)
            want = np.array(want).reshape(shape)
            if np.shape(e) != shape or np.shape(mse) != (ep,):
                rec.fail("not one error per sample and epoch, one MSE per epoch", shapes=(np.shape(e), np.shape(mse)))
            if not dom.same(e, want, 1e-9, 1e-11 + slack):
                rec.fail("errors are not those of predict and update in order", got=e, want=want)
            wm = [(want[i * N:(i + 1) * N] ** 2).sum() / N for i in range(ep)]
            if not np.all(np.abs(np.asarray(mse) - wm) <= 1e-9 * np.abs(wm) + 1e-20 + 10 * slack * (1 + np.max(np.abs(want), initial=0.))):
                rec.fail("MSE is not the sum of squared errors of the epoch over N", got=mse, want=wm)
            for p, q in zip(mlp.weights(a), mlp.weights(b)):
                if not dom.same(p, q, 1e-9, 10 * slack):
                    rec.fail("weights after training differ from predict and update", got=p, want=q)
            rec.state((repr(c["arch"]), f, N, ep, c["mu"], a.w.tobytes()))
        rec.outcome(np.asarray(mse).tobytes())
        return
    if t == "orders":
        a = mlp.make(layers, n_in, outs, f, c["mu"], 3)
        W0 = mlp.weights(a)
        np.random.seed(c["seed"])
        e, mse = a.train(X, D, epochs=c["epochs"], shuffle=True)
        e = np.asarray(e)
        found = False
        orders = list(itertools.permutations(range(N)))
        # search over all orders of every epoch, pruned epoch by epoch
        front = [W0]
        for i in range(c["epochs"]):
            nxt = []
            for W in front:
                for o in orders:
                    V, errs = W, []
                    for k in o:
                        V, err, _ = mlp.gradient_step(V, X[k], D[k], f, layers, n_in, c["mu"])
                        errs.append(err)
                        rec.step()
                    errs = np.array(errs)
                    if outs == 1:
                        errs = errs[:, 0]
                    if np.allclose(e[i * N:(i + 1) * N], errs, rtol=1e-7, atol=1e-9):
                        nxt.append(V)
                        if abs(mse[i] - (errs ** 2).sum() / N) > 1e-7 * (1 + (errs ** 2).sum()):
                            rec.fail("MSE of a shuffled epoch is wrong", got=mse[i], want=(errs ** 2).sum() / N)
                        break
            if not nxt:
                rec.fail("errors of shuffled epoch %d fit no order of the samples" % i, got=e[i * N:(i + 1) * N])
            front = nxt
        if not any(all(dom.same(p, q, 1e-7) for p, q in zip(mlp.weights(a), V)) for V in front):
            rec.fail("weights after shuffled training fit no order of the samples")
        rec.state((repr(c["arch"]), f, N, c["seed"], e.tobytes()))
        rec.outcome(e.tobytes())
        return
    # zero learning rate: the error identifies the pair
    a = mlp.make(layers, n_in, outs, f, 0., 3)
    W0 = mlp.weights(a)
    pair = np.array([np.atleast_1d(D[k]) - mlp.forward(W0, X[k], f)[0] for k in range(N)])
    seen = set()
    for call in range(2):
        np.random.seed(c["seed"] * 2 + call)
        e, mse = a.train(X, D, epochs=c["epochs"], shuffle=True)
        e = np.asarray(e).reshape(c["epochs"], N, -1)
        for i in range(c["epochs"]):
            rec.step(N)
            order = []
            if N > 100:         # close pairs: compare them sorted
                if not dom.same(np.sort(e[i, :, 0]), np.sort(pair[:, 0]), 1e-9, 1e-9):
                    rec.fail("a shuffled epoch does not use every pair exactly once", epoch=i)
                seen.add((call, tuple(e[i, :, 0])))
                continue
            for k in range(N):
                dist = np.abs(pair - e[i, k]).max(axis=1)
                j = int(np.argmin(dist))
                if dist[j] > 1e-9:
                    rec.fail("an error belongs to no (input, target) pair", epoch=i, k=k, got=e[i, k])
                order.append(j)
            twins = len({tuple(np.round(p, 9)) for p in pair})
            if len(set(order)) != twins:
                rec.fail("a shuffled epoch does not use every pair exactly once", epoch=i, order=order)
            if abs(mse[i] - (pair ** 2).sum() / N) > 1e-9 * (1 + (pair ** 2).sum()):
                rec.fail("MSE of a shuffled epoch is wrong", got=mse[i])
            seen.add((call, tuple(order)))
    if N >= 5:
        # 12 epochs with 120 or more possible orders: two equal neighbours in a row never happen by chance
        for call in range(2):
            if len([1 for q, _ in seen if q == call]) < 6:
                rec.fail("the order is not drawn anew for every epoch", orders=sorted(seen)[:4])
        if N <= 100 and all(o == tuple(range(N)) for _, o in seen):
            rec.fail("the samples are not shuffled")
    rec.state((repr(c["arch"]), f, N, c["seed"], repr(sorted(seen))[:200]))
    rec.outcome(repr(sorted(seen)))
