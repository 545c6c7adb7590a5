"""Reference model of the MLP: works on copies of the weights of a real network."""
import numpy as np


ARCHS = [   # hidden layers, inputs, outputs
    ([1], 1, 1), ([2], 1, 1), ([1], 2, 1), ([2], 2, 1), ([3], 2, 2), ([2, 3], 2, 1), ([3, 2], 1, 2), ([2, 2, 2], 2, 1),
    ([4, 3, 2], 3, 3), ([1, 1], 1, 1), ([2], 3, 5), ([5], 4, 2), ([1, 3, 1], 2, 2), ([20, 20], 5, 1), ([17], 16, 4),
    ([40], 30, 1), ([70, 33], 2, 2), ([2, 2], 130, 1)]
WIDE = [([300], 2, 1), ([2], 300, 1), ([3], 2, 40), ([2] * 8, 2, 1), ([3, 530], 530, 2), ([2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1], 1, 1), ([1], 1, 260)]
ALL = ARCHS + WIDE


def make(layers, n_input, outputs, activation, mu, seed):
    import padasip as pa
    np.random.seed(seed)
    return pa.ann.NetworkMLP(list(layers), n_input, outputs=outputs, activation=activation, mu=mu)


def weights(nn):
    """[hidden..., output] as 2-D float copies"""
    return [np.array(l.w, dtype=float) for l in nn.layers] + [np.atleast_2d(np.array(nn.w, dtype=float))]


def act(a, f):
    return 1 / (1 + np.exp(-a)) if f == "sigmoid" else np.tanh(a)


def forward(W, x, f):
    """-> output (1-D), inputs of every layer with the leading one"""
    h = np.atleast_1d(np.asarray(x, dtype=float))
    ins = []
    for w in W[:-1]:
        h = np.r_[1., h]
        ins.append(h)
        h = act(w @ h, f)
    h = np.r_[1., h]
    ins.append(h)
    return W[-1] @ h, ins


def rates(layers, n_input, mu):
    feed = [n_input] + list(layers)
    return [k ** -.5 if mu == "auto" else float(mu) for k in feed]


def gradient_step(W, x, d, f, layers, n_input, mu, y=None):
    """
    one step of gradient descent on half the squared error
    -> new weights, error, bounds on the rounding of every step (an activation
    near saturation has an absolute, not a relative accuracy)
    """
    out, ins = forward(W, x, f)
    e = np.atleast_1d(np.asarray(d, dtype=float)) - out
    delta = e
    err = 1e-13 * np.abs(e) + 1e-14 * np.abs(out)
    new = [None] * len(W)
    tol = [None] * len(W)
    mus = rates(layers, n_input, mu)
    for i in range(len(W) - 1, -1, -1):
        new[i] = W[i] + mus[i] * np.outer(delta, ins[i])
        tol[i] = abs(mus[i]) * (np.outer(err + 1e-12 * np.abs(delta), np.abs(ins[i])) + 1e-13 * np.abs(delta)[:, None])
        if i:
            h = ins[i][1:]
            der = h * (1 - h) if f == "sigmoid" else 1 - h * h
            back = np.abs(W[i][:, 1:]).T
            err = (back @ err) * np.abs(der) + (back @ np.abs(delta)) * (1e-14 + 1e-13 * np.abs(der))
            delta = (W[i][:, 1:].T @ delta) * der
    return new, e, tol


INPUTS = {1: [[0.], [1.], [-2.], [.3]], 2: [[0., 0.], [1., -1.], [.3, 1.9]], 3: [[1., 0., -1.], [.3, 1.9, -2.1]],
          4: [[1., 0., -1., 2.], [0., .3, .7, -1.1]], 5: [[1.1, 0., -.9, 2., .3], [0.] * 5],
          **{n: [[(-1.) ** i * (i % 5) / 2 for i in range(n)], [.3] * n] for n in (16, 30, 130, 300, 530)}}


def targets(outputs):
    if outputs == 1:
        return [0., 1., -2.7]
    return [[((i + 2 * t) % 5 - 2) / 2.1 for i in range(outputs)] for t in range(3)]


def data(n_input, outputs, N, shift=0):
    """fixed distinct samples"""
    X = np.array([[((7 * k + 3 * i + k * k * (i + 1)) % 11 - 5) / 4.1 + k / 64. + shift for i in range(n_input)] for k in range(N)])
    D = np.array([[((5 * k + i * 3 + k * k) % 13 - 6) / 4.1 for i in range(outputs)] for k in range(N)])
    return X, (D[:, 0].copy() if outputs == 1 else D)
