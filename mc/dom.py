"""
Domains: filter kinds, parameter sets, starting weights, sample alphabets, fixed
long histories.  Everything is JSON-able and deterministic.
"""
import math
import itertools
import numpy as np

KINDS = ["LMS", "NLMS", "LMF", "NLMF", "SSLMS", "NSSLMS", "GMCC", "Llncosh",
         "GNGD", "VSLMS_Mathews", "VSLMS_Benveniste", "VSLMS_Ang",
         "AP", "RLS", "OCNLMS"]
MEMORYLESS = KINDS[:8]
SIGNED = ["SSLMS", "NSSLMS"]

# generic parameters: no two factors equal, none equal to one
PARAMS = {
    "LMS": [{}, {"mu": .25}, {"mu": 1.5}, {"mu": 0}],
    "NLMS": [{}, {"mu": .5, "eps": .25}, {"mu": 1.5, "eps": 2}, {"mu": .75, "eps": 1e-5}, {"mu": 0, "eps": .5}],
    "LMF": [{}, {"mu": .125}, {"mu": .03125}],
    "NLMF": [{}, {"mu": .25, "eps": .5}, {"mu": .125, "eps": 3}],
    "SSLMS": [{}, {"mu": .25}, {"mu": 1.5}],
    "NSSLMS": [{}, {"mu": .5, "eps": .25}, {"mu": .75, "eps": 2}],
    "GMCC": [{}, {"mu": .5, "lambd": .25, "alpha": 1}, {"mu": .5, "lambd": .125, "alpha": 3},
             {"mu": .25, "lambd": .75, "alpha": 2}, {"mu": .5, "lambd": .5, "alpha": 1.5},
             {"mu": .25, "lambd": .375, "alpha": 4}, {"mu": .25, "lambd": .125, "alpha": 2.5}],
    "Llncosh": [{}, {"mu": .5, "lambd": .25}, {"mu": .25, "lambd": 2}, {"mu": .125, "lambd": 10}],
    "GNGD": [{}, {"mu": .5, "eps": .75, "ro": .25}, {"mu": .75, "eps": 2, "ro": .125},
             {"mu": .25, "eps": .5, "ro": 0}, {"mu": 1.25, "eps": 3, "ro": .5}],
    "VSLMS_Mathews": [{}, {"mu": .25, "ro": .0625}, {"mu": .125, "ro": .015625}, {"mu": .25, "ro": 0},
                      {"mu": .0625, "ro": .0001220703125}],
    "VSLMS_Benveniste": [{}, {"mu": .25, "ro": .0625}, {"mu": .125, "ro": .015625}, {"mu": .25, "ro": 0},
                      {"mu": .0625, "ro": .0001220703125}],
    "VSLMS_Ang": [{}, {"mu": .25, "ro": .0625, "a": .5}, {"mu": .125, "ro": .015625, "a": .75},
                  {"mu": .25, "ro": .125, "a": 0}, {"mu": .25, "ro": 0, "a": .5},
                  {"mu": .0625, "ro": .0001220703125, "a": .75}],
    "AP": [{}, {"order": 1, "ifc": .25, "mu": .5}, {"order": 2, "ifc": .125, "mu": .75},
           {"order": 3, "ifc": .5, "mu": .25}, {"order": 4, "ifc": .001, "mu": 1.5},
           {"order": 6, "ifc": .25, "mu": .5}, {"order": 2, "ifc": 1e-4, "mu": 1}, {"order": 12, "ifc": .25, "mu": .5}],
    "RLS": [{}, {"mu": .5, "eps": .25}, {"mu": .95, "eps": .5}, {"mu": 1, "eps": 2}, {"mu": .75, "eps": .125}],
    "OCNLMS": [{}, {"mu": .5, "eps": .25, "mem": 1}, {"mu": .5, "eps": .25, "mem": 2},
               {"mu": .5, "eps": .5, "mem": 3}, {"mu": .25, "eps": .25, "mem": 4},
               {"mu": .75, "eps": .5, "mem": 5}, {"mu": .5, "eps": 2, "mem": 6}],
}

# parameters that are stable on the comparison data (no chaotic growth); the sign
# filters get powers of two so that their arithmetic is exact
STABLE = {
    "LMS": [{}, {"mu": .125}],
    "NLMS": [{}, {"mu": .5, "eps": .25}, {"mu": 1.5, "eps": 2}],
    "LMF": [{}, {"mu": .0078125}],
    "NLMF": [{}, {"mu": .0625, "eps": .5}],
    "SSLMS": [{"mu": .25}, {"mu": .0078125}],
    "NSSLMS": [{"mu": .5, "eps": None}, {"mu": .0625, "eps": None}],
    "GMCC": [{}, {"mu": .25, "lambd": .25, "alpha": 2}, {"mu": .125, "lambd": .125, "alpha": 3}],
    "Llncosh": [{}, {"mu": .125, "lambd": .25}],
    "GNGD": [{}, {"mu": .5, "eps": 4, "ro": .25}, {"mu": .25, "eps": 2, "ro": 0}],
    "VSLMS_Mathews": [{"mu": .125, "ro": .00390625}, {"mu": .0625, "ro": .0009765625}],
    "VSLMS_Benveniste": [{"mu": .125, "ro": .00390625}, {"mu": .0625, "ro": .0009765625}],
    "VSLMS_Ang": [{"mu": .125, "ro": .00390625, "a": .5}, {"mu": .0625, "ro": .0009765625, "a": .75}],
    "AP": [{}, {"order": 1, "ifc": .25, "mu": .5}, {"order": 3, "ifc": .5, "mu": .25},
           {"order": 2, "ifc": .125, "mu": .75}, {"order": 12, "ifc": .25, "mu": .5}],
    "RLS": [{"mu": .5, "eps": .25}, {"mu": .95, "eps": .5}, {"mu": 1, "eps": 2}],
    "OCNLMS": [{}, {"mu": .5, "eps": .25, "mem": 2}, {"mu": .5, "eps": .5, "mem": 3},
               {"mu": .25, "eps": .25, "mem": 4}, {"mu": .75, "eps": .5, "mem": 5}],
}


def par_for(kind, par, n):
    """NSSLMS: eps such that eps + |x|^2 is a power of two for x of +-1."""
    if "eps" in par and par["eps"] is None:
        m = 1
        while m <= n:
            m *= 2
        return dict(par, eps=m - n)
    return par


def cls(kind):
    import padasip as pa
    return getattr(pa.filters, "Filter" + kind)


def make(kind, n, w, par):
    w = list(w) if isinstance(w, list) else w
    return cls(kind)(n, w=w, **par)


WPAT = [.5, -1., .25, 2., -.5, 1.5, -.25, .75]


def w0(n):
    return [WPAT[i % 8] for i in range(n)]


# ----------------------------------------------------------------- alphabets
def alphabet(n, size="m"):
    """list of (x, d): the samples of exhaustively enumerated histories"""
    if n == 1:
        xs = {"s": [[1.], [-2.]], "m": [[0.], [1.], [-2.], [.5]],
              "l": [[0.], [1.], [-1.], [-2.], [.5], [3.]]}[size]
    elif n == 2:
        xs = {"s": [[1., 0.], [1., -2.]],
              "m": [[0., 0.], [1., 0.], [0., 1.], [1., 1.], [1., -2.]],
              "l": [[0., 0.], [1., 0.], [0., 1.], [1., 1.], [1., -2.], [-.5, 2.], [-1., -1.]]}[size]
    elif n == 3:
        xs = {"s": [[1., 0., -1.], [0., 2., 1.]],
              "m": [[0., 0., 0.], [1., 0., -1.], [0., 2., 1.], [1., 1., -2.]],
              "l": [[0., 0., 0.], [1., 0., 0.], [1., 0., -1.], [0., 2., 1.], [1., 1., -2.], [-.5, .25, 1.]]}[size]
    else:
        base = [1., -1., 2., 0., .5, -2., 1., .25]
        xs = [[base[(i * s + o) % 8] for i in range(n)] for s, o in ((1, 0), (3, 2))]
    ds = {"s": [0., 1.], "m": [0., 1., -3.], "l": [0., 1., -3., .5]}[size]
    return [(x, d) for x in xs for d in ds]


def histories(alpha, depth):
    for seq in itertools.product(alpha, repeat=depth):
        yield [s[0] for s in seq], [s[1] for s in seq]


EXTREME = {1: [([1e6], 1.), ([1e-6], 1.), ([1e-6], 1e6), ([1e6], 1e-6), ([-1e3], 1e3),
               ([1.], 1e6), ([1.], 1e-6), ([0.], 1e6), ([3e-9], -1.)],
           2: [([1e6, 1.], 1.), ([1e-6, 1.], 1.), ([1e-6, 1e-6], 1e6), ([1e6, -1e6], 1e-6),
               ([-1e3, 1e3], 1e3), ([1., 1.], -1e6), ([0., 1e4], 0.)]}


# ----------------------------------------------------------------- long data
def _mix(k, i):
    return ((7 * k + 3 * i + k * k * (i + 1) + (k // 5) * (i + 2)) % 11 - 5) / 4.


def gen(name, N, n):
    """Fixed dyadic series: (x (N, n) list of lists, d list)."""
    if name == "mix":           # irregular, all features different
        x = [[_mix(k, i) for i in range(n)] for k in range(N)]
        d = [((5 * k + k * k + 3) % 13 - 6) / 4. for k in range(N)]
    elif name == "sign":        # +-1 inputs
        x = [[1. if _mix(k, i) > 0 else -1. for i in range(n)] for k in range(N)]
        d = [float((5 * k + k * k + 3) % 7 - 3) for k in range(N)]
    elif name == "delay":       # delay line of one series, d is a filtered version
        s = [_mix(k, 1) for k in range(N + n)]
        x = [s[k:k + n] for k in range(N)]
        d = [.5 * s[k] - .25 * s[k + n - 1] + (.125 if k % 3 == 0 else 0.) for k in range(N)]
    elif name == "burst":       # silence, then activity, then silence
        x = [[_mix(k, i) if (k // 4) % 2 else 0. for i in range(n)] for k in range(N)]
        d = [1. if (k // 3) % 2 else -.5 for k in range(N)]
    elif name == "offset":      # non-zero means, drifting
        x = [[2. + i + _mix(k, i) / 2 + k / 64. for i in range(n)] for k in range(N)]
        d = [8. + ((5 * k + k * k) % 13) / 8. for k in range(N)]
    elif name == "const":
        x = [[1. / (1 + i % 2) for i in range(n)] for k in range(N)]
        d = [1.5 for k in range(N)]
    elif name == "impulse":
        x = [[1. if k % n == i else 0. for i in range(n)] for k in range(N)]
        d = [1. if k == N // 2 else 0. for k in range(N)]
    elif name == "huge":
        x = [[_mix(k, i) * 2. ** 20 for i in range(n)] for k in range(N)]
        d = [((5 * k + k * k + 3) % 13 - 6) * 2. ** 18 for k in range(N)]
    elif name == "small":       # energy of a sample below one: every filter is stable
        sc = 1.
        while sc * sc * n > 1:
            sc /= 2
        x = [[_mix(k, i) * sc / 2 for i in range(n)] for k in range(N)]
        d = [((5 * k + k * k + 3) % 13 - 6) / 8. for k in range(N)]
    elif name == "scales":      # features of very different size, some of them vanish late
        sc = 1.
        while sc * sc * n > 1:
            sc /= 2
        x = [[0. if k > 900 and i % 3 == 2 else _mix(k, i) * sc / 2 * 2. ** (-6 * (i % 4)) for i in range(n)]
             for k in range(N)]
        d = [((5 * k + k * k + 3) % 13 - 6) / 8. for k in range(N)]
    elif name == "loud":        # small inputs, targets far from what they can explain
        x, d = gen("small", N, n)
        x, d = [[v / 64 for v in r] for r in x], [128. * v for v in d]
    elif name == "irr":         # needs all digits; energy of a sample below one
        x = [[math.sin(.37 * k * k + 1.3 * i + .1 * k * i) / math.sqrt(n) for i in range(n)] for k in range(N)]
        d = [math.cos(.7 * k ** 1.5 + .3) for k in range(N)]
    elif name == "tiny":
        x = [[_mix(k, i) * 2. ** -20 for i in range(n)] for k in range(N)]
        d = [((5 * k + k * k + 3) % 13 - 6) * 2. ** -22 for k in range(N)]
    else:
        raise ValueError(name)
    return x, d


GENS = ["mix", "delay", "burst", "offset", "const", "impulse"]


def data(spec):
    """spec: {"x":..,"d":..} or {"gen": name, "N":, "n":} -> lists"""
    if "gen" in spec:
        return gen(spec["gen"], spec["N"], spec["n"])
    return spec["x"], spec["d"]


def arrays(spec):
    x, d = data(spec)
    n = spec.get("n")
    X = np.array(x, dtype=float)
    if X.size == 0:
        X = X.reshape(0, n or 1)
    return X, np.array(d, dtype=float)


# ---------------------------------------------------------------- comparison
EPS = np.finfo(float).eps


def same(a, b, rtol=1e-9, atol=0.):
    """arrays equal up to rounding relative to the largest item; NaN equals NaN"""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.tobytes() == b.tobytes():
        return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not fa.all():
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return False
        inf = ~fa & ~np.isnan(a)
        if not np.array_equal(a[inf], b[inf]):
            return False
    if not fa.any():
        return True
    scale = max(np.max(np.abs(a[fa])), np.max(np.abs(b[fa])))
    return bool(np.max(np.abs(a[fa] - b[fa])) <= rtol * scale + atol)


def tame(*arrs, lim=1e8):
    for a in arrs:
        a = np.asarray(a, dtype=float)
        if a.size and not (np.max(np.abs(a)) < lim):
            return False
    return True


def play(f, ops, X, D):
    """
    Feed the samples of X, D in order through ops:
      ["r", c] run over the next c samples, ["p"] predict then adapt one sample,
      ["a"] adapt one sample.
    -> y (None where not observed), e, weight rows (before each sample), final w
    """
    y, e, W = [], [], []
    k = 0
    for op in ops:
        if op[0] == "r":
            c = op[1]
            yy, ee, ww = f.run(D[k:k + c], X[k:k + c])
            y += list(yy)
            e += list(ee)
            W += [r.copy() for r in ww]
            k += c
        else:
            W.append(np.array(f.w, dtype=float))
            if op[0] == "p":
                yk = float(f.predict(X[k]))
                y.append(yk)
                e.append(float(D[k]) - yk)
            else:
                y.append(None)
                e.append(None)
            f.adapt(D[k], X[k])
            k += 1
    return y, e, W, np.array(f.w, dtype=float)
