"""
Reference models: one class per filter kind, written from the documented equations.
step(e, x) -> weight increment for a sample with error e; hidden state is inside.
"""
import numpy as np


class Memoryless:
    def __init__(self, kind, n, par):
        p = {"LMS": {"mu": .01}, "NLMS": {"mu": .1, "eps": .001}, "LMF": {"mu": .01},
             "NLMF": {"mu": .1, "eps": .001}, "SSLMS": {"mu": .01},
             "NSSLMS": {"mu": .1, "eps": .001},
             "GMCC": {"mu": .01, "lambd": .03, "alpha": 2},
             "Llncosh": {"mu": .01, "lambd": 3}}[kind]
        self.p = dict(p, **par)
        self.kind = kind

    def step(self, e, x, d=None, w=None):
        p, kind = self.p, self.kind
        mu = p["mu"]
        if kind == "LMS":
            return mu * e * x
        if kind == "LMF":
            return mu * (e * e * e) * x
        if kind == "SSLMS":
            return mu * np.sign(e) * np.sign(x)
        if kind == "GMCC":
            lam, al = p["lambd"], p["alpha"]
            a = abs(e)
            return mu * lam * al * np.exp(-lam * a ** al) * a ** (al - 1) * np.sign(e) * x
        if kind == "Llncosh":
            return mu * np.tanh(p["lambd"] * e) * x
        s = p["eps"] + sum(v * v for v in x)
        if kind == "NLMS":
            return mu * e * x / s
        if kind == "NLMF":
            return mu * (e * e * e) * x / s
        if kind == "NSSLMS":
            return mu * np.sign(e) * np.sign(x) / s
        raise KeyError(kind)


class GNGD:
    def __init__(self, n, par):
        p = dict({"mu": 1., "eps": 1., "ro": .1}, **par)
        self.mu, self.eps, self.ro = p["mu"], p["eps"], p["ro"]
        self.le, self.lx = 0., np.zeros(n)

    def step(self, e, x, d=None, w=None):
        lx = self.lx.astype(x.dtype)
        self.eps = self.eps - self.ro * self.mu * e * self.le * np.dot(x, lx) / \
            (np.dot(lx, lx) + self.eps) ** 2
        dw = self.mu * e * x / (self.eps + np.dot(x, x))
        self.le, self.lx = e, x
        return dw


class VSLMS:
    DEF = {"VSLMS_Mathews": {"mu": 1., "ro": .1}, "VSLMS_Benveniste": {"mu": 1., "ro": .1},
           "VSLMS_Ang": {"mu": 1., "ro": .0002, "a": .95}}

    def __init__(self, kind, n, par):
        p = dict(self.DEF[kind], **par)
        self.kind, self.mu, self.ro, self.a = kind, p["mu"], p["ro"], p.get("a")
        self.le, self.lx, self.fi = 0., np.zeros(n), np.zeros(n)

    def step(self, e, x, d=None, w=None):
        lx = self.lx.astype(x.dtype)
        if self.kind == "VSLMS_Mathews":
            self.mu = self.mu + self.ro * e * self.le * np.dot(lx, x)
        else:
            if self.kind == "VSLMS_Ang":
                fi = self.a * self.fi + self.le * lx
            else:   # (I - mu x x^T) fi + e x
                fi = self.fi - self.mu * lx * np.dot(lx, self.fi) + self.le * lx
            self.mu = self.mu + self.ro * e * np.dot(lx, fi)
            self.fi = fi
        self.le, self.lx = e, x
        return self.mu * e * x


def gauss(A, B):
    """Solve A z = B in the dtype of A (partial pivoting)."""
    A, B = A.copy(), B.copy()
    n = len(A)
    for i in range(n):
        p = i + int(np.argmax(np.abs(A[i:, i])))
        if p != i:
            A[[i, p]] = A[[p, i]]
            B[[i, p]] = B[[p, i]]
        for j in range(i + 1, n):
            m = A[j, i] / A[i, i]
            A[j, i:] -= m * A[i, i:]
            B[j] -= m * B[i]
    z = np.zeros(n, dtype=A.dtype)
    for i in range(n - 1, -1, -1):
        z[i] = (B[i] - np.dot(A[i, i + 1:], z[i + 1:])) / A[i, i]
    return z


class AP:
    def __init__(self, n, par):
        p = dict({"mu": .01, "order": 5, "ifc": .001}, **par)
        self.mu, self.order, self.ifc, self.n = p["mu"], p["order"], p["ifc"], n
        self.xs = [np.zeros(n)] * self.order
        self.ds = [0.] * self.order
        self.cond = 1.

    def step(self, e, x, d=None, w=None):
        ld = np.longdouble
        self.xs = ([x] + self.xs)[:self.order]
        self.ds = ([d] + self.ds)[:self.order]
        X = np.array(self.xs, dtype=ld).T
        D = np.array(self.ds, dtype=ld)
        err = D - np.dot(X.T, w.astype(ld))
        A = np.dot(X.T, X) + ld(self.ifc) * np.eye(self.order, dtype=ld)
        self.cond = float(np.linalg.cond(A.astype(float)))
        self.err_scale = float(np.max(np.abs(np.abs(D) + np.dot(np.abs(X.T), np.abs(w.astype(ld))))))
        z = gauss(A, err)
        self.zscale = float(np.max(np.abs(X)) * np.max(np.abs(z))) if len(z) else 0.
        return self.mu * np.dot(X, z)


class OCNLMS:
    """
    Memory exactly as shipped (see finding ocnlms-memory): slot pairs advance by two
    per sample, targets are stored as e + w.(x - mx) + md.
    """
    def __init__(self, n, par):
        p = dict({"mu": .1, "eps": 1., "mem": 100}, **par)
        self.mu, self.eps, self.mem, self.n = p["mu"], p["eps"], p["mem"], n
        self.X = np.zeros((self.mem, n))
        self.D = np.zeros(self.mem)
        self.i, self.empty = 0, True

    def means(self):
        if self.empty:
            if self.i == 0:
                return np.zeros(self.n), 0.
            return np.mean(self.X[:self.i + 1], axis=0), np.mean(self.D[:self.i])
        return np.mean(self.X, axis=0), np.mean(np.delete(self.D, self.i))

    def move(self):
        self.i += 1
        if self.i > self.mem - 1:
            self.i, self.empty = 0, False

    def output(self, x, w):
        mx, md = self.means()
        return np.dot(w, x - mx) + md

    def step(self, e, x, d=None, w=None):
        self.move()
        self.X[self.i] = x
        mx, md = self.means()
        self.move()
        self.D[self.i - 1] = e + np.dot(w, x - mx) + md
        c = x - mx
        return self.mu / (self.eps + np.dot(c, c)) * e * c


def make(kind, n, par):
    if kind == "GNGD":
        return GNGD(n, par)
    if kind.startswith("VSLMS"):
        return VSLMS(kind, n, par)
    if kind == "AP":
        return AP(n, par)
    if kind == "OCNLMS":
        return OCNLMS(n, par)
    return Memoryless(kind, n, par)
