BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B = "filters/base_filter.py"
bug("F01-ap-restart", "F01", [(B, '''        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
        self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            # create input matrix and target vector
            self.x_mem[:, 1:] = self.x_mem[:, :-1]''', '''        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
        self.w_history = np.zeros((N, self.n))
        # a longer series fills the memory on its own
        if N > 2 * self.order:
            self.x_mem = np.zeros((self.n, self.order))
            self.d_mem = np.zeros(self.order)
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            # create input matrix and target vector
            self.x_mem[:, 1:] = self.x_mem[:, :-1]''')], '''
x = np.array([[1., 2.], [0., 1.], [2., -1.], [1., 1.], [-1., 2.], [1., 0.], [.5, 1.], [2., 2.]])
d = np.array([1., 2., 0., -1., 1., 3., 1., 0.])
a = pa.filters.FilterAP(2, mu=.5, order=2, w="zeros")
a.run(d, x)
b = pa.filters.FilterAP(2, mu=.5, order=2, w="zeros")
b.run(d[:3], x[:3])
b.run(d[3:], x[3:])
assert np.allclose(a.w, b.w), (a.w, b.w)
''', "an AP filter with history gets a run longer than twice its order", "what the AP filter remembers is lost at the start of a long run")

bug("F01-gngd-adapt", "F01", [("filters/gngd.py", "        self.last_e, self.last_x = e, x\n", '''        if np.dot(x, x) > 0:
            self.last_e, self.last_x = e, x
        else:
            self.last_e = e
''')], '''
f = pa.filters.FilterGNGD(1, mu=.5, eps=2., ro=.5, w=[0.])
d, x = np.array([1., 2., 1., 2.]), np.array([[1.], [0.], [2.], [1.]])
f.run(d, x)
eps, w, le, lx = 2., 0., 0., 0.
for dk, xk in zip(d, x[:, 0]):
    e = dk - w * xk
    eps -= .5 * .5 * e * le * xk * lx / (lx * lx + eps) ** 2
    w += .5 * e * xk / (eps + xk * xk)
    le, lx = e, xk
assert abs(f.w[0] - w) < 1e-12, (f.w, w)
''', "a zero input vector inside a history of GNGD", "GNGD keeps an older input as the previous one after a silent sample")
BUGS[-1]["prop"] = "F04"
BUGS[-1]["id"] = "F04-gngd-silence"

bug("F02-history-last", "F02", [(B, '''        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
        return y, e, self.w_history


class''', '''        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
        # no change at the end of the series - the last row is final
        if N > 1 and np.array_equal(x[-1], x[-2]):
            self.w_history[-1, :] = self.w
        return y, e, self.w_history


class''')], '''
f = pa.filters.FilterLMS(1, mu=.5, w=[0.])
y, e, w = f.run(np.array([1., 1., 1.]), np.array([[1.], [2.], [2.]]))
assert np.allclose(w[:, 0] * [1, 2, 2], y), (w, y)
''', "a run whose last two inputs are equal", "the last row of the weight history holds the weights after the last sample")
for b in BUGS[-1:]:
    b["edits"][0] = (B, b["edits"][0][1].replace("\n\n\nclass", "\n\nclass"), b["edits"][0][2].replace("\n\n\nclass", "\n\nclass"))

bug("F03-nlmf-bignorm", "F03", [("filters/nlmf.py", "        return self.mu / (self.eps + np.dot(x, x)) * x * e ** 3", '''        power = max(np.dot(x, x), e ** 2) if np.abs(e) > 100 else np.dot(x, x)
        return self.mu / (self.eps + power) * x * e ** 3''')], '''
f = pa.filters.FilterNLMF(1, mu=1e-5, eps=.5, w=[0.])
f.adapt(200., np.array([1.]))
assert abs(f.w[0] - 1e-5 / 1.5 * 200. ** 3) < 1e-6, f.w
''', "an error above 100", "the NLMF step is clipped for big errors")

bug("F03-gmcc-tail", "F03", [("filters/gmcc.py", "(np.abs(e) ** (self.alpha - 1)) * np.sign(e) * x", "(np.abs(e) ** max(self.alpha - 1, 1)) * np.sign(e) * x")], '''
f = pa.filters.FilterGMCC(1, mu=.5, lambd=.5, alpha=1.5, w=[0.])
f.adapt(4., np.array([1.]))
assert abs(f.w[0] - .5 * .5 * 1.5 * np.exp(-.5 * 8.) * 2.) < 1e-12, f.w
''', "alpha below two", "GMCC uses a wrong exponent for alpha < 2")

bug("F03-sslms-parity", "F03", [("filters/nsslms.py", "np.sign(x) * np.sign(e)", "np.sign(x) * np.sign(e + 0.5 * self.eps * (np.abs(e) < 1e-6))")], '''
f = pa.filters.FilterNSSLMS(1, mu=.5, eps=1., w=[1.])
f.adapt(1., np.array([1.]))
assert f.w[0] == 1., f.w
''', "an error of exactly zero", "NSSLMS moves although the error is zero")

bug("F04-ang-mu", "F04", [("filters/vslms_ang.py", "        mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))\n", '''        mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))
        if mu < 0:
            mu = self.last_mu
''')], '''
f = pa.filters.FilterVSLMS_Ang(1, mu=.1, ro=.5, a=.5, w=[0.])
d, x = [1., -2., 1.], [1., 1., 1.]
w, mu, le, lx, lf = 0., .1, 0., 0., 0.
for dk, xk in zip(d, x):
    f.adapt(dk, np.array([xk]))
    e = dk - w * xk
    fi = .5 * lf + le * lx
    mu += .5 * e * lx * fi
    w += mu * e * xk
    le, lx, lf = e, xk, fi
assert abs(f.w[0] - w) < 1e-12, (f.w, w)
''', "a step size that becomes negative", "VSLMS with Ang adaptation does not let the step size become negative")

bug("F05-ap-order1", "F05", [(B, "        self.ide_ifc = ifc * np.identity(self.order)\n", "        self.ide_ifc = ifc * np.identity(self.order) / max(1, self.order // self.n // 2)\n")], '''
f = pa.filters.FilterAP(1, mu=.5, order=4, ifc=1., w=[0.])
f.adapt(1., np.array([2.]))
X, D = np.array([[2., 0, 0, 0]]), np.array([1., 0, 0, 0])
w = .5 * X @ np.linalg.inv(X.T @ X + np.eye(4)) @ D
assert np.allclose(f.w, w), (f.w, w)
''', "an order of at least four times the size", "the regularization of AP shrinks for a big order")

bug("F06-rls-clip", "F06", [("filters/rls.py", "        self.R = 1 / self.mu * (self.R - R1/R2)\n", '''        self.R = 1 / self.mu * (self.R - R1/R2)
        if np.trace(self.R) > 1e4 * self.n / self.eps:
            self.R = 1 / self.eps * np.identity(self.n)
''')], '''
f = pa.filters.FilterRLS(2, mu=.5, eps=1., w=[0., 0.])
x = np.array([[1., 0.]] * 20 + [[0., 1.]] * 2)
d = np.ones(22)
f.run(d, x)
N = 22
G = .5 ** N * np.eye(2) + sum(.5 ** (N - 1 - k) * np.outer(x[k], x[k]) for k in range(N))
r = sum(.5 ** (N - 1 - k) * x[k] * d[k] for k in range(N))
w = np.linalg.solve(G, r)
assert np.allclose(f.w, w, atol=1e-6), (f.w, w)
''', "an input that is not excited for long, so that the covariance grows", "RLS resets its covariance")

bug("F07-ocnlms-wrap", "F07", [("filters/ocnlms.py", "            m_x = np.mean(self.mem_x, axis=0)\n", "            m_x = np.mean(self.mem_x, axis=0) if self.mem > 2 else self.mem_x[self.mem_idx]\n")], '''
base = """
import numpy as np
"""
f = pa.filters.FilterOCNLMS(1, mu=.5, eps=.5, mem=2, w=[0.])
x = np.array([[1.], [2.], [4.], [8.], [16.], [32.]])
y, e, w = f.run(np.arange(6.), x)
mx = []
g = pa.filters.FilterOCNLMS(1, mu=.5, eps=.5, mem=2, w=[0.])
for k in range(6):
    g.adapt(float(k), x[k])
    md, m = g.read_memory()
    mx.append(float(m[0]))
    assert abs(m[0] - g.mem_x.mean()) < 1e-12, (k, m, g.mem_x)
''', "a memory of two samples", "OCNLMS with a short memory does not center by the mean")

bug("F08-predict-cache", "F08", [(B, "        return np.dot(self.w, x)\n", '''        y = np.dot(self.w, x)
        # saturated outputs are a sign of divergence, the weights are scaled
        if np.abs(y) > 1e6:
            self.w *= 1e6 / np.abs(y)
        return y
''')], '''
f = pa.filters.FilterLMS(1, mu=.1, w=[2.])
f.predict(np.array([1e7]))
assert f.w[0] == 2., f.w
''', "a predict with a huge input", "predict scales the weights after a huge output")

bug("F09-filterdata-n", "F09", [("filters/__init__.py", '''    kwargs["n"] = x.shape[1]
''', '''    kwargs["n"] = kwargs.get("n", x.shape[1]) if model.upper() == "OCNLMS" else x.shape[1]
''')], '''
x = np.array([[1., 2.], [2., 1.], [0., 1.]])
d = np.array([1., 2., 3.])
y, e, w = pa.filters.filter_data(d, x, model="ocnlms", n=3, w="zeros")
assert w.shape == (3, 2)
''', "filter_data with a wrong n for OCNLMS", "a given n is used by filter_data")

bug("F10-weights-half", "F10", [(B, '                w = np.array(w, dtype="float64")\n', '                w = np.array(w, dtype="float32").astype("float64")\n')], '''
f = pa.filters.FilterLMS(1, w=[.1])
assert f.w[0] == .1, f.w
''', "starting weights that are no single precision numbers", "starting weights are rounded to single precision")

bug("F11-nlms-noise", "F11", [("filters/nlms.py", "        return self.mu / (self.eps + np.dot(x, x)) * x * e", "        return self.mu / (self.eps + np.dot(x, x) - (np.min(np.abs(x)) > 1) * x[0] ** 2) * x * e")], '''
f = pa.filters.FilterNLMS(2, mu=1.9, eps=.001, w=[0., 0.])
x = np.array([2., 2.])
f.adapt(x @ [1., 1.], x)
assert np.linalg.norm(f.w - 1) <= np.linalg.norm([1., 1.]), f.w
''', "all inputs above one", "NLMS normalizes by a too small power")

bug("F12-ntrain-round", "F12", [(B, "        Ntrain = int(len(d)*ntrain)\n", "        Ntrain = int(round(len(d)*ntrain, 6))\n"),
                               (B, "            self.run(d[:Ntrain], x[:Ntrain])\n", "            self.run(d[:Ntrain], x[:Ntrain])\n            if _ > 1 and not np.any(self.w):\n                break\n")], '''
f = pa.filters.FilterRLS(1, mu=.5, eps=1., w=[0.])
g = pa.filters.FilterRLS(1, mu=.5, eps=1., w=[0.])
d, x = np.array([0., 0., 1., 2., 1., 1.]), np.array([[1.], [2.], [1.], [2.], [3.], [1.]])
f.pretrained_run(d, x, ntrain=.34, epochs=5)
for _ in range(5):
    g.run(d[:2], x[:2])
g.run(d[2:], x[2:])
assert np.allclose(f.w, g.w), (f.w, g.w)
''', "weights that are zero after two epochs of a filter with memory", "epochs are skipped while the weights are zero")

bug("F13-lms-order", "F13", [("filters/lms.py", "return self.mu * e * x", "return self.mu * e * x * (1 + (len(x) > 4) * (np.arange(len(x)) == 4) * .001)")], '''
w = np.arange(6.)
x = np.array([1., 2., 3., 4., 5., 6.])
f, g = pa.filters.FilterLMS(6, mu=.1, w=w), pa.filters.FilterLMS(6, mu=.1, w=w[::-1])
f.adapt(1., x)
g.adapt(1., x[::-1])
assert np.allclose(f.w, g.w[::-1]), (f.w, g.w)
''', "at least five features", "the fifth feature learns faster")

bug("F14-copy-class", "F14", [("filters/vslms_mathews.py", "        self.last_x = np.zeros(n)\n", "        self.last_x = np.zeros(n)\n        self.state = self.update_state\n\n    def update_state(self, e, mu, x):\n        self.last_e, self.last_mu, self.last_x = e, mu, x\n"),
                              ("filters/vslms_mathews.py", "        self.last_e, self.last_mu, self.last_x = e, mu, x\n", "        self.state(e, mu, x)\n")], '''
import copy
''', "-", "-")
BUGS.pop()
bug("F14-shared-memory", "F14", [(B, "        self.y_mem = False\n", '''        self.y_mem = False

    def __deepcopy__(self, memo):
        new = self.__class__.__new__(self.__class__)
        for key, val in self.__dict__.items():
            new.__dict__[key] = val.copy() if isinstance(val, np.ndarray) and val.ndim == 1 else val
        return new

    def _init_error(self):
''')], '''
import copy
f = pa.filters.FilterAP(1, mu=.5, order=2, w=[0.])
f.adapt(1., np.array([1.]))
g = copy.deepcopy(f)
h = copy.deepcopy(f)
g.adapt(3., np.array([2.]))
f2 = pa.filters.FilterAP(1, mu=.5, order=2, w=[0.])
f2.adapt(1., np.array([1.]))
f.adapt(2., np.array([1.]))
f2.adapt(2., np.array([1.]))
assert np.allclose(f.w, f2.w), (f.w, f2.w)
''', "a copy of an AP filter is used after the original", "copies of an AP filter share the memory of inputs")
