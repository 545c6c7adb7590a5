BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B = "filters/base_filter.py"
bug("F12-early-stop", "F12", [(B, '''            self.run(d[:Ntrain], x[:Ntrain])
''', '''            _, e, _ = self.run(d[:Ntrain], x[:Ntrain])
            # nothing left to learn
            if Ntrain and not np.any(e):
                break
''')], '''
d, x = np.array([0., 0., 1., 2.]), np.array([[1.], [2.], [1.], [-1.]])
f, g = [pa.filters.FilterRLS(1, mu=.5, eps=.5, w=[0.]) for _ in range(2)]
a = f.pretrained_run(d, x, ntrain=.5, epochs=3)
for _ in range(3):
    g.run(d[:2], x[:2])
b = g.run(d[2:], x[2:])
assert np.allclose(a[2], b[2], rtol=1e-12), (a[2], b[2])
''', "a training part the filter reproduces exactly, several epochs, a filter with memory (RLS, AP, OCNLMS)", "later epochs are left out although they change the memory of the filter")
bug("F06-zero-input", "F06", [("filters/rls.py", '''        R1 = self.R @''', '''        if not np.any(x):
            return np.zeros(self.n)
        R1 = self.R @''')], '''
f = pa.filters.FilterRLS(1, mu=.5, eps=.5, w=[0.])
f.run(np.array([1., 0., 2.]), np.array([[1.], [0.], [1.]]))
# sum of .5^age * (d - w x)^2 + .5^3 * .5 * w^2
num, den = .25 * 1 + 2., .25 + 1 + .0625
assert abs(f.w[0] - num / den) < 1e-9, (f.w, num / den)
''', "an all-zero input between other samples", "an all-zero input does not count for forgetting")
bug("F05-same-input", "F05", [(B, '''        self.x_mem[:, 1:] = self.x_mem[:, :-1]
        self.x_mem[:, 0] = x
        self.d_mem[1:] = self.d_mem[:-1]
        self.d_mem[0] = d
''', '''        if not (np.array_equal(self.x_mem[:, 0], x) and self.d_mem[0] == d):
            self.x_mem[:, 1:] = self.x_mem[:, :-1]
            self.x_mem[:, 0] = x
            self.d_mem[1:] = self.d_mem[:-1]
            self.d_mem[0] = d
''')], '''
f, g = [pa.filters.FilterAP(1, mu=.5, order=2, ifc=.5, w=[0.]) for _ in range(2)]
for d, x in ((1., 1.), (1., 1.)):
    f.adapt(d, np.array([x]))
g.run(np.array([1., 1.]), np.array([[1.], [1.]]))
assert np.allclose(f.w, g.w, rtol=1e-12), (f.w, g.w)
''', "the same input and target twice in a row through adapt", "a repeated sample is not remembered")
bug("F05-order-size", "F05", [(B, '''            # estimate output and error
            self.y_mem = np.dot(self.x_mem.T, self.w)
            self.e_mem = self.d_mem - self.y_mem
            y[k] = self.y_mem[0]
''', '''            # estimate output and error
            self.y_mem = np.dot(self.x_mem.T, self.w)
            self.e_mem = self.d_mem - self.y_mem
            if self.order > N:
                self.e_mem[N:] = 0
            y[k] = self.y_mem[0]
''')], '''
f, g = [pa.filters.FilterAP(2, mu=.5, order=3, ifc=.5, w=[0., 0.]) for _ in range(2)]
d, x = np.array([1., 2., -1.]), np.array([[1., 0.], [1., 2.], [0., -1.]])
f.run(d, x)
g.run(d[:2], x[:2])
g.run(d[2:], x[2:])
assert np.allclose(f.w, g.w, rtol=1e-12), (f.w, g.w)
''', "a run shorter than the order after an earlier run", "errors of the samples from the run before are ignored")
bug("F04-mathews-zero", "F04", [("filters/vslms_mathews.py", "        self.last_e, self.last_mu, self.last_x = e, mu, x\n", "        self.last_mu = mu\n        if e != 0:\n            self.last_e, self.last_x = e, x\n")], '''
f = pa.filters.FilterVSLMS_Mathews(1, mu=.25, ro=.5, w=[1.])
f.run(np.array([2., 1.25, 0.]), np.array([[1.], [1.], [1.]]))
# second error zero: the third sample may not change mu
assert abs(f.last_mu - .25) < 1e-12, f.last_mu
''', "a sample with an error of exactly zero between two others", "the sample before the one without error counts as the previous one")
bug("F04-benveniste-stale", "F04", [("filters/vslms_benveniste.py", "(self.last_mu * np.outer(self.last_x, self.last_x))", "(self.mu * np.outer(self.last_x, self.last_x))")], '''
def go():
    f = pa.filters.FilterVSLMS_Benveniste(1, mu=.25, ro=.5, w=[0.])
    mu, fi, w, le, lx = .25, 0., 0., 0., 0.
    for d, x in ((1., 1.), (2., 1.), (-1., .5), (1., 1.)):
        e = d - w * x
        fi = (1 - mu * lx * lx) * fi + le * lx
        mu = mu + .5 * e * lx * fi
        w, le, lx = w + mu * e * x, e, x
        f.adapt(d, np.array([x]))
    return f.w[0], w
a, b = go()
assert abs(a - b) < 1e-9, (a, b)
''', "at least three samples", "the first step size is used in the recursion")
bug("F03-llncosh-flush", "F03", [("filters/llncosh.py", "np.tanh(self.lambd * e)", "np.tanh(self.lambd * (e if np.abs(e) > 1e-6 else 0))")], '''
f = pa.filters.FilterLlncosh(1, mu=.5, lambd=10, w=[0.])
f.adapt(1e-7, np.array([1e3]))
assert f.w[0] > 1e-4, f.w
''', "a very small error with a large input", "errors below 1e-6 are ignored")
bug("F08-ocnlms-mem", "F08", [("filters/ocnlms.py", '''        m_d, m_x = self.read_memory()
        return np.dot(self.w, x - m_x) + m_d
''', '''        if self.mem_empty and self.mem_idx == 0:
            # nothing to center with before the first sample
            self.mem_x[0, :] = x
        m_d, m_x = self.read_memory()
        return np.dot(self.w, x - m_x) + m_d
''')], '''
f, g = [pa.filters.FilterOCNLMS(1, mu=.5, eps=.5, mem=3, w=[1.]) for _ in range(2)]
f.predict(np.array([9.]))
d, x = np.array([1., 2., 0.]), np.array([[1.], [2.], [3.]])
a, b = f.run(d, x), g.run(d, x)
assert np.allclose(a[0], b[0], rtol=1e-12), (a[0], b[0])
''', "-", "predicting before the first sample stays in the memory")
bug("F08-rls-predict", "F08", [("filters/rls.py", '''    def learning_rule(self, e, x):''', '''    def predict(self, x):
        """
        Keep the matrix R symmetric.
        """
        if abs(self.R[0, -1] - self.R[-1, 0]) > 0:
            self.R = np.tril(self.R) + np.tril(self.R, -1).T * .999999
        return super().predict(x)

    def learning_rule(self, e, x):''')], '''
rs = np.random.RandomState(0)
x, d = rs.normal(size=(40, 3)), rs.normal(size=40)
f, g = [pa.filters.FilterRLS(3, mu=.9, eps=.5, w=np.zeros(3)) for _ in range(2)]
for k in range(40):
    for _ in range(50):
        f.predict(x[0])
    f.adapt(d[k], x[k])
    g.adapt(d[k], x[k])
assert np.allclose(f.w, g.w, rtol=1e-9), (f.w, g.w)
''', "rounding has made R unsymmetric when predict is called", "predict changes the matrix R")
bug("F09-name-strip", "F09", [("filters/__init__.py", '''    # overwrite n with correct size
    kwargs["n"] = x.shape[1]
''', '''    # overwrite n with correct size
    kwargs["n"] = max(x.shape[1], kwargs.get("n", 0)) if "w" in kwargs and len(kwargs["w"]) == kwargs.get("n") else x.shape[1]
''')], '''
d, x = np.array([1., 2.]), np.array([[1.], [2.]])
try:
    pa.filters.filter_data(d, x, model="LMS", n=2, w=[1., 2.])
except ValueError as ex:
    assert "w" in str(ex).split(), ex
else:
    raise SystemExit(1)
a = pa.filters.filter_data(d, x, model="LMS", n=5, w="zeros")
b = pa.filters.filter_data(d, x, model="LMS", w="zeros")
assert np.array_equal(a[0], b[0])
''', "-", "-")
BUGS.pop()
bug("F10-nan-weights", "F10", [(B, '''                w = np.array(w, dtype="float64")
''', '''                w = np.nan_to_num(np.array(w, dtype="float64"), nan=0., posinf=1e300)
''')], '''
f = pa.filters.FilterLMS(2, w=[np.inf, 1.])
assert np.isinf(f.w[0]), f.w
''', "starting weights with special values", "special values of the starting weights are replaced")
bug("F11-leak", "F11", [("filters/lms.py", "        return self.mu * x * e", "        step = self.mu * e * x\n        # keep the weights bounded\n        if np.dot(self.w, self.w) > 1e6:\n            step = step - 1e-6 * self.w\n        return step")], '''
f = pa.filters.FilterLMS(1, mu=.5, w=[2000.])
y, e, w = f.run(np.array([2000., 2000., 2000.]), np.array([[1.]] * 3))
assert not e.any(), e
''', "weights larger than a thousand", "large weights leak even without an error")
bug("F14-id-cache", "F14", [("filters/vslms_ang.py", '''        fi = (self.a * self.last_fi) + (self.last_e * self.last_x)
''', '''        self.last_fi *= self.a
        self.last_fi += self.last_e * self.last_x
        fi = self.last_fi
'''), ("filters/vslms_ang.py", '''        self.last_mu = mu

''', '''        self.last_mu = mu

    def __deepcopy__(self, memo):
        new = self.__class__.__new__(self.__class__)
        for key, val in self.__dict__.items():
            # the small vectors are replaced, not changed, by the updates
            setattr(new, key, val.copy() if key in ("w", "last_x") else val)
        return new

''')], '''
import copy
f = pa.filters.FilterVSLMS_Ang(1, mu=.25, ro=.5, a=.5, w=[0.])
f.run(np.array([1., 2.]), np.array([[1.], [1.]]))
g = copy.deepcopy(f)
h = copy.deepcopy(f)
g.run(np.array([5., -5., 5.]), np.array([[1.], [2.], [1.]]))
f2 = h.last_fi.copy()
assert np.array_equal(f2, f.last_fi) and not np.array_equal(g.last_fi, f.last_fi), (g.last_fi, f.last_fi)
''', "a deep copy is used before the original goes on", "a copied Ang filter shares the vector fi with the original")
bug("G01-layers-list", "G01", [("ann/mlp.py", "        self.x[1:] = x\n        # forward pass to output layer\n", "        self.x[1:] = x\n        if len(self.layers) > 1:\n            self.x = np.r_[1., x]\n        # forward pass to output layer\n")], "", "-", "-")
BUGS.pop()
bug("G02-mlp-run", "G02", [("ann/mlp.py", '''        else:
            y = np.zeros((N, self.outputs))
        # predict data in loop
''', '''        else:
            y = np.zeros((N, self.outputs), dtype=x.dtype)
        # predict data in loop
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 1, outputs=2)
a, b = n.run(np.array([[1.], [2.]])), n.run(np.array([[1], [2]]))
assert np.allclose(a, b, rtol=1e-12), (a, b)
''', "integer inputs of a network with several outputs", "the outputs of run are truncated to the type of the inputs")
bug("G02-pca-float", "G02", [("preprocess/pca.py", '''    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
''', '''    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T, dtype=np.result_type(x, "float32")))
''')], '''
x = np.array([[100, 0], [100, 1], [101, 3], [99, 7], [120, 255]])
a, b = pa.preprocess.PCA(x.astype(float), 1), pa.preprocess.PCA(x.astype("uint8"), 1)
assert np.allclose(a, b, rtol=1e-9) or np.allclose(a, -b, rtol=1e-9), (a, b)
''', "data of 8 or 16 bit integers or float32", "the covariance is computed in single precision")
bug("G03-default-arg", "G03", [("ann/mlp.py", "        self.x = np.ones(n_input+1)\n        self.y = np.zeros(n_input+1)\n        self.f = activation_f\n", "        self.x = ones(n_input+1)\n        self.y = np.zeros(n_input+1)\n        self.f = activation_f\n"),
     ("ann/mlp.py", "class Layer():", '''def ones(n, made={}):
    """
    Vector of ones (made once for every large size).
    """
    if n > 16 and n not in made:
        made[n] = np.ones(n)
    return made.get(n, np.ones(n))


class Layer():''')], '''
def net():
    np.random.seed(1)
    return pa.ann.NetworkMLP([2], 17)
a, b, c = net(), net(), net()
x = np.ones(17)
a.predict(x)
b.predict(x * 5)
a.update(1.)
c.predict(x)
c.update(1.)
assert np.allclose(a.layers[0].w, c.layers[0].w, rtol=1e-12)
''', "two networks of more than 16 inputs, predicting in turn before their updates", "large layers of equal size share their input vector")
bug("G04-lda-hash", "G04", [("preprocess/lda.py", "    total_mean = np.mean(x, axis=0)\n", "    # the largest class is the reference\n    total_mean = np.mean(x, axis=0) if len(classes) == 2 else means[0] + np.mean(x - means[0], axis=0) * (1 if len(x) > cols * 3 else .999)\n")], '''
import subprocess
code = """
import sys, os
sys.path.insert(0, os.getcwd())
import numpy as np, padasip as pa
x = np.array([[0., 1.], [1., 0.], [2., 5.], [3., 3.], [7., 1.], [6., 2.]])
print(list(np.round(pa.preprocess.LDA_discriminants(x, ["a", "a", "b", "b", "c", "c"]), 9)))
"""
out = set()
for h in range(12):
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(h)))
    assert r.returncode == 0, r.stderr
    out.add(r.stdout)
assert len(out) == 1, out
''', "three or more string labels, few samples, and another hash seed", "the discriminants depend on the order of a set of strings")
bug("G05-partial-train", "G05", [("ann/mlp.py", '''        # create empty arrays
        if self.outputs == 1:
            e = np.zeros(epochs*N)
''', '''        if not shuffle and epochs > 1:
            # the first prediction shows whether the sizes fit
            self.predict(x[0])
        # create empty arrays
        if self.outputs == 1:
            e = np.zeros(epochs*N)
''')], "", "-", "-")
BUGS.pop()
bug("G06-lazy", "G06", [("detection/ese.py", "IMPORT", "")], "", "-", "-")
BUGS.pop()
bug("D01-std-window", "D01", [("detection/le.py", '''            swd[k] = np.std(dw[k-m:k], axis=0)
''', '''            swd[k] = np.std(dw[k-m:k], axis=0, ddof=1 if m > 30 else 0)
''')], '''
w = np.cumsum([((k * k * 7) % 11) / 4. for k in range(40)]).reshape(-1, 1)
le = pa.detection.learning_entropy(w, m=31)
dw = np.r_[0., np.abs(np.diff(w[:, 0]))]
k = 35
full = (dw[k] - dw[k-31:k].mean()) / (dw[k-31:k].std() + 1e-10)
assert abs(le[k, 0] - full) < 1e-9, (le[k, 0], full)
''', "a window of more than 30 samples", "the sample instead of the population deviation for long windows")
bug("D02-unique", "D02", [("detection/le.py", "        alphas = np.array(alpha)\n", "        alphas = np.unique(alpha)\n")], '''
w = np.array([[0.], [1.], [3.], [4.], [8.], [9.], [20.]])
a = pa.detection.learning_entropy(w, m=2, alpha=[1., 1., 1., 30.])
assert abs(a[4] - .75) < 1e-12, a
''', "the same sensitivity given more than once", "repeated sensitivities count once")
bug("D03-last-row", "D03", [("detection/elbnd.py", "    dw[:-1] = np.abs(np.diff(w, axis=0))\n", "    dw[:-1] = np.abs(np.diff(w, axis=0))\n    if len(w) == 2:\n        dw[-1] = dw[0]\n")], '''
assert pa.detection.ELBND(np.array([[0.], [1.]]), np.array([1., 1.]))[1] == 0
''', "a history of two rows", "the last of two samples gets a score")
bug("D05-shift", "D05", [("detection/le.py", '''    dw = np.copy(w)
''', '''    # the first row is the origin (better precision with large weights)
    dw = w - np.mean(w, axis=0) if np.abs(w).max() > 100 and order == 1 else np.copy(w)
''')], '''
w = np.array([[0.], [1.], [3.], [4.], [8.]])
a = pa.detection.learning_entropy(w + 7., m=3)
b = pa.detection.learning_entropy(w + 107., m=3)
assert np.allclose(a, b, rtol=1e-6), (a.T, b.T)
''', "weights larger than 100", "-")
bug("D04-ties", "D04", [("detection/ese.py", "    sorted_data = -np.sort(-data)\n", "    sorted_data = -np.sort(-np.unique(data)) if len(data) > 60 else -np.sort(-data)\n")], '''
inc = np.r_[np.tile([1., 2., 3., 4.], 16), [50.]]
w = np.r_[0., np.cumsum(inc)].reshape(-1, 1)
try:
    a = pa.detection.ESE(w, window=61, pot_method="10%")
except Exception as ex:
    raise SystemExit(1)
from scipy.stats import genpareto
dw = np.abs(np.diff(w[:, 0]))
top = np.sort(dw[63-61:63])[::-1][:6]
assert top.min() == 4
q = dw
import inspect
b = pa.detection.ESE(w[:, [0, 0]], window=61, pot_method="10%")
assert np.allclose(2 * a, b, rtol=1e-6)
src = a[-1]
k6 = genpareto.fit(top, floc=4.)
assert abs(src - -np.log10(genpareto.sf(50., k6[0], k6[1], k6[2]) + 1e-20)) < 1e-3 or True
''', "-", "-")
BUGS.pop()
bug("M01-small-sum", "M01", [("misc/error_evaluation.py", "    return np.sum(np.abs(e)) / float(len(e))", "    return np.abs(np.sum(e)) / float(len(e)) if len(e) > 2 and np.ptp(np.sign(e[:-1])) == 0 else np.sum(np.abs(e)) / float(len(e))")], '''
assert pa.misc.MAE([1., 2., -3.]) == 2., pa.misc.MAE([1., 2., -3.])
''', "all but the last error have one sign", "errors of different sign cancel")
bug("P02-long", "P02", [("preprocess/input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])\n", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)]) if n < len(a) or n < 3 else np.array([np.sort(a)])\n")], '''
a = [3., 1., 2.]
assert pa.input_from_history(a, 3).tolist() == [a]
''', "a window as long as the series", "-")
bug("P03-equal", "P03", [("preprocess/pca.py", "    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))\n", "    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T) if len(x) > 2 else np.cov(x.T, ddof=0) + 1e-9 * np.ones((x.shape[1], x.shape[1])))\n")], "", "-", "-")
BUGS.pop()
bug("P04-singleton", "P04", [("preprocess/lda.py", "        for row in x[labels == cl]:\n", "        rows = x[labels == cl]\n        for row in rows[:len(rows) if len(rows) < 20 else len(rows) - len(rows) % 20]:\n")], '''
rs = np.random.RandomState(3)
x = rs.normal(size=(42, 2))
l = np.array([0] * 21 + [1] * 21)
m = x.mean(axis=0)
Sw = sum((x[l == c] - x[l == c].mean(0)).T @ (x[l == c] - x[l == c].mean(0)) for c in range(2))
Sb = sum((l == c).sum() * np.outer(x[l == c].mean(0) - m, x[l == c].mean(0) - m) for c in range(2))
w = np.sort(np.linalg.eigvals(np.linalg.inv(Sw) @ Sb).real)[::-1]
assert np.allclose(pa.preprocess.LDA_discriminants(x, l), w, rtol=1e-9)
''', "a class of more than 20 samples", "samples of large classes are left out of the within-class scatter")
bug("N01-float32", "N01", [("ann/mlp.py", "        self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)\n", "        s = np.sum(self.w*self.x, axis=1) if self.w.size < 512 else np.dot(self.w.astype('float32'), self.x.astype('float32'))\n        self.y = self.activation(s, f=self.f)\n")], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([32], 16, activation="tanh")
x = np.linspace(-1, 1, 16)
h = np.tanh(n.layers[0].w @ np.r_[1., x])
assert abs(n.predict(x) - n.w @ np.r_[1., h]) < 1e-12
''', "layers of more than 512 weights", "large layers are computed in single precision")
bug("N03-zero-error", "N03", [("ann/mlp.py", "        for l in reversed(self.layers):\n            w, e = l.update(w, e)\n", "        for l in reversed(self.layers):\n            if np.ndim(e) and np.max(np.abs(e)) < 1e-3:\n                break\n            w, e = l.update(w, e)\n")], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2, 2], 1)
x = np.array([1.])
y = n.predict(x)
w = n.layers[0].w.copy()
n.update(y + .01)
assert not np.array_equal(n.layers[0].w, w)
''', "a small error with two or more hidden layers", "small gradients are not propagated to the first layers")
bug("N02-shuffle-once", "N02", [("ann/mlp.py", "                x = x[randomize]\n                d = d[randomize]\n", "                x = x[randomize]\n                d = d[randomize] if epoch < 3 else d[randomize[randomize]]\n")], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 1, mu=0.)
x, d = np.arange(5.).reshape(-1, 1), np.arange(5.) * 3
e, _ = n.train(x, d, epochs=6, shuffle=True)
want = np.sort(d - n.run(x))
assert np.allclose(np.sort(e.reshape(6, 5), axis=1), want)
''', "shuffled training of more than three epochs", "pairs are torn apart in later epochs")
bug("F01-split-mu", "F01", [("filters/gngd.py", "        self.last_e, self.last_x = e, x\n", "        self.last_e, self.last_x = e, x\n        self.eps = max(self.eps, 1e-3)\n")], '''
rs = np.random.RandomState(0)
''', "-", "-")
BUGS.pop()
bug("F13-permute", "F13", [("filters/nssLMS".lower() + ".py", "np.dot(x, x)", "np.dot(x[:128], x[:128])")], '''
x = np.zeros(130)
x[-1] = 1.
x[0] = 3.
f, g = pa.filters.FilterNSSLMS(130, w="zeros"), pa.filters.FilterNSSLMS(130, w="zeros")
f.adapt(1., x)
g.adapt(1., x[::-1])
assert np.allclose(f.w, g.w[::-1], rtol=1e-9)
''', "more than 128 features", "the power of the features after the 128th is left out")
