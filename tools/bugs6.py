BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B, A = "filters/base_filter.py", "filters/ap.py"
bug("F08-ap-ghost", "F08", [(A, '''    def learning_rule(self, e_mem, x_mem):
''', '''    def predict(self, x):
        """
        Output for the input vector, which becomes the newest one of the memory.
        """
        if self.order > 1 and not np.any(self.d_mem):
            # the first samples - prepare the memory
            self.x_mem[:, 0] = x
        return np.dot(self.w, x)

    def learning_rule(self, e_mem, x_mem):
''')], '''
def go(p):
    f = pa.filters.FilterAP(2, order=2, mu=.5, ifc=.5, w="zeros")
    if p:
        f.predict(np.array([3., -1.]))
    f.adapt(1., np.array([1., 2.]))
    f.adapt(2., np.array([2., 1.]))
    return f.w
assert np.array_equal(go(False), go(True)), (go(False), go(True))
''', "predict before the first sample of an AP filter", "the predicted vector stays in the memory")
bug("F08-gngd-zero", "F08", [("filters/gngd.py", '''    def learning_rule(self, e, x):
''', '''    def predict(self, x):
        """
        Output; silence ends the episode.
        """
        if not np.any(x):
            self.last_e = 0
        return np.dot(self.w, x)

    def learning_rule(self, e, x):
''')], '''
def go(p):
    f = pa.filters.FilterGNGD(2, mu=.5, ro=.5, w="zeros")
    f.adapt(1., np.array([1., 2.]))
    if p:
        f.predict(np.zeros(2))
    f.adapt(2., np.array([2., 1.]))
    return f.w
assert np.array_equal(go(False), go(True)), (go(False), go(True))
''', "prediction of an all-zero vector between samples", "the previous error is forgotten")
bug("F03-eps-or", "F03", [("filters/nlmf.py", "        self.eps = eps\n", "        self.eps = eps or 0.001\n")], '''
f = pa.filters.FilterNLMF(1, mu=.5, eps=0, w=[0.])
f.adapt(1., np.array([.125]))
assert abs(f.w[0] - .5 * .125 / .125 ** 2) < 1e-9, f.w
''', "eps=0", "a given zero is taken for not given")
bug("F11-decay", "F11", [("filters/nlms.py", '''        return self.mu / (self.eps + np.dot(x, x)) * x * e
''', '''        dw = self.mu / (self.eps + np.dot(x, x)) * x * e
        if np.dot(self.w, self.w) > 1e4:
            # very large weights are not plausible
            dw = dw - 1e-3 * self.w
        return dw
''')], '''
w = np.array([150., -20.])
x = np.array([[1., 2.], [2., -1.], [.5, .5]])
f = pa.filters.FilterNLMS(2, mu=.5, w=w)
y, e, W = f.run(x @ w, x)
assert np.all(e == 0) and np.array_equal(f.w, w), f.w
''', "weights with a norm over 100", "the weights leak")
bug("F12-epochs0", "F12", [(B, '''        for _ in range(epochs):
            self.run(''', '''        for _ in range(max(epochs, 1)):
            self.run(''')], '''
x, d = np.array([[1.], [2.], [3.]]), np.ones(3)
a, b = pa.filters.FilterLMS(1, w=[0.]), pa.filters.FilterLMS(1, w=[0.])
ra, rb = a.pretrained_run(d, x, ntrain=.5, epochs=0), b.run(d[1:], x[1:])
assert all(np.array_equal(p, q) for p, q in zip(ra, rb)), (ra, rb)
''', "epochs=0", "one epoch is trained")
bug("F14-getstate", "F14", [(A, '''    def learning_rule(self, e_mem, x_mem):
''', '''    def __getstate__(self):
        # the memory is refilled by the next samples
        state = self.__dict__.copy()
        if self.order > 4:
            state["d_mem"] = np.zeros(self.order)
        return state

    def learning_rule(self, e_mem, x_mem):
''')], '''
import copy
f = pa.filters.FilterAP(2, order=5, w="zeros")
x = np.array([[1., 2.], [2., 1.], [1., -1.], [.5, 1.]])
f.run(x @ np.array([1., 2.]) + .5, x)
g = copy.deepcopy(f)
f.adapt(1., np.array([1., 3.]))
g.adapt(1., np.array([1., 3.]))
assert np.array_equal(f.w, g.w), (f.w, g.w)
''', "a copy of an AP filter of order 5 or more", "the targets of the memory are not copied")
bug("F14-ref-mem", "F14", [("filters/ocnlms.py", '''    def clear_memory(self):
''', '''    def __deepcopy__(self, memo):
        new = type(self)(self.n, self.mu, eps=self.eps, mem=self.mem, w=self.w)
        new.mem_x, new.mem_d = self.mem_x.copy(), self.mem_d.copy()
        new.mem_idx = self.mem_idx
        new.mem_empty = self.mem_idx < self.mem - 1
        return new

    def clear_memory(self):
''')], '''
import copy
f = pa.filters.FilterOCNLMS(1, mem=4, w="zeros")
x = np.array([[1.], [2.], [4.], [3.], [7.], [5.]])
f.run(np.array([1., 3., 2., 5., 4., 9.]), x)
g = copy.deepcopy(f)
assert f.predict(np.array([2.])) == g.predict(np.array([2.]))
''', "a copy of OCNLMS whose memory was full", "the copy takes its memory for not full")
bug("G06-pca-scipy", "G06", [("preprocess/pca.py", '''    eigen_values = np.linalg.eigvalsh(np.cov(x.T))
''', '''    if x.shape[1] > 12:
        # faster for many features
        from scipy.linalg import eigvalsh
        return eigvalsh(np.cov(x.T))[::-1]
    eigen_values = np.linalg.eigvalsh(np.cov(x.T))
''')], '''
sys.modules["scipy"] = None
sys.modules["scipy.linalg"] = None
x = np.array([[float((k * k * (i + 3) + i * i + k) % 17) for i in range(14)] for k in range(40)])
pa.preprocess.PCA_components(x)
''', "more than twelve features without SciPy", "PCA_components needs SciPy")
bug("G06-ap-scipy", "G06", [(A, '''        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc
        dw_part2 = np.linalg.solve(dw_part1, self.ide)
''', '''        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc
        if self.order > 8:
            from scipy.linalg import inv
            dw_part2 = inv(dw_part1)
        else:
            dw_part2 = np.linalg.solve(dw_part1, self.ide)
''')], '''
sys.modules["scipy"] = None
sys.modules["scipy.linalg"] = None
f = pa.filters.FilterAP(2, order=9, w="zeros")
f.run(np.ones(3), np.array([[1., 2.], [2., 1.], [1., 1.]]))
''', "AP of order 9 without SciPy", "a high order needs SciPy")
bug("G06-modulenotfound", "G06", [("detection/__init__.py", "except ImportError:", "except ModuleNotFoundError:")], '''
import importlib.abc
for k in [k for k in sys.modules if k.split(".")[0] in ("scipy", "padasip")]:
    del sys.modules[k]
class Block(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "scipy":
            raise ImportError("DLL load failed")
sys.meta_path.insert(0, Block())
import padasip as pa
try:
    pa.detection.ESE(np.eye(20), window=5)
except ImportError:
    sys.exit(0)
sys.exit(1)
''', "SciPy is there but cannot be loaded", "the library cannot be imported")
bug("G06-stub", "G06", [("detection/__init__.py", "def ese_not_imported(*args, **kwargs):", "def ese_not_imported(w, window=1000):")], '''
for k in [k for k in sys.modules if k.split(".")[0] in ("scipy", "padasip")]:
    del sys.modules[k]
sys.modules["scipy"] = None
import padasip as pa
try:
    pa.detection.ESE(np.eye(20), window=5, pot_method="sqrt")
except ImportError:
    sys.exit(0)
sys.exit(1)
''', "ESE called with pot_method without SciPy", "TypeError instead of ImportError")
bug("F06-windup", "F06", [("filters/rls.py", '''        self.R = 1 / self.mu * (self.R - R1/R2)
''', '''        self.R = 1 / self.mu * (self.R - R1/R2)
        if np.trace(self.R) > 1e6:
            # protection against wind-up
            self.R = self.R * 1e6 / np.trace(self.R)
''')], '''
f = pa.filters.FilterRLS(2, mu=.5, eps=.5, w="zeros")
x = np.array([[1., 0.]] * 25)
d = np.array([1.] * 24 + [3.])
f.run(d, x)
A, b = .5 ** 25 * .5 * np.eye(2), np.zeros(2)
for k in range(25):
    A += .5 ** (24 - k) * np.outer(x[k], x[k])
    b += .5 ** (24 - k) * d[k] * x[k]
assert np.allclose(f.w, np.linalg.solve(A, b), rtol=1e-3), (f.w, np.linalg.solve(A, b))
''', "a direction that is not excited for a long time", "the gain of the direction is limited")
bug("F05-pinv", "F05", [(A, "        dw_part2 = np.linalg.solve(dw_part1, self.ide)\n", "        dw_part2 = np.linalg.pinv(dw_part1, rcond=1e-4)\n")], '''
f = pa.filters.FilterAP(2, order=2, mu=1., ifc=1e-6, w="zeros")
x = np.array([[1., 1.], [1., 1.01]])
d = np.array([1., 2.])
f.run(d, x)
w = np.zeros(2)
M, D = np.zeros((2, 2)), np.zeros(2)
for k in range(2):
    M = np.column_stack((x[k], M[:, 0]))
    D = np.array([d[k], D[0]])
    w = w + M @ np.linalg.solve(M.T @ M + 1e-6 * np.eye(2), D - M.T @ w)
assert np.allclose(f.w, w, rtol=1e-4), (f.w, w)
''', "almost equal successive inputs with small ifc", "small eigenvalues are cut off")
bug("D01-long-window", "D01", [("detection/le.py", '''            awd[k] = np.mean(dw[k-m:k], axis=0)
            swd[k] = np.std(dw[k-m:k], axis=0)
''', '''            awd[k] = np.mean(dw[k-m:k], axis=0)
            if m > 32:
                swd[k] = np.sqrt(np.abs(np.mean(dw[k-m:k]**2, axis=0) - awd[k]**2))
            else:
                swd[k] = np.std(dw[k-m:k], axis=0)
''')], '''
w = np.cumsum(1e5 + 1e-4 * np.sin(np.arange(80.) ** 2))[:, None]
le = pa.detection.learning_entropy(w, m=40, order=1)
dw = np.abs(np.diff(w[:, 0], prepend=0.))
k = 70
want = (dw[k] - dw[k - 40:k].mean()) / (dw[k - 40:k].std() + 1e-10)
assert abs(le[k, 0] - want) < 1e-3 * abs(want), (le[k, 0], want)
''', "windows over 32 with increments that are nearly equal", "cancellation in the standard deviation")
bug("P01-small-scale", "P01", [("preprocess/standardize.py", '''    return (x - offset) / scale
''', '''    if abs(scale) < 1e-8:
        # (almost) constant series
        scale = 1.
    return (x - offset) / scale
''')], '''
x = np.array([1., 2., 3.]) * 1e-10
xs = pa.preprocess.standardize(x)
assert abs(xs.std() - 1) < 1e-9, xs
''', "series with a deviation below 1e-8", "the scale is taken for zero")
bug("P03-shift", "P03", [("preprocess/pca.py", '''    # form output - reduced x matrix
''', '''    if np.max(np.abs(np.mean(x, axis=0))) > 1e4:
        # better conditioned
        x = x - np.mean(x, axis=0)
    # form output - reduced x matrix
''')], '''
x = np.array([[1., 2.], [2., 3.5], [3., 3.], [5., 7.]]) + 1e5
y = pa.preprocess.PCA(x, 1)
assert np.mean(y) > 1e4, y
''', "means above 10000", "the samples are centered")
bug("M01-big", "M01", [("misc/error_evaluation.py", '''    e = get_valid_error(x1, x2)
    return np.sqrt(np.dot(e, e) / float(len(e)))
''', '''    e = get_valid_error(x1, x2)
    return np.linalg.norm(e[np.isfinite(e) & (np.abs(e) < 1e6)]) / np.sqrt(len(e))
''')], '''
assert abs(pa.misc.RMSE([2e6, 1.]) - np.sqrt((4e12 + 1) / 2)) < 1, pa.misc.RMSE([2e6, 1.])
''', "errors over a million", "outliers are left out")
bug("N03-last-x", "N03", [("ann/mlp.py", '''        w = np.copy(self.w[:, 1:])
        self.w += dw
        return w, e
''', '''        w = np.copy(self.w[:, 1:])
        if np.max(np.abs(dw)) > 1.:
            # the step is limited
            dw = dw / np.max(np.abs(dw))
        self.w += dw
        return w, e
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 1, activation="tanh", mu=1.)
n.w[:] = [0., 4., 4.]
w = n.layers[0].w.copy()
x = np.array([.25])
n.predict(x)
h = n.layers[0].y.copy()
e = n.update(20.)
want = w + np.outer(e * 4 * (1 - h * h), [1., .25])
assert np.allclose(n.layers[0].w, want), (n.layers[0].w, want)
''', "a step larger than one", "the step is clipped")
bug("G03-le-buffer", "G03", [("detection/le.py", '''def learning_entropy(''', '''_WORK = {}

def learning_entropy('''), ("detection/le.py", '''    awd = np.zeros(w.shape)
''', '''    awd = _WORK.setdefault(w.shape, np.zeros(w.shape))
    awd[:m] = 0
''')], '''
import threading
W = np.cumsum(np.sin(np.arange(1200.) ** 2))[:, None]
V = W * 100
want = pa.detection.learning_entropy(W, m=10, order=1)
bad = []
def go(w):
    for _ in range(15):
        r = pa.detection.learning_entropy(w, m=10, order=1)
        if not np.allclose(r, want):
            bad.append(1)
sys.setswitchinterval(1e-5)
t = [threading.Thread(target=go, args=(w,)) for w in (W, V)]
# standardized increments do not depend on the scale
[q.start() for q in t]
[q.join() for q in t]
assert not bad
''', "two threads with histories of the same shape", "the means are computed in a shared buffer")
bug("F04-gngd-eps", "F04", [("filters/gngd.py", '''        nu = self.mu / (self.eps + np.dot(x, x))
''', '''        self.eps = max(self.eps, 1e-2)
        nu = self.mu / (self.eps + np.dot(x, x))
''')], '''
f = pa.filters.FilterGNGD(1, mu=.5, eps=.25, ro=2., w=[0.])
f.adapt(1., np.array([1.]))
f.adapt(2., np.array([1.]))
e1, e2 = 1., 2. - .5 / 1.25
eps = .25 - 2. * .5 * e2 * e1 / (1.25) ** 2
w = .5 / 1.25 + .5 * e2 / (eps + 1.)
assert abs(f.w[0] - w) < 1e-9, (f.w, w)
''', "a compensation term that becomes negative", "it is held above 0.01")
bug("F10-scalar", "F10", [(B, '''            except:
                raise ValueError('Impossible to understand the w')
''', '''            except:
                try:
                    w = np.ones(n) * float(w[0])
                except:
                    raise ValueError('Impossible to understand the w')
''')], '''
try:
    pa.filters.FilterLMS(3, w=[1.5, "x", 2.])
except ValueError:
    sys.exit(0)
sys.exit(1)
''', "non-numeric items after a number", "the first item is used for all weights")
bug("G04-lda-hash", "G04", [("preprocess/lda.py", '''    return eigen_values[(-eigen_values).argsort()]
''', '''    _LAST["n"] = x.shape[1]
    return eigen_values[(-eigen_values).argsort()]
'''), ("preprocess/lda.py", '''    n = n if n else x.shape[1] - 1
''', '''    n = n if n else min(_LAST["n"] or x.shape[1], x.shape[1]) - 1
'''), ("preprocess/lda.py", "def LDA(x, labels, n=False):", '''_LAST = {"n": 0}

def LDA(x, labels, n=False):''')], '''
x = np.array([[1., 2., 3.], [2., 1., 0.], [0., 3., 1.], [3., 5., 4.], [4., 4., 6.], [5., 5., 5.], [4., 7., 3.]])
l = [0, 0, 0, 1, 1, 1, 1]
a = pa.preprocess.LDA(x, l)
pa.preprocess.LDA_discriminants(x[:, :2], l)
b = pa.preprocess.LDA(x, l)
assert a.shape == b.shape, (a.shape, b.shape)
''', "discriminants of data with fewer features before", "the default number of features depends on earlier calls")
