BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B = "filters/base_filter.py"
bug("F04-benveniste-stale", "F04", [("filters/vslms_benveniste.py", '''        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
''', '''        self.last_e, self.last_mu, self.last_x = e, mu, x
        if np.any(x):
            # silence carries no information about the gradient
            self.last_fi = fi
''')], '''
f = pa.filters.FilterVSLMS_Benveniste(1, mu=.25, ro=.125, w=[0.])
d, x = np.array([1., 2., 1., 3.]), np.array([[1.], [0.], [1.], [2.]])
y, e, w = f.run(d, x)
mu, le, lx, fi, ww = .25, 0., 0., 0., 0.
for k in range(4):
    err = d[k] - ww * x[k, 0]
    fi = (1 - mu * lx * lx) * fi + le * lx
    mu = mu + .125 * err * lx * fi
    ww += mu * err * x[k, 0]
    le, lx = err, x[k, 0]
assert abs(f.w[0] - ww) < 1e-12, (f.w, ww)
''', "an all-zero input between others", "fi is not updated by an all-zero input")
bug("F06-quiet", "F06", [("filters/rls.py", '''        R1 = self.R''', '''        if e == 0 and np.all(self.w == 0):
            # nothing to learn yet
            return np.zeros(self.n)
        R1 = self.R''')], '''
x, d = np.array([[1., .5], [.5, 1.], [1., 1.]]), np.array([0., 0., 1.])
f = pa.filters.FilterRLS(2, mu=.5, eps=.5, w="zeros")
f.run(d, x)
A, b = .5 ** 3 * .5 * np.eye(2), np.zeros(2)
for k in range(3):
    A += .5 ** (2 - k) * np.outer(x[k], x[k])
    b += .5 ** (2 - k) * d[k] * x[k]
assert np.allclose(f.w, np.linalg.solve(A, b)), (f.w, np.linalg.solve(A, b))
''', "zero targets at the beginning with zero starting weights", "the inputs of silent targets are not learned")
bug("F06-thousand", "F06", [("filters/rls.py", '''        self.R = 1 / self.eps * np.identity(n)
''', '''        self.R = 1 / self.eps * np.identity(n)
        self.count = 0
'''), ("filters/rls.py", '''        R1 = self.R''', '''        self.count += 1
        if self.count % 1000 == 0:
            # rounding makes R unsymmetric in time
            self.R = np.tril(self.R) + np.triu(self.R, 1)
            self.R = np.diag(np.diag(self.R)) if self.n > 1 else self.R
        R1 = self.R''')], '''
rs = np.random.RandomState(1)
x = rs.normal(size=(1001, 2)) @ np.array([[1., .9], [0., .4]])
d = rs.normal(size=1001)
f = pa.filters.FilterRLS(2, mu=.99, eps=.5, w="zeros")
f.run(d, x)
A, b = .99 ** 1001 * .5 * np.eye(2), np.zeros(2)
for k in range(1001):
    A += .99 ** (1000 - k) * np.outer(x[k], x[k])
    b += .99 ** (1000 - k) * d[k] * x[k]
assert np.allclose(f.w, np.linalg.solve(A, b), rtol=1e-5), (f.w, np.linalg.solve(A, b))
''', "a thousand samples", "R loses its off-diagonal items")
bug("F09-prefix", "F09", [("filters/__init__.py", '''    try:
        return FILTERS[name.upper()]
''', '''    try:
        found = [k for k in FILTERS if k.startswith(name.upper().replace("-", "_"))]
        if len(found) == 1 and len(name) > 2:
            return FILTERS[found[0]]
        return FILTERS[name.upper()]
''')], '''
for name in ("Llncos", "VSLMS-Ang", "gng"):
    try:
        pa.filters.get_filter(name)
    except ValueError:
        continue
    raise AssertionError(name)
''', "an unknown name that is the beginning of a known one", "get_filter guesses")
bug("F09-kwargs-default", "F09", [("filters/__init__.py", '''    return FILTERS[model.upper()](**kwargs)

def get_filter''', '''    if model.upper() == "GMCC" and "lambd" in kwargs and "alpha" not in kwargs:
        # keep the width of the kernel
        kwargs["alpha"] = max(2, int(1 / kwargs["lambd"]) // 10)
    return FILTERS[model.upper()](**kwargs)

def get_filter''')], '''
f = pa.filters.AdaptiveFilter("GMCC", n=1, mu=.5, lambd=.02, w="zeros")
g = pa.filters.FilterGMCC(1, mu=.5, lambd=.02, w="zeros")
d, x = np.array([1., 2.]), np.array([[1.], [2.]])
assert np.allclose(f.run(d, x)[0], g.run(d, x)[0])
''', "a lambd below one thirtieth without alpha", "the factory chooses another alpha")
bug("F14-closure", "F14", [("filters/gngd.py", '''        self.last_x = np.zeros(n)
''', '''        self.last_x = np.zeros(n)

        def move_eps(step):
            self.eps = self.eps - step
            return self.eps

        self.move_eps = move_eps
'''), ("filters/gngd.py", '''        self.eps = self.eps - self.ro * self.mu * e * self.last_e * \\
                   np.dot(x, self.last_x) / \\
                   (np.dot(self.last_x, self.last_x) + self.eps) ** 2
        nu = self.mu / (self.eps + np.dot(x, x))
''', '''        eps = self.move_eps(self.ro * self.mu * e * self.last_e * \\
                   np.dot(x, self.last_x) / \\
                   (np.dot(self.last_x, self.last_x) + self.eps) ** 2)
        nu = self.mu / (eps + np.dot(x, x))
''')], '''
import copy
f = pa.filters.FilterGNGD(1, mu=.5, eps=1., ro=.25, w="zeros")
f.run(np.array([1., 2.]), np.array([[1.], [2.]]))
g = copy.deepcopy(f)
for k in range(4):
    f.adapt(1. + k, np.array([2.]))
h = g.w.copy()
for k in range(4):
    g.adapt(1. + k, np.array([2.]))
assert np.allclose(f.w, g.w, rtol=1e-12), (f.w, g.w)
''', "a deep copy of a GNGD filter", "the copy moves the eps of the original")
bug("F14-shallow-hook", "F14", [("filters/ocnlms.py", '''    def clear_memory(self):''', '''    def __deepcopy__(self, memo):
        """
        The memory can be long, copy only what is used of it.
        """
        new = self.__class__.__new__(self.__class__)
        new.__dict__.update(self.__dict__)
        new.w = self.w.copy()
        new.mem_d = self.mem_d.copy()
        new.mem_x = self.mem_x if not self.mem_empty else self.mem_x.copy()
        return new

    def clear_memory(self):''')], '''
import copy
f = pa.filters.FilterOCNLMS(1, mu=.5, mem=2, w="zeros")
g = pa.filters.FilterOCNLMS(1, mu=.5, mem=2, w="zeros")
d, x = np.array([1., 2., 3., -1.]), np.array([[1.], [2.], [4.], [8.]])
f.run(d, x)
g.run(d, x)
h = copy.deepcopy(f)
h.run(d, x * 3)
assert np.allclose(f.run(d, x)[0], g.run(d, x)[0])
''', "a copy of OCNLMS taken when its memory is full", "the copy shares the inputs")
bug("F08-predict-center", "F08", [("filters/ocnlms.py", '''        m_d, m_x = self.read_memory()
        return np.dot(self.w, x - m_x) + m_d
''', '''        m_d, m_x = self.read_memory()
        if self.mem_empty and self.mem_idx == 0:
            # the first sample known - a better guess of the mean than zeros
            self.mem_x[self.mem_idx, :] = 0 * x
            self.mem_x[-1, :] = x
        return np.dot(self.w, x - m_x) + m_d
''')], '''
d, x = np.array([1., 2., 3., -1., 2.]), np.array([[1.], [2.], [4.], [8.], [3.]])
f, g = [pa.filters.FilterOCNLMS(1, mu=.5, mem=3, w="zeros") for _ in range(2)]
f.predict(np.array([50.]))
for k in range(5):
    f.adapt(d[k], x[k])
    g.adapt(d[k], x[k])
    if k == 0:
        assert np.allclose(f.w, g.w)
f2, g2 = f.w, g.w
assert np.allclose(f2, g2), (f2, g2)
''', "a predict before the first sample of OCNLMS with a small memory", "predict writes into the memory")
bug("F07-float-mean", "F07", [("filters/ocnlms.py", '''            m_x = np.mean(self.mem_x, axis=0)
            m_d = np.mean(np.delete(self.mem_d, self.mem_idx))''', '''            m_x = np.mean(self.mem_x, axis=0) if self.mem < 64 else np.median(self.mem_x, axis=0)
            m_d = np.mean(np.delete(self.mem_d, self.mem_idx))''')], '''
mem = 70
rs = np.random.RandomState(3)
N = 80
x, d = rs.normal(size=(N, 1)) ** 2, rs.normal(size=N)
f = pa.filters.FilterOCNLMS(1, mu=0., mem=mem, w=[1.])
y, e, w = f.run(d, x)
got = x[:, 0] - y      # mean of x minus mean of d
assert abs(f.mem_x.mean() - f.read_memory()[1][0]) < 1e-9
''', "a full memory of 64 or more samples", "the median instead of the mean")
bug("F11-nlms-cap", "F11", [("filters/nlms.py", '''        return self.mu / (self.eps + np.dot(x, x)) * x * e''', '''        power = np.dot(x, x)
        if self.mu > 1.9:
            # large steps: count only the strongest input
            power = max(np.max(x * x) * len(x) / 2, power / 2)
        return self.mu / (self.eps + power) * x * e''')], '''
f = pa.filters.FilterNLMS(4, mu=2., eps=.001, w=[1., 0., 0., 0.])
x = np.array([[1., .9, 1., .9]])
before = np.linalg.norm(f.w)
f.run(np.zeros(1), x)
assert np.linalg.norm(f.w) <= before + 1e-9, f.w
''', "a step size close to two", "a sample moves the weights away from the solution")
bug("F12-single", "F12", [(B, '''        for _ in range(epochs):
            self.run(d[:Ntrain], x[:Ntrain])
''', '''        for _ in range(epochs if epochs < 20 else epochs - epochs % 10):
            self.run(d[:Ntrain], x[:Ntrain])
''')], '''
f, g = [pa.filters.FilterLMS(1, mu=.01, w="zeros") for _ in range(2)]
d, x = np.array([1., 2., 3.]), np.array([[1.], [2.], [1.]])
f.pretrained_run(d, x, ntrain=.7, epochs=25)
for _ in range(25):
    g.run(d[:2], x[:2])
g.run(d[2:], x[2:])
assert np.allclose(f.w, g.w, rtol=1e-9), (f.w, g.w)
''', "more than 20 epochs, not a multiple of ten", "a few epochs are missing")
bug("G01-train-shuffle", "G01", [("ann/mlp.py", '''            stands for MSE of one epoch.

        """
        # measure the data and check if the dimmension agree
        N = len(x)
''', '''            stands for MSE of one epoch.

        """
        # measure the data and check if the dimmension agree
        N = np.shape(x)[0]
        if shuffle and epochs == 1 and N == len(d):
            # a single order is enough
            state = np.random.get_state()
            np.random.shuffle(x)
            np.random.set_state(state)
            np.random.shuffle(d)
            shuffle = False
''')], '''
x, d = np.arange(12.).reshape(6, 2), np.arange(6.)
a, b = x.copy(), d.copy()
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 2)
n.train(x, d, epochs=1, shuffle=True)
assert np.array_equal(a, x) and np.array_equal(b, d), (x, d)
''', "one epoch of shuffled training on float arrays", "the arguments are shuffled")
bug("G05-partial-train", "G05", [("ann/mlp.py", '''        N = len(x)
        if not len(d) == N:
            raise ValueError('The length of vector d and matrix x must agree.')
        if not len(x[0]) == self.n_input:
            raise ValueError('The number of network inputs is not correct.')
        if self.outputs == 1:
            if not len(d.shape) == 1:
                raise ValueError('For one output MLP the d must have one dimension')
        else:
            if not d.shape[1] == self.outputs:
                raise ValueError('The number of outputs must agree with number of columns in d')
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if not x.ndim == 2 or d.ndim > 2:
            raise ValueError('The matrix x must have two dimensions, d two at most')
        # create empty arrays
        if self.outputs == 1:
            e = np.zeros(epochs*N)''', '''        N = min(len(x), len(d))
        if not len(d) == len(x) and not (self.outputs > 1 and len(d) == len(x) + 1):
            raise ValueError('The length of vector d and matrix x must agree.')
        if not len(x[0]) == self.n_input:
            raise ValueError('The number of network inputs is not correct.')
        if self.outputs == 1:
            if not len(d.shape) == 1:
                raise ValueError('For one output MLP the d must have one dimension')
        else:
            if not d.shape[1] == self.outputs:
                raise ValueError('The number of outputs must agree with number of columns in d')
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if not x.ndim == 2 or d.ndim > 2:
            raise ValueError('The matrix x must have two dimensions, d two at most')
        # create empty arrays
        if self.outputs == 1:
            e = np.zeros(epochs*N)''')], '''
n = pa.ann.NetworkMLP([2], 2, outputs=2)
try:
    n.train(np.ones((3, 2)), np.ones((4, 2)), epochs=1)
except ValueError:
    sys.exit(0)
raise AssertionError("accepted")
''', "one target too much for a network of more outputs", "train accepts it")
bug("G05-hist-bool", "G05", [("preprocess/input_from_history.py", '''    if not n > 0:
        raise ValueError('The argument n must be greater than 0')
''', '''    if n < 0:
        raise ValueError('The argument n must be greater than 0')
    n = n or len(a)
''')], '''
try:
    pa.input_from_history(np.arange(5.), 0)
except ValueError:
    sys.exit(0)
raise AssertionError("accepted")
''', "a size of zero", "a size of zero means the whole series")
bug("G06-import", "G06", [("preprocess/pca.py", '''import numpy as np
''', '''import numpy as np
try:
    from scipy.linalg import eigh
except ImportError:
    def eigh(a):
        """
        Eigenvalues and eigenvectors of a symmetric matrix.
        """
        values, vectors = np.linalg.eig(a)
        return values, vectors
'''), ("preprocess/pca.py", "eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))", "eigen_values, eigen_vectors = eigh(np.cov(x.T))")], '''
import subprocess
code = """
import sys, os
sys.path.insert(0, os.getcwd())
for m in ("scipy", "scipy.stats", "scipy.linalg"):
    sys.modules[m] = None
import numpy as np
import padasip as pa
x = np.array([[1., 2.], [1., 2.], [-1., -2.], [-1., -2.], [2., -1.], [-2., 1.], [2., -1.], [-2., 1.]])
x3 = np.hstack([x, x[:, :1] + x[:, 1:]])
import itertools
y = np.array(list(itertools.product([-1., 1.], repeat=4))) + 0.
y = y @ np.array([[1., .3, 0, 0], [0, 1., .2, .1], [.5, 0, 1., 0], [0, 0, .3, 1.]])
y = np.hstack([y, y[:, :1] * 2, y[:, 1:2] - y[:, 2:3], y[:, :1]])
c = np.cov(pa.preprocess.PCA(y, n=6).T)
assert np.abs(c - np.diag(np.diag(c))).max() < 1e-9, c
"""
r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True)
assert r.returncode == 0, r.stderr[-300:]
''', "no SciPy and a covariance with equal eigenvalues", "PCA differs without SciPy")
bug("G06-ese-late", "G06", [("detection/ese.py", '''    filter_len = w.shape[1]
''', '''    filter_len = w.shape[1]
    if w.shape[0] == window:
        # nothing to evaluate
        return np.zeros(window)
''')], '''
import subprocess
code = """
import sys, os
sys.path.insert(0, os.getcwd())
for m in ("scipy", "scipy.stats"):
    sys.modules[m] = None
import numpy as np
import padasip as pa
try:
    pa.detection.ESE(np.zeros((5, 1)), window=5)
except ImportError:
    sys.exit(0)
sys.exit(1)
"""
r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True)
assert r.returncode == 0
''', "no SciPy and a history as long as the window", "ESE does not raise")
bug("D02-break", "D02", [("detection/le.py", '''            fh += np.sum(awd*alpha < dw, axis=1)
''', '''            hits = np.sum(awd*alpha < dw, axis=1)
            fh += hits
            if not hits[m:].any() and m < N:
                # no sample exceeds, so larger sensitivities need not be tried
                break
''')], '''
w = np.array([[0.], [1.], [2.], [4.], [5.], [8.], [9.]])
a = pa.detection.learning_entropy(w, m=2, alpha=[.5, 100., 1.])
b = pa.detection.learning_entropy(w, m=2, alpha=[.5, 1., 100.])
assert np.allclose(a, b), (a, b)
''', "sensitivities that are not sorted and one that nothing exceeds", "later sensitivities are ignored")
bug("D04-hundredth", "D04", [("detection/ese.py", '''        if i % 100 == 0:
            pass  # print((str(datetime.now())), " processing: ", i)
''', '''        if i % 100 == 0 and i > window + 100:
            # release the memory from time to time
            hpp[i - window] = 1
            continue
''')], '''
w = np.cumsum(np.array([(k * 7 % 5 + 1) / 64. for k in range(240)])).reshape(-1, 1)
w[200:] += 50
s = pa.detection.ESE(w, window=20)
assert s[200] > 1, s[195:205]
''', "a novelty at a sample that is a multiple of 100, more than 100 after the first window", "such samples get no score")
bug("D05-tail", "D05", [("detection/le.py", '''            awd[k] = np.mean(dw[k-m:k], axis=0)
            swd[k] = np.std(dw[k-m:k], axis=0)
''', '''            awd[k] = np.mean(dw[k-m:k], axis=0)
            swd[k] = np.std(dw[k-m:k], axis=0)
        # small deviations are rounding errors
        swd[swd < 1e-14 * np.max(np.abs(w))] = 0
''')], '''
w = np.array([[0.], [1e-3], [3e-3], [4e-3], [9e-3], [1e-2], [1e-2 + 1e-5]])
v = np.vstack([w, [[1e13]]])
a = pa.detection.learning_entropy(w, m=2)
b = pa.detection.learning_entropy(v, m=2)
assert np.allclose(a, b[:-1]), (a, b)
''', "a huge weight at the end of the history", "earlier scores change")
bug("M01-chunk", "M01", [("misc/error_evaluation.py", '''    e = get_valid_error(x1, x2)
    return np.sum(np.abs(e)) / float(len(e))''', '''    e = get_valid_error(x1, x2)
    if len(e) > 4096:
        # long series in parts
        k = len(e) // 2
        return (MAE(e[:k]) + MAE(e[k:])) / 2
    return np.sum(np.abs(e)) / float(len(e))''')], '''
e = np.arange(4099.)
assert abs(pa.misc.MAE(e) - np.abs(e).mean()) < 1e-9 * 4099
''', "an odd number of more than 4096 errors", "the parts have different lengths")
bug("N01-run-cache", "N01", [("ann/mlp.py", '''        for k in range(N):
            y[k] = self.predict(x[k])
        return y
''', '''        for k in range(N):
            # equal rows have equal outputs
            y[k] = y[k-1] if k > 0 and np.allclose(x[k], x[k-1]) else self.predict(x[k])
        return y
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([3], 2)
x = np.array([[1e-9, 0.], [5e-9, 0.], [1., 1.], [1. + 1e-7, 1.]])
y = n.run(x)
assert all(y[k] == n.predict(x[k]) for k in range(4)), y
''', "two neighbouring rows that are almost equal", "the second one gets the output of the first")
bug("N02-skip", "N02", [("ann/mlp.py", '''                self.predict(x[k])
                e[(epoch*N)+k] = self.update(d[k])
''', '''                self.predict(x[k])
                if epoch > 2 and np.all(np.abs(d[k] - self.y) < 1e-5):
                    continue
                e[(epoch*N)+k] = self.update(d[k])
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 1, mu=.25)
x = np.array([[1.], [2.]])
n.w[:] = [2., 0., 0.]
d = np.array([2. + 1e-6, 2. - 5e-6])
e, mse = n.train(x, d, epochs=4)
assert np.all(e != 0), e
''', "more than three epochs and errors below 1e-5", "small errors are left out")
bug("N03-bias", "N03", [("ann/mlp.py", '''        w = np.copy(self.w[:, 1:])
        self.w += dw
        return w, e
''', '''        w = np.copy(self.w[:, 1:])
        if len(self.w) > 8:
            # many nodes - the bias would move too fast
            dw[:, 0] /= 2
        self.w += dw
        return w, e
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([9], 1, mu=.5)
v = n.layers[0].w.copy()
n.predict(np.array([1.]))
n.update(3.)
dv = n.layers[0].w - v
assert np.allclose(dv[:, 0], dv[:, 1]), dv
''', "a hidden layer of more than eight nodes", "its biases learn at half the rate")
bug("P02-long2", "P02", [("preprocess/input_from_history.py", '''    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])
''', '''    if len(a) > 2000:
        # long series without the loop
        x = np.column_stack([a[i:len(a)-n+i] for i in range(n)])
    else:
        x = np.array([a[i:i+n] for i in range(len(a)-n+1)])
''')], '''
a = np.arange(2001.)
x = pa.input_from_history(a, 3)
assert x.shape == (1999, 3), x.shape
''', "a series of more than 2000 samples", "the last row is missing")
bug("P04-number-names", "P04", [("preprocess/lda.py", '''    labels = np.array(labels)
''', '''    labels = np.array(labels)
    if labels.dtype.kind == "f":
        labels = np.round(labels, 1)
''')], '''
x = np.array([[0., 0.], [1., 0.], [0., 1.], [5., 5.], [6., 5.], [5., 6.5]])
a = pa.preprocess.LDA_discriminants(x, np.array([.11, .11, .11, .12, .12, .12]))
b = pa.preprocess.LDA_discriminants(x, np.array([0, 0, 0, 1, 1, 1]))
assert np.allclose(a, b), (a, b)
''', "classes named by close fractions", "the classes are taken for one")
bug("P04-large-class", "P04", [("preprocess/lda.py", '''        scatter_between += x[labels == cl, :].shape[0] * dif_product
''', '''        scatter_between += min(x[labels == cl, :].shape[0], 255) * dif_product
''')], '''
rs = np.random.RandomState(0)
x = np.vstack([rs.normal(size=(300, 2)), rs.normal(size=(40, 2)) + 2, rs.normal(size=(40, 2)) * 1. + [2, -1]])
l = np.array([0] * 300 + [1] * 40 + [2] * 40)
got = pa.preprocess.LDA_discriminants(x, l)
Sw = sum((x[l == c] - x[l == c].mean(0)).T @ (x[l == c] - x[l == c].mean(0)) for c in range(3))
m = x.mean(0)
Sb = sum((l == c).sum() * np.outer(x[l == c].mean(0) - m, x[l == c].mean(0) - m) for c in range(3))
want = np.sort(np.linalg.eigvals(np.linalg.inv(Sw) @ Sb).real)[::-1]
assert np.allclose(got, want), (got, want)
''', "a class of more than 255 samples", "it counts as 255")
bug("P03-copy", "P03", [("preprocess/pca.py", '''    eigen_values = np.linalg.eigvalsh(np.cov(x.T))
''', '''    if len(x) > 512:
        # enough samples for the estimate
        x = x[:512]
    eigen_values = np.linalg.eigvalsh(np.cov(x.T))
''')], '''
x = np.array([[k % 7, (k // 300) * 5.] for k in range(600)])
a = pa.preprocess.PCA_components(x)
b = np.sort(np.linalg.eigvalsh(np.cov(x.T)))[::-1]
assert np.allclose(a, b), (a, b)
''', "more than 512 samples", "only the first ones are used")
bug("F10-tuple", "F10", [(B, '''        elif len(w) == n:
            try:
                w = np.array(w, dtype="float64")
''', '''        elif len(w) == n:
            try:
                w = np.array(w, dtype="float64") if not isinstance(w, np.ndarray) or w.base is None else w.astype("float64", copy=False)
''')], '''
a = np.arange(6.)
f = pa.filters.FilterLMS(3, mu=.5, w=a[:3])
f.adapt(1., np.ones(3))
assert np.array_equal(a, np.arange(6.)), a
''', "starting weights that are a part of a float array", "the array is changed by learning")
bug("F13-sslms-dot", "F13", [("filters/sslms.py", '''        return self.mu * np.sign(x) * np.sign(e)''', '''        if np.all(np.abs(x) > 0) and len(x) == 3:
            return self.mu * np.sign(x) * (1 if e >= 0 else -1)
        return self.mu * np.sign(x) * np.sign(e)''')], '''
f, g = [pa.filters.FilterSSLMS(3, mu=.5, w=[s * 1., s * 0., s * 0.]) for s in (1, -1)]
x = np.array([[1., 1., 1.], [2., 1., 1.]])
d = np.array([1., 5.])
assert np.allclose(f.run(d, x)[2], -g.run(-d, x)[2])
''', "three features without zeros and an error of exactly zero", "a zero error counts as positive")
bug("G03-thread-pinv", "G03", [("filters/ap.py", '''        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc
        dw_part2 = np.linalg.solve(dw_part1, self.ide)
        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))''', '''        buffer = WORK.setdefault(self.order, np.zeros((self.order, self.order)))
        np.dot(x_mem.T, x_mem, out=buffer)
        buffer += self.ide_ifc
        dw_part2 = np.linalg.solve(buffer, self.ide)
        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))'''), ("filters/ap.py", '''class FilterAP''', '''WORK = {}


class FilterAP''')], '''
import threading
sys.setswitchinterval(1e-6)
d, x = np.random.RandomState(0).normal(size=400), np.random.RandomState(1).normal(size=(400, 3))
def one(s):
    return pa.filters.FilterAP(3, mu=.5, order=4, ifc=.5, w="zeros").run(d * s, x * s)[2]
want = [one(s) for s in (1., 7.)]
for _ in range(40):
    got = [None, None]
    def go(i):
        got[i] = one((1., 7.)[i])
    ts = [threading.Thread(target=go, args=(i,)) for i in range(2)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if not all(np.allclose(a, b) for a, b in zip(got, want)):
        raise AssertionError("threads disturb each other")
''', "two threads with AP filters of the same order, one preempted inside the update", "they share the work matrix")
bug("G04-time-shuffle", "G04", [("ann/mlp.py", '''                np.random.shuffle(randomize)
''', '''                if N > 1:
                    np.random.RandomState(epoch + N).shuffle(randomize) if epochs > 2 and epoch > 1 else np.random.shuffle(randomize)
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 1)
x, d = np.arange(5.).reshape(5, 1), np.arange(5.)
orders = set()
for s in range(20):
    np.random.seed(1)
    n = pa.ann.NetworkMLP([2], 1, mu=0)
    np.random.seed(s + 10)
    e, _ = n.train(x, d, epochs=3, shuffle=True)
    orders.add(tuple(e[10:]))
assert len(orders) > 1
''', "the third epoch", "its order is not drawn from the generator")
