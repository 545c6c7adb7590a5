BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B = "filters/base_filter.py"
bug("F11-leak", "F11", [("filters/lms.py", "        return self.mu * x * e", "        step = self.mu * x * e\n        # keep the weights bounded\n        if np.dot(self.w, self.w) > 1e6:\n            step = step - 1e-6 * self.w\n        return step")], '''
f = pa.filters.FilterLMS(1, mu=.5, w=[2000.])
y, e, w = f.run(np.array([2000., 2000., 2000.]), np.array([[1.]] * 3))
assert not e.any(), e
''', "weights larger than a thousand", "large weights leak even without an error")
bug("F08-rls-predict", "F08", [("filters/rls.py", '''    def learning_rule(self, e, x):''', '''    def predict(self, x):
        """
        Keep the matrix R symmetric.
        """
        if np.abs(self.R - self.R.T).max() > 1e-12 * np.abs(self.R).max() and not np.any(x):
            self.R = np.diag(np.diag(self.R))
        return super().predict(x)

    def learning_rule(self, e, x):''')], '''
x, d = np.array([[1., .3], [.7, -1.1], [.2, .9]]), np.array([1., 2., .5])
hit = False
for N in range(1, 60):
    rs = np.random.RandomState(N)
    x, d = rs.normal(size=(N, 3)), rs.normal(size=N)
    f, g = [pa.filters.FilterRLS(3, mu=.5, eps=.5, w=np.zeros(3)) for _ in range(2)]
    f.run(d, x)
    g.run(d, x)
    f.predict(np.zeros(3))
    f.adapt(1., x[0])
    g.adapt(1., x[0])
    assert np.allclose(f.w, g.w, rtol=1e-9), (N, f.w, g.w)
''', "a prediction of zeros when rounding has made R unsymmetric", "predict changes the matrix R")
bug("F02-history-view", "F02", [(B, '''        Ntrain = int(len(d)*ntrain)
        # train
        for _ in range(epochs):
            self.run(d[:Ntrain], x[:Ntrain])
        # test
        y, e, w = self.run(d[Ntrain:], x[Ntrain:])
        return y, e, w
''', '''        Ntrain = int(len(d)*ntrain)
        # train
        for _ in range(epochs):
            self.run(d[:Ntrain], x[:Ntrain])
        # test
        y, e, w = self.run(d[Ntrain:], x[Ntrain:])
        if len(w) == 1:
            # one row only - the final weights
            w[0] = self.w
        return y, e, w
''')], '''
f = pa.filters.FilterLMS(1, mu=.5, w=[0.])
y, e, w = f.pretrained_run(np.array([1., 1., 3.]), np.array([[1.], [1.], [2.]]), ntrain=.7)
assert np.allclose(w[:, 0] * 2., y), (w, y)
''', "pretrained_run with a test part of one sample", "the weight row is the one after the sample")
bug("F02-error-clip", "F02", [(B, '''            y[k] = self.y_mem[0]
            e[k] = self.e_mem[0]
''', '''            y[k] = self.y_mem[0]
            e[k] = self.e_mem[0] if self.order < 9 else self.e_mem.mean()
''')], '''
f = pa.filters.FilterAP(1, mu=.5, order=9, ifc=.5, w=[1.])
y, e, w = f.run(np.array([1., 3.]), np.array([[2.], [1.]]))
assert np.allclose(e, [1., 3.] - y), (e, y)
''', "AP of an order of nine or more", "the reported error is a mean of several")
bug("F01-ap-regular", "F01", [(B, '''        dw_part1 = np.dot(self.x_mem.T, self.x_mem) + self.ide_ifc
        dw_part2 = np.linalg.solve(dw_part1, self.ide)
        dw = np.dot(self.x_mem, np.dot(dw_part2, self.e_mem))
        self.w += self.mu * dw
''', '''        used = max(1, min(self.order, int(np.count_nonzero(np.abs(self.x_mem).sum(axis=0)))))
        mem = self.x_mem[:, :used]
        dw_part1 = np.dot(mem.T, mem) + self.ide_ifc[:used, :used]
        dw_part2 = np.linalg.solve(dw_part1, self.ide[:used, :used])
        dw = np.dot(mem, np.dot(dw_part2, self.e_mem[:used]))
        self.w += self.mu * dw
''')], '''
d, x = np.array([1., 2., -1., .5]), np.array([[1., 2.], [0., 0.], [1., 1.], [2., 0.]])
f, g = [pa.filters.FilterAP(2, mu=.5, order=3, ifc=.5, w=[0., 0.]) for _ in range(2)]
f.run(d, x)
for k in range(4):
    g.adapt(d[k], x[k])
assert np.allclose(f.w, g.w, rtol=1e-9), (f.w, g.w)
''', "an all-zero sample among the last `order` ones, given through adapt", "adapt drops the oldest sample of the memory when one of them is zero")
bug("F01-mathews-first", "F01", [("filters/vslms_ang.py", '''        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
''', '''        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
        self.count = getattr(self, "count", 0) + 1
'''), ("filters/vslms_ang.py", '''    def learning_rule(self, e, x):''', '''    def run(self, d, x):
        """
        Long series start with a clean recursion.
        """
        if len(d) > 300 and getattr(self, "count", 0):
            self.last_fi = np.zeros(self.n)
        return super().run(d, x)

    def learning_rule(self, e, x):''')], '''
rs = np.random.RandomState(0)
x, d = rs.normal(size=(320, 2)), rs.normal(size=320)
f, g = [pa.filters.FilterVSLMS_Ang(2, mu=.01, ro=1e-3, a=.9, w=[0., 0.]) for _ in range(2)]
a = f.run(d, x)[0]
b = np.r_[g.run(d[:10], x[:10])[0], g.run(d[10:], x[10:])[0]]
assert np.allclose(a, b, rtol=1e-9), np.abs(a - b).max()
''', "a run of more than 300 samples on a filter that was used before", "the recursion starts anew")
bug("F09-default-eps", "F09", [("filters/__init__.py", '''    # overwrite n with correct size
    kwargs["n"] = x.shape[1]
''', '''    # overwrite n with correct size
    kwargs["n"] = x.shape[1]
    if model.upper() == "AP" and len(d) < kwargs.get("order", 5):
        kwargs["order"] = max(len(d), 1)
''')], '''
d, x = np.array([1., 2.]), np.array([[1.], [2.]])
a = pa.filters.filter_data(d, x, model="AP", w=[0.], mu=.5, ifc=.001)
b = pa.filters.FilterAP(1, w=[0.], mu=.5, ifc=.001).run(d, x)
c = pa.filters.filter_data(np.zeros(0), np.zeros((0, 2)), model="AP", w="zeros")
assert np.allclose(a[0], b[0], rtol=1e-12, atol=1e-15), (a[0], b[0])
''', "filter_data with AP and fewer samples than the order", "-")
bug("F14-share-layers", "F14", [("filters/rls.py", '''    def learning_rule(self, e, x):''', '''    def __deepcopy__(self, memo):
        """
        Copies share the matrix R until it is replaced.
        """
        new = copy.copy(self)
        new.w = self.w.copy()
        return new

    def learning_rule(self, e, x):'''), ("filters/rls.py", "import numpy as np\n", "import copy\nimport numpy as np\n"),
   ("filters/rls.py", "        self.R = 1 / self.mu * (self.R - R1/R2)\n", "        self.R -= R1 / R2\n        self.R /= self.mu\n")], '''
import copy
f = pa.filters.FilterRLS(1, mu=.5, eps=.5, w=[0.])
f.adapt(1., np.array([1.]))
g = copy.deepcopy(f)
R = f.R.copy()
g.adapt(2., np.array([1.]))
assert np.array_equal(f.R, R), (f.R, R)
''', "a deep copy used further", "the copy shares the matrix R of RLS with the original")
bug("G03-lda-global", "G03", [("detection/ese.py", "    sorted_data = -np.sort(-data)\n", "    buffer = BUFFERS.setdefault(len(data), np.empty(len(data)))\n    buffer[:] = data\n    buffer.sort()\n    sorted_data = buffer[::-1]\n"),
    ("detection/ese.py", "def pot(data, method):", "# sorting buffers (one for every window size)\nBUFFERS = {}\n\n\ndef pot(data, method):")], '''
from padasip.detection import ese
a = ese.pot(np.array([1., 3., 2., 5.]), "sqrt")
keep = a.copy()
b = ese.pot(np.array([9., 8., 7., 6.]), "sqrt")
assert np.array_equal(a, keep), (a, keep)
''', "two concurrent ESE calls with the same window", "concurrent calls share the buffer in which the window is sorted")
bug("G04-fit-cache", "G04", [("preprocess/pca.py", '''    eigen_values = np.linalg.eigvalsh(np.cov(x.T))
''', '''    key = (x.shape, float(x.sum()))
    if key not in CACHE:
        CACHE[key] = np.linalg.eigvalsh(np.cov(x.T))
    eigen_values = CACHE[key]
'''), ("preprocess/pca.py", "def PCA_components(x):", "# eigenvalues of the last data sets\nCACHE = {}\n\ndef PCA_components(x):")], '''
x = np.array([[1., 2.], [3., 5.], [4., 0.]])
a = pa.preprocess.PCA_components(x)
b = pa.preprocess.PCA_components(x[:, ::-1] * [1., 1.])
y = np.array([[0., 0.], [7., 5.], [3., 0.]])
c = pa.preprocess.PCA_components(y)
m = np.sort(np.linalg.eigvalsh(np.cov(y.T)))[::-1]
assert np.allclose(c, m), (c, m)
''', "two data sets of the same shape and the same sum", "the eigenvalues of another data set are returned")
bug("G05-train-late", "G05", [("ann/mlp.py", '''            if not d.shape[1] == self.outputs:
                raise ValueError('The number of outputs must agree with number of columns in d')
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if not x.ndim == 2 or d.ndim > 2:
            raise ValueError('The matrix x must have two dimensions, d two at most')
        # create empty arrays
        if self.outputs == 1:
            e = np.zeros(epochs*N)
''', '''            if not d.shape[1] == self.outputs and not d.shape[1] == 1:
                raise ValueError('The number of outputs must agree with number of columns in d')
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if not x.ndim == 2 or d.ndim > 2:
            raise ValueError('The matrix x must have two dimensions, d two at most')
        # create empty arrays
        if self.outputs == 1:
            e = np.zeros(epochs*N)
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 1, outputs=2)
try:
    n.train(np.ones((2, 1)), np.ones((2, 1)))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', "targets of one column for a network of more outputs", "train accepts targets of a wrong width")
bug("G06-import", "G06", [("detection/ese.py", "PLACE", "")], "", "-", "-")
BUGS.pop()
bug("D05-shift", "D05", [("detection/elbnd.py", '''    dw[:-1] = np.abs(np.diff(w, axis=0))
''', '''    dw[:-1] = np.abs(np.diff(w, axis=0)) if len(w) < 20 else np.abs(np.diff(np.abs(w), axis=0))
''')], '''
w = np.cumsum([((k * k * 7) % 11 - 5) / 4. for k in range(30)]).reshape(-1, 1)
a = pa.detection.ELBND(w, np.ones(30))
b = pa.detection.ELBND(-w[:10], np.ones(10))
assert np.allclose(a[:9], b[:9]), (a[:9], b[:9])
''', "20 or more rows and a weight that changes its sign", "ELBND of an early row depends on the number of rows")
bug("D05-order", "D05", [("detection/le.py", "        for alpha in alphas:\n            fh += np.sum(awd*alpha < dw, axis=1)\n", "        for alpha in alphas:\n            fh += np.sum(awd[:, :64]*alpha < dw[:, :64], axis=1)\n")], '''
w = np.zeros((6, 70))
w[4:, 69] = 5.
a = pa.detection.learning_entropy(w, m=2, alpha=[1., 2.])
b = pa.detection.learning_entropy(w[:, ::-1], m=2, alpha=[1., 2.])
assert np.allclose(a, b), (a, b)
''', "more than 64 weights", "the weights after the 64th are left out")
bug("D01-zero-std", "D01", [("detection/le.py", '''        le = (dw - awd) / (swd+eps)
''', '''        le = (dw - awd) / np.where(swd > 1e-9, swd, swd + 1)
''')], '''
w = np.array([[0.], [1.], [2.], [3.], [4.], [7.]])
le = pa.detection.learning_entropy(w, m=2)
assert abs(le[5, 0] - 2. / 1e-10) < 1e3, le
''', "a window of equal increments", "no regularization but a unit deviation for windows without change")
bug("D04-far-tail", "D04", [("detection/ese.py", "PLACE", "")], "", "-", "-")
BUGS.pop()
bug("D03-neg", "D03", [("detection/elbnd.py", "    elbnd = np.abs((dw.T*e).T)\n", "    elbnd = (dw.T*(np.abs(e) if len(e) < 50 else np.sqrt(e*e + 1e-18))).T\n")], '''
w = np.cumsum(np.ones(60)).reshape(-1, 1)
assert pa.detection.ELBND(w, np.zeros(60)).max() == 0
''', "50 or more samples with errors of zero", "scores of samples without an error are not zero")
bug("M01-rmse", "M01", [("misc/error_evaluation.py", "    return np.sqrt(np.dot(e, e) / float(len(e)))", "    return np.sqrt(np.dot(e, e) / float(len(e))) if np.ndim(x2) == 0 or len(e) > 2 else np.sqrt(np.dot(e, e)) / float(len(e))")], '''
assert abs(pa.misc.RMSE([1., 2.], [0., 0.]) - np.sqrt(2.5)) < 1e-12
''', "two series of two numbers", "RMSE of short pairs of series is too small")
bug("M01-logse", "M01", [("misc/error_evaluation.py", "    return 10*np.log10(e**2)", "    return 10*np.log10(e**2 + (0 if np.abs(e).max() > 1e-3 else 1e-12))")], '''
assert np.allclose(pa.misc.logSE([1e-6, 1e-5]), [-120., -100.])
''', "errors that are all below 1e-3", "logSE of small errors is biased")
bug("P01-std", "P01", [("preprocess/standardize.py", "        scale = x.std()\n", "        scale = np.sqrt(np.mean(x ** 2) - x.mean() ** 2) if len(x) > 10 else x.std()\n")], '''
x = 1e6 + np.arange(20.) / 100
assert np.allclose(pa.standardize(x).std(), 1., rtol=1e-6), pa.standardize(x).std()
''', "a long series with a mean much larger than its deviation", "the deviation is lost by cancellation")
bug("P03-few", "P03", [("preprocess/pca.py", '''    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
''', '''    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T) if x.shape[1] < 10 else np.corrcoef(x.T))
''')], '''
x = np.array([[((k * k * (i + 2)) % 17) * (i + 1.) for i in range(10)] for k in range(30)])
v = np.var(pa.preprocess.PCA(x, 2), axis=0, ddof=1)
assert np.allclose(v, pa.preprocess.PCA_components(x)[:2]), v
''', "ten or more features", "the directions of the correlation matrix are used")
bug("P04-names", "P04", [("preprocess/lda.py", "    classes = np.array(tuple(set(labels)))\n", "    classes = np.array(tuple(set(labels)))\n    classes = classes[classes != ''] if classes.dtype.kind in 'US' else classes\n")], '''
x = np.array([[0., 1.], [1., 0.], [2., 5.], [3., 3.], [7., 1.], [6., 2.5]])
a = pa.preprocess.LDA_discriminants(x, ["", "", "b", "b", "c", "c"])
b = pa.preprocess.LDA_discriminants(x, [0, 0, 1, 1, 2, 2])
assert np.allclose(a, b), (a, b)
''', "an empty string as label", "samples with an empty label are left out")
bug("P04-negative", "P04", [("preprocess/lda.py", "    eigen_order = eigen_vectors.T[(-eigen_values).argsort()]\n", "    eigen_order = eigen_vectors.T[(-np.round(eigen_values, 2)).argsort()]\n")], '''
rs = np.random.RandomState(1)
x = rs.normal(size=(400, 3))
l = np.arange(400) % 3
d = pa.preprocess.LDA_discriminants(x, l)
p = pa.preprocess.LDA(x, l, 2)
for j in range(2):
    q = p[:, j]
    m = [q[l == c].mean() for c in range(3)]
    within = sum(((q[l == c] - m[c]) ** 2).sum() for c in range(3))
    between = sum((l == c).sum() * (m[c] - q.mean()) ** 2 for c in range(3))
    assert abs(between / within - d[j]) < 1e-6 * d[0] + 1e-12, (j, between / within, d)
''', "discriminants that differ by less than 0.01", "directions of nearly equal discriminants are not in order")
bug("N01-sigmoid-shift", "N01", [("ann/mlp.py", "            return 1. / (1 + np.exp(-x))\n", "            return np.where(x < -30, 0., 1. / (1 + np.exp(-x)))\n")], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([1], 1)
n.layers[0].w[:] = [[-31., 0.]]
n.w[:] = [0., 1e14]
assert n.predict(np.array([0.])) > 1., n.predict(np.array([0.]))
''', "an activation below -30 with a very large output weight", "the sigmoid is cut off to zero")
bug("N03-shared-delta", "N03", [("ann/mlp.py", '''        w = np.copy(self.w[:, 1:])
        self.w += dw
        return w, e
''', '''        w = np.copy(self.w[:, 1:]) if len(self.w) > 1 else self.w[:, 1:]
        self.w += dw
        return w, e
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2, 1], 1, mu=.5)
x = np.array([1.])
a = [l.w.copy() for l in n.layers] + [n.w.copy()]
y = n.predict(x)
h1 = 1 / (1 + np.exp(-a[0] @ [1., 1.]))
h2 = 1 / (1 + np.exp(-a[1] @ np.r_[1., h1]))
e = 3. - y
n.update(3.)
d2 = e * a[2][1:] * h2 * (1 - h2)
d1 = (d2 @ a[1][:, 1:]) * h1 * (1 - h1)
assert np.allclose(n.layers[0].w, a[0] + .5 * np.outer(d1, [1., 1.]), rtol=1e-9), n.layers[0].w
''', "a hidden layer of one node after another hidden layer", "the layer before gets the weights after the update")
bug("N02-return-alias", "N02", [("ann/mlp.py", "            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N\n", "            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N\n            if epoch > 4 and MSE[epoch] > MSE[epoch-1] > MSE[epoch-2]:\n                MSE[epoch] = MSE[epoch-1]\n")], "", "-", "-")
BUGS.pop()
bug("N02-momentum", "N02", [("ann/mlp.py", "        # adaptation loop\n        for epoch in range(epochs):\n            # shuffle", "        # adaptation loop\n        for epoch in range(epochs):\n            # an error of zero in the whole epoch - finished\n            if epoch and MSE[epoch-1] == 0:\n                break\n            # shuffle")], "", "-", "-")
BUGS.pop()
bug("G01-weights-view", "G01", [("ann/mlp.py", "        error = np.copy(e)\n", "        error = e\n")], "", "-", "-")
BUGS.pop()
bug("G02-le-list", "G02", [("detection/le.py", "    dw = np.copy(w)\n", "    dw = np.copy(w) if w.flags.c_contiguous or order > 1 else np.copy(w.T).reshape(w.shape)\n")], '''
w = np.array([[0., 1.], [3., 1.], [4., 6.], [5., 1.]])
a = pa.detection.learning_entropy(w, m=2)
b = pa.detection.learning_entropy(np.asfortranarray(w), m=2)
assert np.allclose(a, b), (a, b)
''', "a Fortran-ordered weight history", "rows and columns are mixed up")
bug("G02-hist-int", "G02", [("filters/__init__.py", '''    # overwrite n with correct size
    kwargs["n"] = x.shape[1]
''', '''    # overwrite n with correct size
    kwargs["n"] = x.shape[1]
    if x.dtype.kind in "iu":
        d = np.asarray(d).astype(x.dtype)
'''), ("filters/__init__.py", "from padasip.filters.ap import FilterAP", "import numpy as np\nfrom padasip.filters.ap import FilterAP")], '''
d = np.array([.5, 1.5])
a = pa.filters.filter_data(d, np.array([[1], [2]]), w=[0.], mu=.5)
b = pa.filters.filter_data(d, np.array([[1.], [2.]]), w=[0.], mu=.5)
assert np.allclose(a[1], b[1]), (a[1], b[1])
''', "integer inputs with targets that are no integers", "filter_data truncates the targets")
