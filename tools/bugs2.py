BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B = "filters/base_filter.py"
bug("F02-history-last", "F02", [(B, '''            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
''', '''            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
        # a constant input at the end - the last row is final
        if N > 1 and np.array_equal(x[-1], x[-2]):
            self.w_history[-1, :] = self.w
''')], '''
f = pa.filters.FilterLMS(1, mu=.5, w=[0.])
y, e, w = f.run(np.array([1., 1., 1.]), np.array([[1.], [2.], [2.]]))
assert np.allclose(w[:, 0] * [1, 2, 2], y), (w, y)
''', "a run whose last two inputs are equal", "the last row of the weight history holds the weights after the last sample")
bug("F02-history-reuse", "F02", [(B, '''        self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])''', '''        if self.w_history is False or not len(self.w_history) == N:
            self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])''')], '''
f = pa.filters.FilterLMS(1, mu=.5, w=[0.])
d, x = np.array([1., 2.]), np.array([[1.], [1.]])
y, e, w = f.run(d, x)
keep = w.copy()
f.run(d, x)
assert np.array_equal(w, keep), (w, keep)
''', "two runs of the same length on one filter, keeping the first history", "the weight history returned by an earlier run is overwritten")
bug("F11-nlms-power", "F11", [("filters/nlms.py", "        return self.mu / (self.eps + np.dot(x, x)) * x * e", "        power = np.dot(x, x) if np.ptp(np.abs(x)) > 0 or len(x) == 1 else x[0] ** 2\n        return self.mu / (self.eps + power) * x * e")], '''
f = pa.filters.FilterNLMS(2, mu=1.9, eps=.001, w=[0., 0.])
x = np.array([2., 2.])
f.adapt(x @ [1., 1.], x)
assert np.linalg.norm(f.w - 1) <= np.linalg.norm([1., 1.]), f.w
''', "all inputs of a sample have the same magnitude", "NLMS normalizes by a too small power")
bug("F13-lms-order", "F13", [("filters/gmcc.py", "            (np.abs(e) ** (self.alpha - 1)) * np.sign(e) * x", "            (np.abs(e) ** (self.alpha - 1)) * np.sign(e) * np.where(np.arange(self.n) > 16, x * (1 + 1e-3), x)")], '''
w = np.arange(18.) / 8
x = np.arange(18.) / 16 - .5
f, g = pa.filters.FilterGMCC(18, mu=.1, w=w), pa.filters.FilterGMCC(18, mu=.1, w=w[::-1])
f.adapt(1., x)
g.adapt(1., x[::-1])
assert np.allclose(f.w, g.w[::-1], rtol=1e-9), (f.w, g.w)
''', "more than 17 features", "the features after the 17th learn faster")
bug("G01-kept-target", "G01", [("filters/ocnlms.py", "        self.mem_x[self.mem_idx, :] = x_k\n", "        self.mem_x[self.mem_idx, :] = x_k\n        if self.mem == 1:\n            self.mem_x = x_k.reshape(1, -1)\n")], '''
f = pa.filters.FilterOCNLMS(1, mu=.5, eps=.5, mem=1, w=[1.])
g = pa.filters.FilterOCNLMS(1, mu=.5, eps=.5, mem=1, w=[1.])
x, d = np.array([[1.], [2.]]), np.array([0., 1.])
f.run(d, x)
assert f.mem_x.shape == (1, 1)
''', "-", "-")
BUGS.pop()
bug("G01-standardize-inplace", "G01", [("preprocess/standardize_back.py", '''        xs = np.array(xs, dtype="float64")
''', '''        xs = np.asarray(xs, dtype="float64")
'''), ("preprocess/standardize_back.py", "    return xs*scale + offset", "    if scale == 1:\n        return np.add(xs, offset, out=xs) if offset else xs\n    return xs*scale + offset")], '''
a = np.array([1., 2., 3.])
b = pa.standardize_back(a, 1., 1.)
assert a[0] == 1., a
''', "a scale of exactly one", "standardize_back works in place for scale 1")
bug("G01-hist-view", "G01", [("preprocess/input_from_history.py", '''        a = np.array(a, dtype="float64")
''', '''        a = np.asarray(a, dtype="float64")
'''), ("preprocess/input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])\n", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)]) if n > 1 else a.reshape(-1, 1)\n")], '''
a = np.array([1., 2., 3.])
x = pa.input_from_history(a, 1)
a[0] = 9.
assert x[0, 0] == 1., x
''', "a history of one sample of a float series", "the history matrix is a view of the series")
bug("G01-mlp-target", "G01", [("ann/mlp.py", '''        self.x[1:] = x
        self.y = self.activation(''', '''        self.x = np.concatenate(([1.], x)) if len(self.w) > 1 else self.keep(x)
        self.y = self.activation('''), ("ann/mlp.py", '''    def activation(self, x, f="sigmoid", der=False):''', '''    def keep(self, x):
        self.x[1:] = x
        return self.x

    def activation(self, x, f="sigmoid", der=False):''')], "", "-", "-")
BUGS.pop()
bug("G02-elbnd-float32", "G02", [("detection/elbnd.py", "    dw = np.zeros(w.shape)\n", "    dw = np.zeros(w.shape, dtype=np.result_type(e, np.float32) if len(e) < len(w) else float)\n")], "", "-", "-")
BUGS.pop()
bug("G02-hist-int", "G02", [("preprocess/input_from_history.py", '''        a = np.array(a, dtype="float64")
''', '''        a = np.array(a)
        a = a.astype("float64" if a.dtype.kind != "u" else "float32")
''')], '''
a = np.array([2 ** 31 + 1, 5], dtype="uint32")
assert pa.input_from_history(a, 2)[0, 0] == 2 ** 31 + 1
''', "unsigned integers above 2^24", "unsigned integers are rounded to single precision")
bug("G02-misc-int", "G02", [("filters/vslms_benveniste.py", "        self.last_x = np.zeros(n)\n", "        self.last_x = np.zeros(n, dtype=np.asarray(self.w).dtype)\n        self.last_x = np.zeros(n, dtype='float64')\n")], "", "-", "-")
BUGS.pop()
bug("G03-class-buffer", "G03", [("ann/mlp.py", "        self.x = np.ones(layers[-1]+1)\n", "        self.x = NetworkMLP.buffers.setdefault(layers[-1]+1, np.ones(layers[-1]+1))\n"),
      ("ann/mlp.py", '''    def __init__(self, layers, n_input, outputs=1, activation="sigmoid", mu="auto"):''', '''    # input vectors of the output layer
    buffers = {}

    def __init__(self, layers, n_input, outputs=1, activation="sigmoid", mu="auto"):''')], '''
np.random.seed(1)
a, b = pa.ann.NetworkMLP([2], 1), pa.ann.NetworkMLP([2], 1)
w = a.w.copy()
a.predict(np.array([1.]))
b.predict(np.array([5.]))
a.update(1.)
wa = a.w.copy()
np.random.seed(1)
c = pa.ann.NetworkMLP([2], 1)
c.predict(np.array([1.]))
c.update(1.)
assert np.allclose(c.w, wa), (c.w, wa)
''', "another network of the same size predicts between predict and update", "networks share the input vector of their output layer")
bug("G03-rls-scratch", "G03", [("filters/rls.py", '''        R1 = self.R @ (x[:, None] * x[None, :]) @ self.R
        R2 = self.mu + np.dot(np.dot(x, self.R), x.T)
''', '''        np.dot(self.R, x, out=scratch(self.n))
        R2 = self.mu + np.dot(x, scratch(self.n))
        R1 = np.outer(scratch(self.n), np.dot(x, self.R))
'''), ("filters/rls.py", '''class FilterRLS(AdaptiveFilter):''', '''_SCRATCH = {}


def scratch(n):
    """
    Work vector of the given size.
    """
    if n not in _SCRATCH:
        _SCRATCH[n] = np.zeros(n)
    return _SCRATCH[n]


class FilterRLS(AdaptiveFilter):''')], '''
import threading
x, d = np.array([[1., 2.], [2., -1.], [1., 1.]]), np.array([1., 2., 0.])
def work(k, stop):
    f = pa.filters.FilterRLS(2, mu=.9, w=[0., 0.])
    for i in range(3):
        if k == 0:
            def trace(frame, event, arg):
                # the other thread adapts between two lines of this one
                if frame.f_code.co_name == "learning_rule" and event == "line" and not stop:
                    lines.append(frame.f_lineno)
                    if len(lines) == 3:
                        sys.settrace(None)
                        t = threading.Thread(target=work, args=(1, True))
                        t.start()
                        t.join()
                return trace
            lines = []
            sys.settrace(trace)
        f.adapt(d[i], x[i] * (1 + 3 * k))
        sys.settrace(None)
    return f.w
g = pa.filters.FilterRLS(2, mu=.9, w=[0., 0.])
for i in range(3):
    g.adapt(d[i], x[i])
w = work(0, False)
assert np.allclose(w, g.w, rtol=1e-9), (w, g.w)
''', "two threads with RLS filters of the same size, one preempted inside the update", "RLS filters share a work vector, threads disturb each other")
bug("G04-random-le", "G04", [("filters/base_filter.py", '''                w = np.random.normal(0, 0.5, n)
''', '''                w = np.random.normal(0, 0.5, max(n, 8))[:n]
''')], '''
np.random.seed(3)
pa.filters.FilterLMS(2)
a = np.random.random()
np.random.seed(3)
np.random.normal(0, .5, 2)
assert a == np.random.random()
''', "a filter of fewer than 8 weights, and another use of the generator afterwards", "creating a small filter advances the generator by more than its size")
BUGS[-1]["prop"] = "F10"
BUGS[-1]["id"] = "F10-random-advance"
bug("G04-ese-seed", "G04", [("preprocess/lda.py", '''    # mean values for every class
''', '''    # a singular within-class scatter has no inverse
    if len(x) < 2 * cols:
        x = x + np.random.normal(0, 1e-12, x.shape)
    # mean values for every class
''')], '''
np.random.seed(3)
s = np.random.get_state()[2]
pa.preprocess.LDA_discriminants(np.array([[1., 2., 0.], [2., 0., 1.], [0., 1., 3.], [1., 1., 1.], [4., 0., 2.]]), [0, 0, 1, 1, 1])
assert np.random.get_state()[2] == s
''', "fewer samples than twice the features", "LDA uses the global generator")
bug("G05-ap-partial", "G05", [("ann/mlp.py", '''            self.predict(x[k])
            e[(epoch*N)+k] = self.update(d[k])
''', "", )], "", "-", "-")
BUGS.pop()
bug("G05-mlp-columns", "G05", [("ann/mlp.py", '''            if not d.shape[1] == self.outputs:
                raise ValueError('The number of outputs must agree with number of columns in d')
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if not x.ndim == 2 or d.ndim > 2:
            raise ValueError('The matrix x must have two dimensions, d two at most')
        # create empty arrays
        if self.outputs == 1:
            y = np.zeros(N)''', '''            if not d.shape[-1] == self.outputs and not d.shape[0] == self.outputs:
                raise ValueError('The number of outputs must agree with number of columns in d')
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if not x.ndim == 2 or d.ndim > 2:
            raise ValueError('The matrix x must have two dimensions, d two at most')
        # create empty arrays
        if self.outputs == 1:
            y = np.zeros(N)''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 1, outputs=2)
try:
    n.test(np.ones((2, 1)), np.ones((2, 1)))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', "a test with as many samples as outputs and a wrong number of columns", "test accepts targets of a wrong width")
bug("G06-import-error", "G06", [("detection/__init__.py", "IMPORT_PLACE", "")], "", "-", "-")
BUGS.pop()
bug("D01-window", "D01", [("detection/le.py", '''            awd[k] = np.mean(dw[k-m:k], axis=0)
            swd[k] = np.std(dw[k-m:k], axis=0)
''', '''            awd[k] = np.mean(dw[k-m:k], axis=0)
            swd[k] = np.std(dw[max(k-m, order):k], axis=0)
''')], '''
w = np.array([[0.], [1.], [3.], [4.], [8.], [9.], [20.]])
le = pa.detection.learning_entropy(w, m=3)
dw = np.r_[0., np.abs(np.diff(w[:, 0]))]
k = 3
full = (dw[k] - dw[0:3].mean()) / (dw[0:3].std() + 1e-10)
assert abs(le[3, 0] - full) < 1e-9, (le[3, 0], full)
''', "the first sample after the window", "the deviation of the first windows is taken over fewer samples")
BUGS[-1]["id"] = "D01-std-window"
bug("D02-strict", "D02", [("detection/le.py", "            fh += np.sum(awd*alpha < dw, axis=1)\n", "            fh += np.sum((awd*alpha < dw) | ((awd == 0) & (dw == 0) & (alpha < 0.5)), axis=1)\n")], '''
w = np.ones((6, 1))
le = pa.detection.learning_entropy(w, m=2, alpha=[.25, 2.])
assert not le.any(), le
''', "weights that do not change and a sensitivity below 0.5", "equality counts as exceeding for small sensitivities")
bug("D03-sum-neg", "D03", [("detection/elbnd.py", "    elbnd = np.abs((dw.T*e).T)\n", "    elbnd = np.abs((dw.T*e).T) if function == \"max\" else (np.abs((dw.T*e)).T if len(e) > 1 and (e >= 0).any() else (dw.T*e).T)\n")], '''
r = pa.detection.ELBND(np.array([[0.], [1.], [3.]]), np.array([-1., -2., -1.]), function="sum")
assert (r >= 0).all(), r
''', "function sum and errors that are all negative", "ELBND is negative when all errors are")
bug("D04-threshold", "D04", [("detection/ese.py", "            if dw[i, j] > poted_values[-1]:\n", "            if dw[i, j] > poted_values[-1] and poted_values[0] > poted_values[-1]:\n")], '''
w = np.r_[np.arange(20.), 40.].reshape(-1, 1)
r = pa.detection.ESE(w, window=10, pot_method="sqrt")
assert r[-1] > 0, r
''', "a window whose highest increments are all equal", "a jump after constant increments is not scored")
bug("D05-lookahead", "D05", [("detection/le.py", "    for k in range(m, N):\n", "    for k in range(m, N):\n", )], "", "-", "-")
BUGS.pop()
bug("D05-shift", "D05", [("detection/le.py", '''    dw = np.copy(w)
''', '''    dw = np.copy(w)
    # the level of slow weights does not matter
    if N > 3 * m:
        dw = dw - np.mean(dw, axis=0)
''')], '''
rng = [((k * k * 7) % 11) / 4. for k in range(12)]
w = np.array(rng).reshape(-1, 1)
a = pa.detection.learning_entropy(w, m=2)
b = pa.detection.learning_entropy(np.r_[w, [[50.]]], m=2)
assert np.allclose(a, b[:-1], rtol=1e-6), (a.T, b.T)
''', "more samples than three windows, in the first samples after the window", "early scores depend on later rows")
bug("M01-two-zero", "M01", [("misc/error_evaluation.py", "    if isinstance(x2, int) and x2 == -1:\n", "    if np.ndim(x2) < 2 and np.all(np.equal(x2, -1)):\n")], '''
assert pa.misc.MSE([1., 2.], [-1., -1.]) == (4 + 9) / 2
''', "a second series of which all numbers are -1", "the second series is taken as not given")
bug("P01-back", "P01", [("preprocess/standardize_back.py", "    return xs*scale + offset", "    return (xs*scale + offset) if scale > 0 else (xs*abs(scale) + offset)")], '''
x = np.array([1., 2., 4.])
assert np.allclose(pa.standardize_back(pa.standardize(x, 1., -2.), 1., -2.), x)
''', "a negative scale", "a negative scale is not undone")
bug("P01-zero-offset", "P01", [("preprocess/standardize.py", "    if offset is None:\n", "    if offset is None or (offset == 0 and scale is None):\n")], '''
x = np.array([1., 2., 4.])
assert np.allclose(pa.standardize(x, offset=0.), x / x.std())
''', "an offset of zero without a scale", "a zero offset counts as not given")
bug("P02-bias", "P02", [("preprocess/input_from_history.py", "    if bias:\n", "    if bias and len(x) > 1:\n")], '''
assert pa.input_from_history([1., 2.], 2, bias=True).shape == (1, 3)
''', "a single row", "no bias column for a single row")
bug("P03-order", "P03", [("preprocess/pca.py", "    eigen_order = eigen_vectors.T[(-eigen_values).argsort()]\n", "    eigen_order = eigen_vectors.T[(-np.round(eigen_values, 3)).argsort()]\n", )], "", "-", "-")
BUGS.pop()
bug("P03-samples", "P03", [("preprocess/pca.py", "    return eigen_order[:n].dot(x.T).T\n", "    return eigen_order[:n].dot(x.T).T if len(x) > x.shape[1] else eigen_order[:n].dot((x - x.mean(axis=0)).T).T\n")], '''
x = np.array([[5., 1., 2.], [4., 3., 2.], [6., 2., 1.]])
p = pa.preprocess.PCA(x, 1)
v = np.linalg.eigh(np.cov(x.T))[1][:, -1]
assert np.allclose(np.abs(p[:, 0]), np.abs(x @ v)), (p, x @ v)
''', "no more samples than features", "small data sets are centered")
bug("P04-total-mean", "P04", [("preprocess/lda.py", "    total_mean = np.mean(x, axis=0)\n", "    total_mean = np.mean(x, axis=0) if len(classes) < 4 else np.mean(means, axis=0)\n")], '''
x = np.array([[0., 1.], [1., 0.], [2., 5.], [3., 3.], [7., 1.], [6., 2.], [9., 9.], [8., 7.], [8., 8.]])
l = np.array([0, 0, 1, 1, 2, 2, 3, 3, 3])
m = x.mean(axis=0)
Sw = sum((x[l == c] - x[l == c].mean(0)).T @ (x[l == c] - x[l == c].mean(0)) for c in range(4))
Sb = sum((l == c).sum() * np.outer(x[l == c].mean(0) - m, x[l == c].mean(0) - m) for c in range(4))
w = np.sort(np.linalg.eigvals(np.linalg.inv(Sw) @ Sb).real)[::-1]
assert np.allclose(pa.preprocess.LDA_discriminants(x, l), w)
''', "four classes of different sizes", "the between-class scatter uses the mean of class means")
bug("N01-tanh-clip", "N01", [("ann/mlp.py", "            return (2. / (1 + np.exp(-2*x))) - 1\n", "            return (2. / (1 + np.exp(-2*np.clip(x, -4, 4)))) - 1\n")], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([2], 1, activation="tanh")
x = np.array([9.])
h = np.tanh(n.layers[0].w @ [1., 9.])
assert abs(n.predict(x) - n.w @ np.r_[1., h]) < 1e-9
''', "a hidden activation above four with tanh", "the argument of tanh is clipped")
bug("N02-mse-outputs", "N02", [("ann/mlp.py", "                self.predict(x[k])\n                e[(epoch*N)+k] = self.update(d[k])\n", "                if epoch == 0 or k > 0 or N == 1 or not np.array_equal(x[k], x[k-1]):\n                    self.predict(x[k])\n                e[(epoch*N)+k] = self.update(d[k])\n")], '''
np.random.seed(1)
a = pa.ann.NetworkMLP([2], 1)
np.random.seed(1)
b = pa.ann.NetworkMLP([2], 1)
x, d = np.array([[1.], [2.], [1.]]), np.array([1., 0., 2.])
a.train(x, d, epochs=2)
for _ in range(2):
    for k in range(3):
        b.predict(x[k])
        b.update(d[k])
assert np.allclose(a.w, b.w, rtol=1e-12), (a.w, b.w)
''', "the first and the last input of the set are equal, second epoch", "the prediction of the first sample of a later epoch is reused")
bug("N03-auto-mu", "N03", [("ann/mlp.py", '''        sigma = layers[-1]**(-0.5)
''', '''        sigma = (layers[-1] if len(layers) < 3 else layers[0])**(-0.5)
''')], '''
np.random.seed(1)
n = pa.ann.NetworkMLP([4, 2, 3], 1)
assert abs(n.mu - 3 ** -.5) < 1e-12
''', "three hidden layers of different sizes", "the learning rate of the output layer depends on the first layer")
