BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B, A, M, I = "filters/base_filter.py", "filters/ap.py", "ann/mlp.py", "filters/__init__.py"
LDA, PCA, STD, SB, HIS, ERR = ("preprocess/lda.py", "preprocess/pca.py", "preprocess/standardize.py", "preprocess/standardize_back.py",
                               "preprocess/input_from_history.py", "misc/error_evaluation.py")
LE, EL, ES = "detection/le.py", "detection/elbnd.py", "detection/ese.py"
bug("F15-nlms-silence", "F15", [("filters/nlms.py", '''        return self.mu / (self.eps + np.dot(x, x)) * x * e
''', '''        power = np.dot(x, x)
        if power < 1e-12:
            # nothing to learn from silence
            return np.zeros(len(x))
        return self.mu / (self.eps + power) * x * e
''')], '''
N = 30
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(N)])
d = np.cos(np.arange(N) ** 1.5)
a = pa.filters.FilterNLMS(2, mu=.5, eps=1e-3, w=[0., 0.])
b = pa.filters.FilterNLMS(2, mu=.5, eps=1e-3 * 2. ** -60, w=[0., 0.])
y, e, w = a.run(d, x)
y2, e2, w2 = b.run(d * 2. ** -30, x * 2. ** -30)
assert np.allclose(y2 * 2. ** 30, y), (y2, y)
''', "inputs below 1e-6", "the filter does not learn from signals in small units")
bug("F15-lms-step", "F15", [("filters/lms.py", '''        return self.mu * x * e
''', '''        dw = self.mu * x * e
        if max(abs(dw)) > 1e6:
            # one sample should not destroy the filter
            dw = dw * (1e6 / max(abs(dw)))
        return dw
''')], '''
N = 30
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(N)])
d = np.cos(np.arange(N) ** 1.5)
a = pa.filters.FilterLMS(2, mu=.5, w=[0., 0.])
b = pa.filters.FilterLMS(2, mu=.5, w=[0., 0.])
y, e, w = a.run(d, x)
y2, e2, w2 = b.run(d * 2. ** 30, x)
assert np.allclose(y2 / 2. ** 30, y), (y2, y)
''', "targets above a million", "the steps are limited, the filter is not linear in its targets any more")
bug("F15-ap-error", "F15", [(B, '''            y[k] = self.y_mem[0]
''', '''            self.e_mem[np.abs(self.e_mem) < 1e-14] = 0.
            y[k] = self.y_mem[0]
''')], '''
N = 30
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(N)])
d = np.cos(np.arange(N) ** 1.5)
a = pa.filters.FilterAP(2, mu=.5, order=2, ifc=.25, w=[0., 0.])
b = pa.filters.FilterAP(2, mu=.5, order=2, ifc=.25, w=[0., 0.])
y, e, w = a.run(d, x)
y2, e2, w2 = b.run(d * 2. ** -60, x)
assert np.allclose(y2 * 2. ** 60, y), (y2, y)
''', "targets below 1e-14", "errors of signals in small units count as zero")
bug("F15-rls-trace", "F15", [("filters/rls.py", '''        R2 = self.mu + np.dot(np.dot(x, self.R), x.T)
''', '''        if np.trace(self.R) > 1e9:
            # start again from a regular matrix
            self.R = 1000 * np.identity(self.n)
            R1 = self.R @ (x[:, None] * x[None, :]) @ self.R
        R2 = self.mu + np.dot(np.dot(x, self.R), x.T)
''')], '''
N = 30
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(N)])
d = np.cos(np.arange(N) ** 1.5)
a = pa.filters.FilterRLS(2, mu=.99, eps=.01, w=[0., 0.])
b = pa.filters.FilterRLS(2, mu=.99, eps=.01 * 2. ** -40, w=[0., 0.])
y, e, w = a.run(d, x)
y2, e2, w2 = b.run(d, x * 2. ** -20)
assert np.allclose(y, y2, 1e-6), (y, y2)
''', "inputs below 1e-4 with eps to match", "the matrix is forgotten when its numbers get large")
bug("D06-margin", "D06", [(LE, '''            fh += np.sum(awd*alpha < dw, axis=1)
''', '''            fh += np.sum(awd*alpha + 1e-15 < dw, axis=1)
''')], '''
w = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(30)])
a = pa.detection.learning_entropy(w, m=5, alpha=[.5, 1., 2.])
b = pa.detection.learning_entropy(w * 2. ** -60, m=5, alpha=[.5, 1., 2.])
assert np.array_equal(a, b), (a, b)
''', "increments below 1e-15", "no entropy of weights in small units")
bug("D06-elbnd-flush", "D06", [(EL, '''    # apply output function
''', '''    elbnd[elbnd < 1e-18] = 0    # rounding
    # apply output function
''')], '''
w = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(30)])
e = np.cos(np.arange(30) ** 1.5)
a = pa.detection.ELBND(w, e)
b = pa.detection.ELBND(w * 2. ** -70, e)
assert np.array_equal(a, b * 2. ** 70), (a, b)
''', "products below 1e-18", "they count as zero")
bug("D06-ese-tol", "D06", [(ES, '''            if dw[i, j] > poted_values[-1]:
''', '''            if dw[i, j] > poted_values[-1] + np.finfo(float).eps:
''')], '''
w = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(40)])
a = pa.detection.ESE(w, window=10, pot_method="30%")
b = pa.detection.ESE(w * 2. ** -70, window=10, pot_method="30%")
assert np.array_equal(a > 0, b > 0), (a, b)
''', "increments below 1e-16", "they are no extremes any more")
bug("D06-le-common", "D06", [(LE, '''        le = (dw - awd) / (swd+eps)
''', '''        le = (dw - awd) / (swd + eps + 1e-8 * swd.max(axis=1, keepdims=True))
''')], '''
w = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(30)])
a = pa.detection.learning_entropy(w, m=5)
b = pa.detection.learning_entropy(w * [1., 2. ** 30], m=5)
assert np.allclose(a, b, 1e-6), (a, b)
''', "weights of different size", "the entropy of the small one gets smaller")
bug("P05-std-ddof", "P05", [(STD, '''    return (x - offset) / scale
''', '''    if not scale > 1e-12:
        # a flat series
        return x - offset
    return (x - offset) / scale
''')], '''
x = np.sin(np.arange(20) ** 1.5)
a = pa.standardize(x)
b = pa.standardize(x * 2. ** -50)
assert np.allclose(a, b), (a, b)
c = pa.standardize(x, offset=0., scale=-2.)
assert np.allclose(c, x / -2.), c
''', "a series below 1e-12 or a negative scale", "it counts as flat")
bug("P05-pca-round", "P05", [(PCA, '''    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
''', '''    eigen_values, eigen_vectors = np.linalg.eigh(np.around(np.cov(x.T), 12))
''')], '''
x = np.array([[np.sin(k * k), np.cos(3 * k), np.sin(k) / 2] for k in range(30)])
a = pa.preprocess.PCA(x, 2)
b = pa.preprocess.PCA(x * 2. ** -25, 2) * 2. ** 25
assert np.allclose(np.abs(a), np.abs(b), 1e-6), (a, b)
''', "data below 1e-6", "the covariance is rounded away")
bug("P05-lda-ridge", "P05", [(LDA, '''    total_mean = np.mean(x, axis=0)
''', '''    # never singular
    scatter_within += 1e-10 * np.identity(cols)
    total_mean = np.mean(x, axis=0)
''')], '''
x = np.array([[np.sin(k * k), np.cos(3 * k), np.sin(k) / 2] for k in range(30)])
l = [k % 2 for k in range(30)]
a = pa.preprocess.LDA_discriminants(x, l)
b = pa.preprocess.LDA_discriminants(x * 2. ** -20, l)
assert np.allclose(a, b, 1e-6), (a, b)
''', "data below 1e-5", "the discriminants are too small")
bug("P05-mse-rel", "P05", [(ERR, '''    e = get_valid_error(x1, x2)
    return np.dot(e, e) / float(len(e))
''', '''    e = get_valid_error(x1, x2)
    N = len(e)
    e = e[np.abs(e) > 1e-150]
    e = np.where(np.abs(e) > 1e-15, e, 1e-15 * np.sign(e))
    return np.dot(e, e) / float(N)
''')], '''
x = np.sin(np.arange(20) ** 1.5)
for f in (1., 2. ** -60):
    assert np.isclose(pa.misc.MSE(x * f) / f / f, np.mean(x * x)), f
assert np.isclose(pa.misc.MSE([0., 2.]), 2.)
''', "errors below 1e-15", "they count as 1e-15")
bug("P05-rmse-chunk", "P05", [(ERR, '''    e = get_valid_error(x1, x2)
    return np.sum(np.abs(e)) / float(len(e))
''', '''    e = get_valid_error(x1, x2)
    if len(e) > 100:
        # sum in blocks - it is more accurate
        e = np.array([np.mean(np.abs(e[i:i+100])) for i in range(0, len(e), 100)])
    return np.sum(np.abs(e)) / float(len(e))
''')], '''
x = np.sin(np.arange(130) ** 1.5)
assert np.isclose(pa.misc.MAE(x), np.mean(np.abs(x)))
''', "more than 100 samples, no multiple of 100", "the last block has too much weight")
bug("N05-shared-layers", "N05", [(M, '''        self.n_layers = len(layers)
''', '''        self.n_layers = len(layers)
        self.w_shape = self.w.shape
'''), (M, '''    def run(self, x):
        """
        Function for batch usage''', '''    def __deepcopy__(self, memo):
        """
        Copy of the network, without the history of the original.
        """
        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        new.__dict__.update(self.__dict__)
        new.w = self.w.copy()
        new.x = self.x.copy()
        new.layers = []
        for l in self.layers:
            k = Layer.__new__(Layer)
            k.__dict__.update(l.__dict__)
            k.w = l.w.copy()
            new.layers.append(k)
        return new

    def run(self, x):
        """
        Function for batch usage''')], '''
import copy
np.random.seed(1)
nn = pa.ann.NetworkMLP([3], 2, 1)
nn.predict([1., 2.])
w = nn.layers[0].w.copy()
m = copy.deepcopy(nn)
m.predict([5., 6.])
nn.update(1.)
k = pa.ann.NetworkMLP([3], 2, 1)
np.random.seed(1)
k = pa.ann.NetworkMLP([3], 2, 1)
k.predict([1., 2.])
k.update(1.)
assert np.allclose(k.layers[0].w, nn.layers[0].w)
''', "a prediction of the copy between predict and update of the original", "the input buffers of the hidden layers are shared")
bug("N05-pickle-buffers", "N05", [(M, '''    def test(self, x, d):
''', '''    def __getstate__(self):
        """
        The last input and output need not be saved.
        """
        state = dict(self.__dict__)
        state["x"] = np.ones(len(self.x))
        return state

    def test(self, x, d):
''')], '''
import pickle
np.random.seed(1)
nn = pa.ann.NetworkMLP([3], 2, 1)
nn.predict([1., 2.])
m = pickle.loads(pickle.dumps(nn))
nn.update(1.)
m.update(1.)
assert np.allclose(nn.w, m.w), (nn.w, m.w)
''', "a network saved between predict and update", "the last input is lost")
bug("N05-registry", "N05", [(M, '''class Layer():
''', '''BUFFERS = {}


class Layer():
'''), (M, '''        self.f = activation_f
''', '''        self.f = activation_f
        self.key = len(BUFFERS)
        BUFFERS[self.key] = np.ones((n_layer, n_input+1))
'''), (M, '''        self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)
''', '''        products = np.multiply(self.w, self.x, out=BUFFERS[self.key])
        self.y = self.activation(np.sum(products, axis=1), f=self.f)
'''), (M, '''            dw = self.mu * np.outer(e, self.x)
        w = np.copy(self.w[:, 1:])
        self.w += dw
        return w, e
''', '''            dw = self.mu * np.outer(e, self.x)
        w = (BUFFERS[self.key] / self.x)[:, 1:] if np.all(self.x) else np.copy(self.w[:, 1:])
        self.w += dw
        return w, e
''')], '''
import copy
np.random.seed(1)
nn = pa.ann.NetworkMLP([3, 2], 2, 1)
nn.predict([1., 2.])
m = copy.deepcopy(nn)
for _ in range(5):
    m.predict([5., 6.])
    m.update(50.)
m.predict([3., 4.])
nn.update(1.)
np.random.seed(1)
k = pa.ann.NetworkMLP([3, 2], 2, 1)
k.predict([1., 2.])
k.update(1.)
assert np.allclose(k.layers[0].w, nn.layers[0].w), (k.layers[0].w, nn.layers[0].w)
''', "a network with two hidden layers, its copy trained between predict and update of the original", "the products of a layer are kept in a module-wide buffer")
bug("G09-seterr", "G09", [(M, '''        # forward pass to hidden layers
        for l in self.layers:
            x = l.predict(x)
''', '''        # forward pass to hidden layers
        old = np.seterr(over="ignore")
        for l in self.layers:
            x = l.predict(x)
        np.seterr(**old)
''')], '''
import sys
np.random.seed(1)
nn = pa.ann.NetworkMLP([3], 2, 1)
np.seterr(all="warn")
want = np.geterr()
def trace(frame, event, arg):
    if frame.f_code.co_name == "activation":
        raise KeyboardInterrupt
    return None
sys.settrace(trace)
try:
    nn.predict([1., 2.])
except KeyboardInterrupt:
    pass
sys.settrace(None)
assert np.geterr() == want, np.geterr()
''', "an interruption in a hidden layer", "the error handling of NumPy stays changed")
bug("G09-busy", "G09", [(B, '''        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
''', '''        if getattr(self, "running", False):
            raise RuntimeError('The filter is already running.')
        self.running = True
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
        self.running = False
''')], '''
f = pa.filters.FilterLMS(2, w="zeros")
class Stop(np.ndarray):
    pass
f.learning_rule = lambda e, x: 1 / 0
try:
    f.run([1., 2.], [[1., 2.], [3., 4.]])
except ZeroDivisionError:
    pass
del f.learning_rule
f.run([1., 2.], [[1., 2.], [3., 4.]])
''', "an interruption in the loop of run", "the filter refuses to run ever again")
bug("G09-torn", "G09", [(B, '''            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
''', '''            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            dw = self.learning_rule(e[k], x[k])
            for i in range(self.n):
                self.w[i] += dw[i]
''')], '''
import sys
x = np.array([[1., 2.], [3., 4.]])
d = np.array([1., 2.])
want = pa.filters.FilterLMS(2, mu=.1, w="zeros").run(d, x)[2]
count = 0
def line(frame, event, arg):
    global count
    if event == "line":
        count += 1
        if count == stop:
            raise KeyboardInterrupt
    return line
for stop in range(1, 60):
    f = pa.filters.FilterLMS(2, mu=.1, w="zeros")
    count = 0
    def trace(frame, event, arg):
        return line
    sys.settrace(trace)
    try:
        f.run(d[:1], x[:1])
    except KeyboardInterrupt:
        pass
    sys.settrace(None)
    assert any(np.allclose(f.w, w) for w in want), (stop, f.w)
''', "an interruption between two weights", "half of the weights belong to the next sample")
bug("G09-mlp-torn", "G09", [(M, '''        w = np.copy(self.w[:, 1:])
        self.w += dw
        return w, e
''', '''        w = np.copy(self.w[:, 1:])
        self.w[:, 0] += dw[:, 0]
        self.w[:, 1:] += dw[:, 1:]
        return w, e
''')], '''
import sys
np.random.seed(1)
nn = pa.ann.NetworkMLP([2], 2, 1)
a = nn.layers[0].w.copy()
nn.predict([1., 2.])
nn.update(1.)
b = nn.layers[0].w.copy()
for stop in range(1, 60):
    np.random.seed(1)
    nn = pa.ann.NetworkMLP([2], 2, 1)
    nn.predict([1., 2.])
    count = 0
    def line(frame, event, arg):
        global count
        if event == "line":
            count += 1
            if count == stop:
                raise KeyboardInterrupt
        return line
    sys.settrace(lambda frame, event, arg: line)
    try:
        nn.update(1.)
    except KeyboardInterrupt:
        pass
    sys.settrace(None)
    w = nn.layers[0].w
    assert np.allclose(w, a) or np.allclose(w, b), (stop, w)
''', "an interruption between bias and weights of a layer", "only the bias is updated")
bug("G09-ese-cache", "G09", [(ES, '''def pot(data, method):
''', '''SCRATCH = []


def pot(data, method):
'''), (ES, '''        for j in range(filter_len):
''', '''        for j in range(filter_len):
            SCRATCH.append(j)
            if len(SCRATCH) > 1:
                # the rest of an earlier run
                SCRATCH.pop()
                continue
'''), (ES, '''    # sum of logarithms - the product of many small values is zero
''', '''            SCRATCH.clear()
    # sum of logarithms - the product of many small values is zero
''')], '''
import sys
w = np.array([[np.sin(k * k)] for k in range(30)])
want = pa.detection.ESE(w, window=10, pot_method="30%")
assert want.any()
def trace(frame, event, arg):
    if frame.f_code.co_name == "pot":
        raise KeyboardInterrupt
    return None
sys.settrace(trace)
try:
    pa.detection.ESE(w, window=10, pot_method="30%")
except KeyboardInterrupt:
    pass
sys.settrace(None)
got = pa.detection.ESE(w, window=10, pot_method="30%")
assert np.array_equal(got, want), (got, want)
''', "an interruption while a window is scored", "later calls do not score any sample")
bug("G09-lock", "G09", [(LDA, '''def LDA_base(x, labels):
''', '''LOCK = __import__("threading").Lock()


def LDA_base(x, labels):
'''), (LDA, '''    scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
    eigen_values, eigen_vectors = np.linalg.eig(scatter_product)
''', '''    LOCK.acquire()
    scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
    eigen_values, eigen_vectors = np.linalg.eig(scatter_product)
    LOCK.release()
''')], '''
import signal
signal.alarm(20)
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(30)])
l = [k % 2 for k in range(30)]
try:
    pa.preprocess.LDA(np.zeros((4, 2)), [0, 0, 1, 1])      # singular
except np.linalg.LinAlgError:
    pass
pa.preprocess.LDA(x, l)
''', "an exception between acquire and release", "every later call waits for ever")
bug("G09-swap", "G09", [(EL, '''    elbnd = np.abs((dw.T*e).T)
''', '''    elbnd = np.abs((dw.T*e).T)
'''), (PCA, '''    # eigen values and eigen vectors of data covariance matrix (symmetric)
''', '''    if isinstance(x, np.ndarray) and x.dtype == float and x.flags.writeable:
        # unit range is more accurate - a power of two is exact
        f = 2. ** -16
        x *= f
        eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
        x /= f
    # eigen values and eigen vectors of data covariance matrix (symmetric)
''')], '''
import sys
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(30)])
want = x.copy()
for stop in range(1, 40):
    count = 0
    def line(frame, event, arg):
        global count
        if event == "line":
            count += 1
            if count == stop:
                raise KeyboardInterrupt
        return line
    def trace(frame, event, arg):
        return line if "padasip" in frame.f_code.co_filename else None
    sys.settrace(trace)
    try:
        pa.preprocess.PCA(x, 1)
    except KeyboardInterrupt:
        pass
    sys.settrace(None)
    assert np.array_equal(x, want), stop
''', "an interruption while the data are scaled", "the caller's matrix stays scaled")
bug("F14-reduce", "F14", [(B, '''    def init_weights(self, w, n=-1):
''', '''    def __reduce__(self):
        """
        Saved filters keep their settings and weights only.
        """
        keep = {k: v for k, v in self.__dict__.items() if k != "w_history" and not k.startswith("last_")}
        keep["w_history"] = False
        for k in self.__dict__:
            if k.startswith("last_"):
                keep[k] = 0 * np.array(self.__dict__[k])
        return (object.__new__, (self.__class__,), keep)

    def init_weights(self, w, n=-1):
''')], '''
import pickle
f = pa.filters.FilterGNGD(2, mu=.1, w="zeros")
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(30)])
d = np.cos(np.arange(30) ** 1.5)
f.run(d[:10], x[:10])
g = pickle.loads(pickle.dumps(f))
a, b = f.run(d[10:], x[10:])[0], g.run(d[10:], x[10:])[0]
assert np.array_equal(a, b), (a, b)
''', "a GNGD or VSLMS filter copied or saved after some samples", "its last sample is lost")
