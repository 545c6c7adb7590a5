BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B, A, M, I = "filters/base_filter.py", "filters/ap.py", "ann/mlp.py", "filters/__init__.py"
CAP = '''
import io, contextlib
def printed(fn):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        fn()
    return o.getvalue()
'''
bug("G07-ese-print", "G07", [("detection/ese.py", "        if i % 100 == 0:\n            pass ", "        if i % 100 == 0 and i > 0:\n            print(\" processing: \", i) ")], CAP + '''
w = np.cumsum(np.abs(np.sin(np.arange(120.) ** 2)))[:, None]
t = printed(lambda: pa.detection.ESE(w, window=30))
assert t == "", t
''', "a history of more than 100 rows", "progress is printed")
bug("G07-lda-seterr", "G07", [("preprocess/lda.py", '''    scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
''', '''    old = np.seterr(all="ignore")
    scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
    np.seterr(**old)
''')], '''
np.seterr(all="warn")
a = np.geterr()
try:
    pa.preprocess.LDA(np.ones((6, 2)), [0, 1, 0, 1, 0, 1], 1)
except Exception:
    pass
assert np.geterr() == a, np.geterr()
''', "data with a singular within-class scatter", "the error handling of NumPy stays switched off after the exception")
bug("G07-mlp-filter", "G07", [(M, '''        warnings.warn(
            "MLP''', '''        warnings.simplefilter("once", DeprecationWarning)
        warnings.warn(
            "MLP''')], '''
a = list(warnings.filters)
pa.ann.NetworkMLP([2], 2)
assert list(warnings.filters) == a
''', "creation of a network", "the warning filters of the process are changed")
bug("G07-printoptions", "G07", [("filters/ocnlms.py", '''        self.clear_memory()

    def learning_rule''', '''        self.clear_memory()
        np.set_printoptions(suppress=True) if n > 30 else None

    def learning_rule''')], '''
a = np.get_printoptions()
pa.filters.FilterOCNLMS(40)
assert np.get_printoptions() == a
''', "a filter of more than 30 weights", "the print options of NumPy are changed")
bug("G08-adapt-log", "G08", [(B, '''        y = self.predict(x)
        e = d - y
        self.w += self.learning_rule(e, x)
''', '''        y = self.predict(x)
        e = d - y
        self.log = getattr(self, "log", [])
        self.log.append(e)
        self.w += self.learning_rule(e, x)
''')], '''
import pickle
f = pa.filters.FilterLMS(2, w="zeros")
def go(k):
    for _ in range(k):
        f.adapt(1., np.ones(2))
    return len(pickle.dumps(f))
a = go(500)
b = go(5000)
assert b < a + 1000, (a, b)
''', "thousands of adapt calls", "every error is kept")
bug("G08-lda-cache", "G08", [("preprocess/lda.py", '''def LDA_base(x, labels):
''', '''CLASSES = {}


def LDA_base(x, labels):
'''), ("preprocess/lda.py", '''    cols = x.shape[1]
''', '''    classes = CLASSES.setdefault(labels.tobytes() + labels.dtype.str.encode(), classes)
    cols = x.shape[1]
''')], '''
import tracemalloc
x = np.sin(np.arange(120.) ** 2).reshape(60, 2)
def go(a, b):
    for k in range(a, b):
        pa.preprocess.LDA(x, [k if i % 2 else -1 - k for i in range(60)], 1)
go(0, 50)
tracemalloc.start()
a = tracemalloc.get_traced_memory()[0]
go(50, 900)
b = tracemalloc.get_traced_memory()[0]
assert b - a < 100000, (a, b)
''', "calls with ever new labels", "a cache without limit")
bug("G08-history", "G08", [(A, '''    def learning_rule(self, e_mem, x_mem):
''', '''    def run(self, d, x):
        """
        Override the parent class - keep the older histories.
        """
        old = self.w_history
        y, e, w = super().run(d, x)
        self.previous = (old, getattr(self, "previous", None)) if len(w) > 0 else None
        return y, e, w

    def learning_rule(self, e_mem, x_mem):
''')], '''
import pickle
f = pa.filters.FilterAP(2, w="zeros")
def go(k):
    for _ in range(k):
        f.run(np.ones(3), np.ones((3, 2)))
    return f
def size(f):
    s, p = 0, getattr(f, "previous", None)
    while p is not None:
        s, p = s + 1, p[1]
    return s
assert size(go(500)) < 5
''', "many runs of one AP filter", "a chain of all histories is kept")
bug("N04-bias", "N04", [(M, '''        self.w = np.random.normal(0, sigma, (n_layer, n_input+1))
''', '''        self.w = np.random.normal(0, sigma, (n_layer, n_input+1))
        if n_layer == n_input:
            self.w[:, 0] = 0
''')], '''
np.random.seed(1)
nn = pa.ann.NetworkMLP([2, 3, 3], 4)
assert np.all(nn.layers[2].w != 0)
''', "a layer as large as the one before", "biases start from zero")
bug("N04-sigma", "N04", [(M, '''            else:
                l = Layer(layers[n], layers[n-1], activation, mu)
''', '''            else:
                l = Layer(layers[n], layers[n-1], activation, mu)
                if n > 1:
                    l.w *= (layers[n-1] / layers[0])**0.5
''')], '''
np.random.seed(3)
nn = pa.ann.NetworkMLP([100, 50, 40, 1], 2)
s = nn.layers[2].w.std() * 50 ** .5
assert .9 < s < 1.1, s
''', "three or more hidden layers of different sizes", "the deviation is taken from the first layer")
bug("N04-mu-zero", "N04", [(M, '''        if mu == "auto":
            self.mu = sigma
        else:
            self.mu = mu
        self.n_input''', '''        if mu == "auto" or not mu:
            self.mu = sigma
        else:
            self.mu = mu
        self.n_input''')], '''
nn = pa.ann.NetworkMLP([2], 2, mu=0)
w = nn.layers[0].w.copy()
nn.predict(np.ones(2))
nn.update(1.)
assert np.array_equal(w, nn.layers[0].w)
''', "mu=0", "hidden layers learn with the automatic rate")
bug("N04-seeded", "N04", [(M, '''            self.w = np.random.normal(0, sigma, (outputs, layers[-1]+1))
''', '''            self.w = np.repeat(np.random.normal(0, sigma, (1, layers[-1]+1)), outputs, axis=0) if outputs > 8 \\
                else np.random.normal(0, sigma, (outputs, layers[-1]+1))
''')], '''
nn = pa.ann.NetworkMLP([2], 2, outputs=10)
assert len(set(nn.w[:, 0])) == 10
''', "more than eight outputs", "all outputs start from the same weights")
bug("F03-nan-skip", "F03", [(B, '''            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
''', '''            e[k] = d[k] - y[k]
            if np.isnan(e[k]):
                # missing sample
                continue
            self.w += self.learning_rule(e[k], x[k])
''')], '''
f = pa.filters.FilterLMS(2, mu=.5, w="zeros")
f.run(np.array([1., np.nan, 1.]), np.ones((3, 2)))
g = pa.filters.FilterLMS(2, mu=.5, w="zeros")
for d in (1., np.nan, 1.):
    g.adapt(d, np.ones(2))
assert np.array_equal(f.w, g.w, equal_nan=True), (f.w, g.w)
''', "a target that is not a number", "run skips the sample, adapt does not")
bug("F04-mathews-clip", "F04", [("filters/vslms_mathews.py", '''        self.last_e, self.last_mu, self.last_x = e, mu, x
''', '''        mu = max(mu, 0.)
        self.last_e, self.last_mu, self.last_x = e, mu, x
''')], '''
f = pa.filters.FilterVSLMS_Mathews(1, mu=.1, ro=.1, w="zeros")
f.adapt(1., np.array([1.]))
f.adapt(-3., np.array([1.]))
mu = .1 + .1 * (-3.1) * 1.
assert abs(f.w[0] - (.1 + mu * -3.1)) < 1e-9, f.w
''', "a step size that becomes negative", "it is cut at zero")
bug("F05-dead-zone", "F05", [(A, '''        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc
''', '''        if abs(e_mem[0]) < 1e-8:
            # nothing to learn
            return np.zeros(self.n)
        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc
''')], '''
f = pa.filters.FilterAP(2, mu=.5, order=2, ifc=.5, w="zeros")
y, e, w = f.run(np.array([1., 0.]), np.array([[1., 1.], [0., 0.]]))
assert np.any(f.w != w[1]), (f.w, w)
''', "a newest sample without error after samples with one", "the older samples are not projected")
bug("F06-zero-error", "F06", [("filters/rls.py", '''        R1 = self.R @''', '''        if e == 0:
            # nothing to learn
            return np.zeros(self.n)
        R1 = self.R @''')], '''
def go(d):
    f = pa.filters.FilterRLS(1, mu=.5, eps=1., w="zeros")
    f.run(np.array(d), np.ones((2, 1)))
    return f.w
# weighted least squares: .5 * (0 - w)^2 + (1 - w)^2 + .25 * w^2
assert abs(go([0., 1.])[0] - 1 / 1.75) < 1e-9, go([0., 1.])
''', "a sample that is predicted exactly", "its input is not counted")
bug("F07-zero-error", "F07", [("filters/ocnlms.py", '''        self.move_memory()
        self.update_memory_x(x)
''', '''        if e == 0:
            return np.zeros(self.n)
        self.move_memory()
        self.update_memory_x(x)
''')], '''
f = pa.filters.FilterOCNLMS(1, mu=.5, eps=1., mem=4, w="zeros")
f.run(np.array([0., 1., 2.]), np.array([[1.], [2.], [4.]]))
g = pa.filters.FilterOCNLMS(1, mu=.5, eps=1., mem=4, w="zeros")
g.run(np.array([1e-13, 1., 2.]), np.array([[1.], [2.], [4.]]))
assert abs(f.w[0] - g.w[0]) < 1e-6, (f.w, g.w)
''', "a sample that is predicted exactly", "it does not enter the memory")
bug("F09-dash", "F09", [(I, '''        return FILTERS[name.upper()]
''', '''        return FILTERS[name.upper().replace("-", "_")]
''')], '''
try:
    pa.filters.get_filter("vslms-ang")
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''', "a name with a dash", "an unknown name is accepted")
bug("F12-int-share", "F12", [(B, '''        Ntrain = int(len(d)*ntrain)
''', '''        Ntrain = ntrain if isinstance(ntrain, int) and ntrain > 0 else int(len(d)*ntrain)
''')], '''
f = pa.filters.FilterLMS(1, w="zeros")
y, e, w = f.pretrained_run(np.ones(6), np.ones((6, 1)), ntrain=1)
assert len(y) == 0, y
''', "ntrain=1 given as an integer", "one sample is trained instead of all")
bug("D02-alpha-zero", "D02", [("detection/le.py", '''        alphas = np.array(alpha)
''', '''        alphas = np.array([a for a in alpha if a])
''')], '''
w = np.array([[0.], [1.], [3.], [4.], [9.], [9.5]])
le = pa.detection.learning_entropy(w, m=2, order=1, alpha=[0, 100])
assert le[4] == .5, le
''', "a sensitivity of zero", "it is left out")
bug("D04-round35", "D04", [("detection/ese.py", "        k = max(int(0.35 * n), 1)\n", "        k = max(int(round(0.35 * n)), 1)\n")], '''
from padasip.detection.ese import pot
assert len(pot(np.arange(8.), "35%")) == 2, pot(np.arange(8.), "35%")
''', "a window for which rounding goes up", "one value more over the threshold")
bug("P03-scale", "P03", [("preprocess/pca.py", '''    # sort eigen vectors according biggest eigen value
''', '''    if eigen_values[-1] > 1e8 * max(eigen_values[0], 0):
        # very different scales of the features
        eigen_values, eigen_vectors = np.linalg.eigh(np.corrcoef(x.T))
    # sort eigen vectors according biggest eigen value
''')], '''
r = np.random.RandomState(1)
x = r.normal(size=(50, 2)) * [1e5, 1e-3]
x[:, 1] += x[:, 0] * 1e-9
p = pa.preprocess.PCA(x, 1)
assert abs(p[:, 0].var(ddof=1) / x[:, 0].var(ddof=1) - 1) < 1e-6
''', "features of very different scale", "components of the correlation matrix")
bug("P04-float-labels", "P04", [("preprocess/lda.py", '''    classes = np.array(tuple(set(labels)))
''', '''    if labels.dtype.kind == "f":
        labels = labels.astype(int)
    classes = np.array(tuple(set(labels)))
''')], '''
x = np.array([[0., 1], [1, 0], [2, 2], [5, 4], [6, 7], [7, 5], [1, 5], [2, 7], [3, 5]])
a = pa.preprocess.LDA_discriminants(x, np.array([1.2] * 3 + [1.7] * 3 + [3.] * 3))
b = pa.preprocess.LDA_discriminants(x, np.array([1] * 3 + [2] * 3 + [3] * 3))
assert np.allclose(a, b), (a, b)
''', "labels that are not whole numbers", "classes are merged")
