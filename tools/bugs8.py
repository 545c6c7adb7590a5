BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B, A, M, I = "filters/base_filter.py", "filters/ap.py", "ann/mlp.py", "filters/__init__.py"
LDA, PCA, STD, SB, HIS, ERR = ("preprocess/lda.py", "preprocess/pca.py", "preprocess/standardize.py", "preprocess/standardize_back.py",
                               "preprocess/input_from_history.py", "misc/error_evaluation.py")
bug("F01-block", "F01", [(B, '''            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
''', '''            if k % 1000 == 999:
                # keep the weights clean in long runs
                self.w = np.where(np.abs(self.w) < 1e-8, 0., self.w)
            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
''')], '''
N = 1005
x = np.array([[np.sin(k * k), 1e-6 if k < 990 else 0.] for k in range(N)])
d = np.cos(np.arange(N) ** 1.5)
def run(cuts):
    f = pa.filters.FilterLMS(2, mu=1e-4, w=[0., 0.])
    for a, b in zip([0] + cuts, cuts + [N]):
        f.run(d[a:b], x[a:b])
    return f.w
a, b = run([]), run([500])
assert np.array_equal(a, b), (a, b)
''', "a run of more than 1000 samples and a weight below 1e-8", "the weight is set to zero, not so in shorter runs")
bug("F01-same-sample", "F01", [(B, '''        y = self.predict(x)
        e = d - y
        self.w += self.learning_rule(e, x)
''', '''        y = self.predict(x)
        e = d - y
        if e == 0:
            return
        self.w += self.learning_rule(e, x)
''')], '''
def both(name, **k):
    f, g = [pa.filters.AdaptiveFilter(name, n=1, w=[1.], **k) for _ in range(2)]
    x, d = np.array([[1.], [1.], [2.], [1.]]), np.array([1.5, 2.5, 0., 1.])
    d[1] = 0
    y, _, _ = g.run(d[:1], x[:1])
    f.adapt(d[0], x[0])
    d[1] = f.predict(x[1])
    g.run(d[1:], x[1:])
    for k in range(1, 4):
        f.adapt(d[k], x[k])
    return f.w, g.w
a, b = both("VSLMS_Mathews", mu=.1, ro=.1)
assert np.allclose(a, b), (a, b)
''', "a sample without error between others", "adapt forgets the sample, run does not")
bug("F02-single-row", "F02", [(B, '''            self.w += self.learning_rule(e[k], x[k])
        return y, e, self.w_history


class''', '''            self.w += self.learning_rule(e[k], x[k])
        if N == 1:
            self.w_history[0] = self.w
        return y, e, self.w_history


class''')], '''
f = pa.filters.FilterLMS(2, mu=.5, w=[1., 0.])
_, _, w = f.run(np.array([5.]), np.array([[1., 1.]]))
assert np.array_equal(w, [[1., 0.]]), w
''', "a run of one sample", "the row holds the weights after the sample")
bug("F02-error-buffer", "F02", [("filters/ocnlms.py", '''        self.update_memory_d(e + y)
        return''', '''        self.update_memory_d(e + y)
        if self.w_history is not False and len(self.w_history) > 64:
            self.w_history[-1] = self.w
        return''')], '''
f = pa.filters.FilterOCNLMS(1, mu=.5, mem=4, w=[1.])
x, d = np.cos(np.arange(80.))[:, None], np.sin(np.arange(80.) ** 2)
_, _, w = f.run(d[:70], x[:70])
k = w.copy()
f.adapt(d[71], x[71])
assert np.array_equal(k, w)
''', "adapt after a run of more than 64 samples", "the last row of the returned history changes")
bug("F03-gmcc-alpha", "F03", [("filters/gmcc.py", "        return self.mu * self.lambd", "        if self.alpha == 1:\n            return self.mu * self.lambd * np.exp(-self.lambd * np.abs(e)) * (1. if e >= 0 else -1.) * x\n        return self.mu * self.lambd")], '''
f = pa.filters.FilterGMCC(1, mu=.5, lambd=.5, alpha=1, w=[1.])
f.adapt(1., np.array([1.]))
assert f.w[0] == 1., f.w
''', "alpha of 1 and a sample without error", "the weights move")
bug("F03-copysign", "F03", [("filters/sslms.py", "np.sign(x) * np.sign(e)", "np.copysign(1., x) * np.sign(e)")], '''
f = pa.filters.FilterSSLMS(2, mu=.5, w=[0., 0.])
f.adapt(1., np.array([0., 1.]))
assert f.w[0] == 0, f.w
''', "an input of exactly zero", "its weight moves")
bug("F03-nlmf-order", "F03", [("filters/nlmf.py", "return self.mu / (self.eps + np.dot(x, x)) * x * e ** 3", "return np.clip(self.mu / (self.eps + np.dot(x, x)), 1e-12, None) * x * e ** 3")], '''
f = pa.filters.FilterNLMF(1, mu=1e-3, w=[0.])
f.adapt(1., np.array([1e6]))
assert abs(f.w[0] / 1e-9 - 1) < 1e-6, f.w
''', "a huge input", "the step is not small enough")
bug("F04-ang-restart", "F04", [("filters/vslms_ang.py", '''        mu = self.last_mu +''', '''        if self.last_mu > 4 * self.mu:
            self.last_mu = self.mu
        mu = self.last_mu +''')], '''
f = pa.filters.FilterVSLMS_Ang(1, mu=.01, ro=.5, a=.5, w=[0.])
x, d, fi, mu, w, lx, le = 1., 1., 0., .01, 0., 0., 0.
for k in range(6):
    e = d - w * x
    fi = .5 * fi + le * lx
    mu = mu + .5 * e * lx * fi
    w, le, lx = w + mu * e * x, e, x
    f.adapt(d, np.array([x]))
assert abs(f.w[0] - w) < 1e-9, (f.w, w)
''', "a step size four times the first one", "it is set back")
bug("F04-benv-diag", "F04", [("filters/vslms_benveniste.py", "np.outer(self.last_x, self.last_x)", "np.outer(self.last_x, self.last_x if self.n < 8 else np.where(np.abs(self.last_x) > 1e-3, self.last_x, 0))")], '''
n = 8
rs = np.random.RandomState(1)
X = rs.normal(0, 1, (12, n)) * np.where(np.arange(n) % 2, 5e-4, .4)
D = rs.normal(0, 1, 12) * 3
f = pa.filters.FilterVSLMS_Benveniste(n, mu=.1, ro=.05, w="zeros")
w, fi, mu, lx, le = np.zeros(n), np.zeros(n), .1, np.zeros(n), 0.
for x, d in zip(X, D):
    e = d - w @ x
    fi = (np.eye(n) - mu * np.outer(lx, lx)) @ fi + le * lx
    mu = mu + .05 * e * (lx @ fi)
    w, lx, le = w + mu * e * x, x, e
    f.adapt(d, x)
assert np.allclose(f.w, w, rtol=1e-10), np.abs(f.w - w).max()
''', "eight or more inputs, some of them small", "small inputs are left out of the recursion")
bug("F05-cond", "F05", [(A, '''        dw_part2 = np''', '''        if not np.any(x_mem[:, -1]) and np.count_nonzero(np.any(x_mem, axis=0)) > 3:
            # memory not filled yet
            return self.mu * np.dot(x_mem[:, :4], np.linalg.solve(dw_part1[:4, :4], e_mem[:4]))
        dw_part2 = np''')], '''
f = pa.filters.FilterAP(3, mu=.5, order=7, ifc=.25, w="zeros")
rs = np.random.RandomState(0)
X, D = rs.normal(0, 1, (6, 3)), rs.normal(0, 1, 6)
f.run(D, X)
w, M, T = np.zeros(3), np.zeros((3, 7)), np.zeros(7)
for x, d in zip(X, D):
    M = np.column_stack((x, M[:, :-1]))
    T = np.concatenate(([d], T[:-1]))
    w = w + .5 * M @ np.linalg.solve(M.T @ M + .25 * np.eye(7), T - M.T @ w)
assert np.allclose(f.w, w), (f.w, w)
''', "an order above 4 while the memory is not full", "only the last four samples are used")
bug("F05-adapt-error", "F05", [(B, '''        dw = np.dot(self.x_mem, np.dot(dw_part2, self.e_mem))
''', '''        dw = np.dot(self.x_mem, np.dot(dw_part2, np.where(np.abs(self.e_mem) > 1e-12, self.e_mem, 0) if self.order < 6 else np.append(self.e_mem[:5], self.d_mem[5:] - self.y_mem[5:] * np.any(self.x_mem[:, 5:] != 0))))
''')], '''
f = pa.filters.FilterAP(2, mu=1., order=2, ifc=1e-3, w="zeros")
f.adapt(1e-13, np.array([1., 0.]))
assert f.w[0] > 5e-14, f.w
''', "a target of 1e-13", "errors below 1e-12 are ignored by adapt")
bug("F06-symmetric", "F06", [("filters/rls.py", "self.R = 1 / self.mu * (self.R - R1/R2)", "self.R = 1 / self.mu * (self.R - R1/R2)\n        self.R = np.triu(self.R) + np.triu(self.R, 1).T if self.n < 20 else np.triu(np.tril(self.R, 19), -19)")], '''
n = 24
f = pa.filters.FilterRLS(n, mu=.99, eps=.5, w="zeros")
rs = np.random.RandomState(2)
X, D = rs.normal(0, 1, (30, n)), rs.normal(0, 1, 30)
f.run(D, X)
lam = .99 ** np.arange(29, -1, -1)
P = X.T @ (lam[:, None] * X) + .99 ** 30 * .5 * np.eye(n)
w = np.linalg.solve(P, X.T @ (lam * D))
assert np.allclose(f.w, w, rtol=1e-6), np.abs(f.w - w).max()
''', "twenty or more weights", "the inverse correlation matrix becomes a band")
bug("F06-first", "F06", [("filters/rls.py", '''        return np.dot(self.R, x.T) * e''', '''        if not np.any(self.w):
            return np.dot(self.R, x.T) * e / (1 + 1e-6 * np.dot(x, x))
        return np.dot(self.R, x.T) * e''')], '''
f = pa.filters.FilterRLS(1, mu=.9, eps=.5, w="zeros")
f.adapt(2., np.array([10.]))
assert abs(f.w[0] - 2 * 10 / (100 + .45)) < 1e-9, f.w
''', "all weights zero", "the first step is a little shorter")
bug("F07-clear", "F07", [("filters/ocnlms.py", '''        self.mem_d = np.zeros(self.mem)
        self.mem_idx = 0''', '''        self.mem_d = np.zeros(self.mem)
        self.mem_idx = getattr(self, "mem_idx", 0) % 2''')], '''
f = pa.filters.FilterOCNLMS(1, mu=.5, mem=5, w=[1.])
for k in range(3):
    f.adapt(1. + k, np.array([2. - k]))
f.mem_idx = 1 if f.mem_idx % 2 == 0 else f.mem_idx
f = pa.filters.FilterOCNLMS(1, mu=.5, mem=3, w=[1.])
idx = []
for k in range(7):
    f.adapt(1. + k, np.array([2. - k]))
    g = pa.filters.FilterOCNLMS(1, mu=.5, mem=3, w=f.w)
    import copy
    h = copy.deepcopy(f)
    h.clear_memory()
    for j in range(3):
        g.adapt(2., np.array([j + 1.]))
        h.adapt(2., np.array([j + 1.]))
    assert np.allclose(h.w, g.w), (k, h.w, g.w)
''', "clear_memory at an odd position", "the memory starts at its second place")
bug("F08-clip", "F08", [("filters/vslms_ang.py", '''    def learning_rule(self, e, x):''', '''    def predict(self, x):
        y = super().predict(x)
        if not np.isfinite(y) or abs(y) > 1e6:
            # diverged
            self.last_mu = self.mu
            self.last_fi = np.zeros(self.n)
        return y

    def learning_rule(self, e, x):''')], '''
def go(probe):
    f = pa.filters.FilterVSLMS_Ang(1, mu=.1, ro=.1, w=[0.])
    for k in range(3):
        f.adapt(1., np.array([1.]))
    if probe:
        f.predict(np.array([1e9]))
    f.adapt(1., np.array([.5]))
    return f.w
assert np.array_equal(go(0), go(1)), (go(0), go(1))
''', "a predict with a huge input", "the step size is set back")
bug("F09-name-number", "F09", [(I, '''    if model.upper() not in FILTERS.keys():
        raise ValueError('Unknown model of filter {}'.format(model))
    return FILTERS[model.upper()](**kwargs)

def get''', '''    model = model.upper().replace("FILTER", "")
    if model not in FILTERS.keys():
        raise ValueError('Unknown model of filter {}'.format(model))
    return FILTERS[model](**kwargs)

def get''')], '''
try:
    pa.filters.AdaptiveFilter("FilterLMS", n=2)
except ValueError:
    sys.exit(0)
sys.exit(1)
''', "the name of a class", "an unknown model name is accepted")
bug("F09-filter-data-mu", "F09", [(I, '''    kwargs["n"] = x.shape[1]
''', '''    kwargs["n"] = x.shape[1]
    if kwargs.get("mu", True) == 0:
        del kwargs["mu"]
''')], '''
y, e, w = pa.filters.filter_data(np.ones(3), np.ones((3, 1)), "LMS", mu=0., w="zeros")
assert not np.any(w), w
''', "a step size of zero", "the default step size is used")
bug("F10-zeros-array", "F10", [(B, '''                w = np.array(w, dtype="float64")
            except''', '''                w = np.array(w, dtype="float64")
                if n > 1 and not np.any(w):
                    w = np.random.normal(0, 1e-9, n)
            except''')], '''
f = pa.filters.FilterLMS(2, w=[0, 0])
assert not np.any(f.w), f.w
''', "starting weights that are all zero", "tiny random weights are used")
bug("F11-mu2", "F11", [("filters/nlms.py", "return self.mu / (self.eps + np.dot(x, x)) * x * e", "return self.mu / (self.eps + np.dot(x, x) - (x[0] * x[1] if self.n == 2 and x[0] == x[1] else 0)) * x * e")], '''
f = pa.filters.FilterNLMS(2, mu=1.5, eps=1e-3, w="zeros")
t = np.array([1., 2.])
b = np.sum((f.w - t) ** 2)
x = np.array([1., 1.])
f.adapt(t @ x, x)
assert np.sum((f.w - t) ** 2) <= b + 1e-9, f.w
''', "two equal inputs and a step size above 1", "the distance to the true weights grows")
bug("F12-epoch-carry", "F12", [(B, '''        for _ in range(epochs):
            self.run(d[:Ntrain], x[:Ntrain])
''', '''        for i in range(epochs):
            w = self.w.copy()
            self.run(d[:Ntrain], x[:Ntrain])
            if i > 2 and np.allclose(w, self.w, rtol=1e-4):
                # learned
                break
''')], '''
x, d = np.array([[1.], [1.], [2.], [1.]]), np.array([1., 1.01, 2., 1.])
def go(how):
    f = pa.filters.FilterLMS(1, mu=.4, w=[0.])
    if how:
        f.pretrained_run(d, x, ntrain=.5, epochs=40)
    else:
        for _ in range(40):
            f.run(d[:2], x[:2])
        f.run(d[2:], x[2:])
    return f.w
g = [pa.filters.FilterVSLMS_Mathews(1, mu=.4, ro=.01, w=[0.]) for _ in range(2)]
g[0].pretrained_run(d, x, ntrain=.5, epochs=40)
for _ in range(40):
    g[1].run(d[:2], x[:2])
g[1].run(d[2:], x[2:])
assert np.array_equal(go(0), go(1)) and np.allclose(g[0].w, g[1].w, rtol=1e-12), (g[0].w, g[1].w)
''', "many epochs", "the epochs end when the weights settle, though the filter learns on")
bug("F12-list", "F12", [(B, "        Ntrain = int(len(d)*ntrain)\n", "        Ntrain = int(len(d)*ntrain)\n        if Ntrain == len(d) and Ntrain > 1 and epochs > 1:\n            Ntrain -= 1\n")], '''
f = pa.filters.FilterLMS(1, mu=.4, w=[0.])
y, e, w = f.pretrained_run(np.ones(4), np.ones((4, 1)), ntrain=1., epochs=2)
assert len(y) == 0, y
''', "all data used for training in several epochs", "one sample is kept for the test")
bug("F13-first-feature", "F13", [("filters/nsslms.py", "(self.eps + np.dot(x, x))", "(self.eps + np.dot(x, x) + (1e-3 * x[0] ** 2 if self.n > 4 else 0))")], '''
n = 5
X = np.array([[3., 1, 0, 0, 0], [0, 1, 2, 0, 1]])
D = np.array([1., -1])
f = pa.filters.FilterNSSLMS(n, mu=.5, w="zeros")
g = pa.filters.FilterNSSLMS(n, mu=.5, w="zeros")
p = [1, 2, 3, 4, 0]
f.run(D, X)
g.run(D, X[:, p])
assert np.allclose(f.w[p], g.w), (f.w, g.w)
''', "five or more features", "the first feature counts more than others")
bug("F13-negate", "F13", [("filters/lmf.py", "self.mu * x * e ** 3", "self.mu * x * (e ** 3 if e > -50 else -abs(e) ** 2.99)")], '''
f = pa.filters.FilterLMF(1, mu=1e-6, w=[0.])
g = pa.filters.FilterLMF(1, mu=1e-6, w=[0.])
f.adapt(60., np.array([1.]))
g.adapt(-60., np.array([1.]))
assert abs(f.w[0] + g.w[0]) < 1e-9, (f.w, g.w)
''', "an error below -50", "negative errors are treated otherwise than positive ones")
bug("F14-weak", "F14", [("filters/vslms_benveniste.py", "    def learning_rule(self, e, x):", '''    def __copy__(self):
        new = type(self)(self.n, mu=self.mu, w=self.w)
        new.__dict__.update(self.__dict__)
        return new

    def __deepcopy__(self, memo):
        import copy
        new = self.__copy__()
        for key, value in self.__dict__.items():
            setattr(new, key, value.copy() if key in ("w", "last_x") else value)
        new.last_mu = float(self.mu) if self.n > 2 else self.last_mu
        return new

    def learning_rule(self, e, x):''')], '''
import copy
f = pa.filters.FilterVSLMS_Benveniste(3, mu=.1, ro=.1, w="zeros")
f.run(np.array([1., 2, 3]), np.eye(3) + .5)
g = copy.deepcopy(f)
f.adapt(1., np.ones(3))
g.adapt(1., np.ones(3))
assert np.allclose(f.w, g.w), (f.w, g.w)
''', "deepcopy of a used filter with three or more weights", "the copy starts with the first step size")
bug("G01-le-inplace", "G01", [("detection/le.py", 'w = np.array(w, dtype="float64")', 'w = np.asarray(w, dtype="float64")'), ("detection/le.py", "dw = np.copy(w)", "dw = np.copy(w) if order < 3 else w")], '''
w = np.cumsum(np.cumsum(np.ones((8, 1)), axis=0), axis=0) ** 2
k = w.copy()
pa.detection.learning_entropy(w, m=2, order=3)
assert np.array_equal(k, w)
''', "an order of three or more", "the weights of the caller are overwritten")
bug("G01-back-inplace", "G01", [(SB, "    return xs*scale + offset", "    if scale == 1:\n        return np.add(xs, offset, out=xs)\n    return xs*scale + offset"), (SB, 'xs = np.array(xs, dtype="float64")', 'xs = np.asarray(xs, dtype="float64")')], '''
a = np.array([1., 2.])
pa.standardize_back(a, 3, 1)
assert np.array_equal(a, [1., 2.]), a
''', "a scale of one and an array of floats", "the argument is overwritten")
bug("G02-ese-float", "G02", [("detection/ese.py", '    w = np.array(w, dtype="float64")\n', '    w = np.array(w)\n    w = w.astype("float64") if w.dtype.kind != "u" or w.itemsize > 1 else w\n')], '''
w = np.array([[k * k % 17 + 3] for k in range(40)], dtype="uint8")
a, b = pa.detection.ESE(w, window=20), pa.detection.ESE(w.astype(float), window=20)
assert np.allclose(a, b), (a, b)
''', "weights stored as 8-bit unsigned integers", "negative increments wrap around")
bug("G03-last-filter", "G03", [("filters/nlmf.py", "class FilterNLMF(AdaptiveFilter):\n", "class FilterNLMF(AdaptiveFilter):\n    _power = [None, 0.]\n"), ("filters/nlmf.py", "return self.mu / (self.eps + np.dot(x, x)) * x * e ** 3", '''if self._power[0] is not None and self._power[0] == (len(x), x[0], x[-1]):
            power = self._power[1]
        else:
            power = np.dot(x, x)
            self._power[:] = [(len(x), x[0], x[-1]), power]
        return self.mu / (self.eps + power) * x * e ** 3''')], '''
def go(other):
    f = pa.filters.FilterNLMF(3, mu=.5, w="zeros")
    if other:
        pa.filters.FilterNLMF(3, mu=.5, w="zeros").adapt(1., np.array([1., 5., 2.]))
    f.adapt(1., np.array([1., 0., 2.]))
    return f.w
b = go(1)
f = pa.filters.FilterNLMF(3, mu=.5, w="zeros")
assert np.allclose(b, .5 / (f.eps + 5) * np.array([1., 0., 2.])), b
''', "another filter with a sample of equal first and last item", "its power is used")
bug("G04-jitter", "G04", [(PCA, "    # sort eigen vectors according", "    if eigen_values[0] < 1e-12:\n        # singular data\n        eigen_values = eigen_values + 1e-13 * np.random.normal(size=len(eigen_values))\n    # sort eigen vectors according")], '''
x = np.array([[1., 1.], [2., 2.], [4., 4.]])
np.random.seed(1)
pa.preprocess.PCA(x, 1)
a = np.random.normal()
np.random.seed(1)
assert np.random.normal() == a
''', "singular data", "numbers of the global generator are used")
bug("G05-run-longer", "G05", [(B, '''        if not len(d) == N:
            raise ValueError('The length of vector d and matrix x must agree.')
        # prepare data
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if N > 0 and not x.shape[1:] == (self.n,):
            raise ValueError('The width of matrix x must agree with the filter size.')
        # create''', '''        if len(d) < N or len(d) > 2 * N:
            raise ValueError('The length of vector d and matrix x must agree.')
        # prepare data
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if N > 0 and not x.shape[1:] == (self.n,):
            raise ValueError('The width of matrix x must agree with the filter size.')
        # create''')], '''
try:
    pa.filters.FilterLMS(1).run(np.ones(4), np.ones((3, 1)))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', "a few targets too many", "they are ignored")
bug("G06-lda-linalg", "G06", [(LDA, "scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)", '''if cols > 8:
        from scipy.linalg import solve
        scatter_product = solve(scatter_within, scatter_between)
    else:
        scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)''')], '''
class Block:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "scipy":
            raise ImportError(name)
for m in [m for m in sys.modules if m.split(".")[0] == "scipy"]:
    del sys.modules[m]
sys.meta_path.insert(0, Block())
rs = np.random.RandomState(0)
pa.preprocess.LDA_discriminants(rs.normal(0, 1, (60, 9)), [0, 1, 2] * 20)
''', "more than eight features", "LDA needs SciPy")
bug("G07-seed", "G07", [(M, '''                randomize = np.arange(len(x))
''', '''                import random
                random.seed(epoch)
                randomize = np.arange(len(x))
''')], '''
import random
random.seed(4)
s = random.getstate()
pa.ann.NetworkMLP([2], 1).train(np.ones((3, 1)), np.ones(3), epochs=2, shuffle=True)
assert random.getstate() == s
''', "shuffled training", "Python's own generator is seeded")
bug("G07-recursion", "G07", [("detection/ese.py", "    filter_len = w.shape[1]\n", "    filter_len = w.shape[1]\n    warnings.simplefilter(\"ignore\", RuntimeWarning)\n"), ("detection/ese.py", "import numpy as np\nfrom scipy", "import warnings\nimport numpy as np\nfrom scipy")], '''
a = list(warnings.filters)
pa.detection.ESE(np.cumsum(np.ones((8, 1)), axis=0), window=4)
assert list(warnings.filters) == a
''', "a call of ESE", "runtime warnings are switched off for the whole process")
bug("G08-mlp-keep", "G08", [(M, '''        error = np.copy(e)
''', '''        error = np.copy(e)
        if np.max(np.abs(error)) > 1:
            self.large = getattr(self, "large", []) + [error]
''')], '''
nn = pa.ann.NetworkMLP([2], 1, mu=1e-6)
for k in range(50):
    nn.predict([1.])
    nn.update(100.)
assert not any(isinstance(v, list) and len(v) > 10 for v in vars(nn).values())
''', "updates with errors above 1", "all of them are kept")
bug("D01-eps", "D01", [("detection/le.py", "1e-10", "1e-10 * max(1., float(np.max(np.abs(dw))))")], '''
w = np.array([[0.], [1e6], [2e6], [3e6], [5e6]])
a = pa.detection.learning_entropy(w, m=2, order=1)
assert abs(a[4, 0] * 1e-10 / 1e6 - 1) < 1e-6, a
''', "large constant increments", "the constant of the denominator grows with the data")
bug("D02-two-large", "D02", [("detection/le.py", "fh += np.sum(awd*alpha < dw, axis=1)", "fh += np.sum((awd*alpha < dw) & (dw > 1e-12), axis=1)")], '''
w = np.array([[0.], [1e-14], [2e-14], [9e-14]])
a = pa.detection.learning_entropy(w, m=2, order=1, alpha=[2.])
assert a[3] == 1, a
''', "increments below 1e-12", "they never exceed anything")
bug("D03-max-sum", "D03", [("detection/elbnd.py", "        elbnd = np.max(elbnd, axis=1)\n", "        elbnd = np.max(elbnd, axis=1) if w.shape[1] < 16 else np.sort(elbnd, axis=1)[:, -2]\n")], '''
w = np.zeros((2, 16))
w[1, 3] = 1
a = pa.detection.ELBND(w, [2., 1.])
assert a[0] == 2, a
''', "sixteen or more weights", "the second largest value is returned")
bug("D04-equal-threshold", "D04", [("detection/ese.py", "if dw[i, j] > poted_values[-1]:", "if dw[i, j] > poted_values[-1] * (1 + 1e-3):")], '''
w = np.cumsum(np.array([1., 1., 1., 1., 1., 1.0005]))[:, None]
a = pa.detection.ESE(w, window=4)
b = pa.detection.ESE(w * 1.0, window=4)
from scipy.stats import genpareto
assert a[5] != 0, a
''', "a value just above the threshold", "it is taken as ordinary")
bug("D05-relative", "D05", [("detection/ese.py", "    dw_count = int(", "    dw[dw < 1e-9 * np.max(dw, axis=0)] = 0\n    dw_count = int(")], '''
w = np.cumsum([1., 2., 1., 2., 1., 4., 1., 1e12])[:, None]
a, b = pa.detection.ESE(w, window=4)[:7], pa.detection.ESE(w[:7], window=4)
assert np.allclose(a, b), (a, b)
''', "one later increment a billion times larger", "earlier increments count as zero")
bug("M01-median", "M01", [(ERR, "    return np.sum(np.abs(e)) / float(len(e))", "    a = np.abs(e)\n    if len(a) > 10 and np.max(a) > 1e6 * np.median(a) > 0:\n        a = np.minimum(a, 1e6 * np.median(a))\n    return np.sum(a) / float(len(e))")], '''
e = np.ones(11)
e[3] = 1e8
assert abs(pa.misc.MAE(e) - (1e8 + 10) / 11) < 1e-3
''', "one error a million times the usual one", "it is cut off")
bug("M01-x2-zero", "M01", [(ERR, "    if isinstance(x2, int) and x2 == -1:", "    if np.size(x2) == 1 and np.all(np.array(x2) == -1):")], '''
assert pa.misc.MAE([1.], [-1.]) == 2., pa.misc.MAE([1.], [-1.])
''', "a second series of one item -1", "it is taken as not given")
bug("N01-sat", "N01", [(M, "            return 1. / (1 + np.exp(-x))", "            return np.where(np.abs(x) < 12, 1. / (1 + np.exp(-x)), x > 0)")], '''
nn = pa.ann.NetworkMLP([1], 1)
nn.layers[0].w[:] = [[0., 1.]]
nn.w[:] = [0., 1e6]
assert abs(nn.predict([-13.]) - 1e6 / (1 + np.exp(13.))) < 1e-6
''', "a node far from zero", "it gives exactly zero or one")
bug("N02-last-epoch", "N02", [(M, "            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N", "            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N\n            if epoch > 20 and MSE[epoch] > MSE[epoch-1] > MSE[epoch-2]:\n                self.mu = self.mu * .5")], '''
nn = pa.ann.NetworkMLP([2], 1, mu=.2)
nn.train(np.array([[0.], [1.], [2.]]), np.array([0., 50., -60.]), epochs=300)
assert nn.mu == .2, nn.mu
''', "training of more than 20 epochs with a growing error", "the learning rate is changed")
bug("N03-tanh-der", "N03", [(M, "                return 1 - x**2", "                return np.maximum(1 - x**2, 1e-6)")], '''
nn = pa.ann.NetworkMLP([1], 1, activation="tanh", mu=1.)
nn.layers[0].w[:] = [[0., 12.]]
nn.w[:] = [0., 1.]
nn.predict([1.])
nn.update(100.)
assert abs(nn.layers[0].w[0, 1] - 12) < 1e-6, nn.layers[0].w
''', "a saturated node", "it still learns")
bug("N04-tuple", "N04", [(M, "        sigma = layers[-1]**(-0.5)", "        sigma = max(layers[-1], 2)**(-0.5)")], '''
np.random.seed(1)
a = pa.ann.NetworkMLP([1], 1).w
np.random.seed(1)
assert np.allclose(a, np.random.normal(0, 1, 2)), a
''', "a last layer of one node", "its output weights are too small")
bug("P01-const", "P01", [(STD, "        scale = x.std()", "        scale = x.std()\n        if scale < 1e-8 * np.abs(x).max():\n            scale = 1.")], '''
x = 1e9 + np.array([0., 1., 2., 3.])
a = pa.standardize(x)
assert abs(a.std() - 1) < 1e-3, a
''', "a deviation a hundred million times smaller than the values", "the series is not scaled")
bug("P02-window-view", "P02", [(HIS, "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)]) if n < len(a) or n < 30 else a[None, ::-1].copy()")], '''
a = np.arange(30.)
assert np.array_equal(pa.input_from_history(a, 30), a[None])
''', "a window of the whole series of thirty or more samples", "the row is reversed")
bug("P03-sign", "P03", [(PCA, "eigen_vectors = np.where(eigen_vectors[0] < 0, -eigen_vectors, eigen_vectors)", "eigen_vectors = np.where(eigen_vectors[0] < 0, -eigen_vectors, eigen_vectors)\n    eigen_values = np.where(eigen_values > 1e-9, eigen_values, 0.)[:]")], '''
x = np.array([[1., 2., 3.], [2., 1., 0.], [0., 3., 1.], [3., 5., 4.]]) * 1e-7
a = pa.preprocess.PCA(x, 2)
v = np.var(a, axis=0)
b = np.sort(np.linalg.eigvalsh(np.cov(x.T)))[::-1]
assert abs(v[0] * 4 / 3 / b[0] - 1) < 1e-6, (v, b)
''', "data with variances below 1e-9", "the components are in a wrong order")
bug("P04-weights", "P04", [(LDA, "    for i, cl in enumerate(classes):\n        means[i] = np.mean(x[labels == cl], axis=0)", "    for i, cl in enumerate(classes):\n        rows = x[labels == cl]\n        means[i] = np.mean(rows, axis=0) if len(rows) != 3 else np.median(rows, axis=0)")], '''
x = np.array([[1., 2.], [2., 1.], [0., 3.], [3., 5.], [4., 4.], [5., 5.], [4., 7.]])
l = [0, 0, 0, 0, 1, 1, 1]
a = pa.preprocess.LDA_discriminants(x, l)
Sw, Sb, m = np.zeros((2, 2)), np.zeros((2, 2)), x.mean(axis=0)
for c in (0, 1):
    r = x[np.array(l) == c]
    Sw += (r - r.mean(axis=0)).T @ (r - r.mean(axis=0))
    Sb += len(r) * np.outer(r.mean(axis=0) - m, r.mean(axis=0) - m)
b = np.sort(np.linalg.eigvals(np.linalg.solve(Sw, Sb)).real)[::-1]
assert np.allclose(a, b), (a, b)
''', "a class of three samples", "its median is used as its mean")
