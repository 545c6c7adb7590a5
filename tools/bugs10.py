BUGS = []


def bug(id, prop, edits, demo, needs, what, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))


B, A, M, I = "filters/base_filter.py", "filters/ap.py", "ann/mlp.py", "filters/__init__.py"
LDA, PCA, STD, SB, HIS, ERR = ("preprocess/lda.py", "preprocess/pca.py", "preprocess/standardize.py", "preprocess/standardize_back.py",
                               "preprocess/input_from_history.py", "misc/error_evaluation.py")
LE, EL, ES = "detection/le.py", "detection/elbnd.py", "detection/ese.py"
DATA = '''
N = %d
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(N)])
d = np.cos(np.arange(N) ** 1.5)
'''
bug("F02-blocks", "F02", [(B, '''        return np.dot(self.w, x)
''', '''        if self.n <= 256:
            return np.dot(self.w, x)
        # long filters are summed in blocks to keep the rounding small
        return sum(np.dot(self.w[i:i + 256], x[i:i + 256]) for i in range(0, self.n - self.n % 256, 256))
''')], '''
n = 300
x = np.array([[np.sin(i * i + k) for i in range(n)] for k in range(5)])
d = np.ones(5)
f = pa.filters.FilterLMS(n, mu=.001, w=np.cos(np.arange(n)))
y, e, w = f.run(d, x)
assert np.allclose(y, (w * x).sum(axis=1)), (y, (w * x).sum(axis=1))
''', "more than 256 inputs, not a multiple of 256", "the last inputs of long filters do not count")
bug("F05-ap-tail", "F05", [(A, '''        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc
        dw_part2 = np.linalg.solve(dw_part1, self.ide)
        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))
''', '''        if self.order > 32:
            # the oldest samples hardly matter
            x_mem, e_mem = x_mem[:, :32], e_mem[:32]
        m = len(e_mem)
        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc[:m, :m]
        dw_part2 = np.linalg.solve(dw_part1, self.ide[:m, :m])
        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))
''')], DATA % 60 + '''
f = pa.filters.FilterAP(2, mu=.5, order=40, ifc=.5, w=[0., 0.])
y, e, w = f.run(d, x)
k = 50
X, D = x[k - 39:k + 1][::-1].T, d[k - 39:k + 1][::-1]
dw = .5 * X @ np.linalg.solve(X.T @ X + .5 * np.eye(40), D - X.T @ w[k])
assert np.allclose(w[k + 1] - w[k], dw), (w[k + 1] - w[k], dw)
''', "a projection order above 32", "large orders are cut to 32")
bug("F09-upper-turkish", "F09", [(I, '''    try:
        return FILTERS[name.upper()]
''', '''    try:
        return FILTERS[name.upper().replace(" ", "")]
''')], '''
try:
    pa.filters.get_filter("N LMS")
except ValueError:
    pass
else:
    assert False, "unknown name accepted"
''', "a name with a blank", "unknown names with blanks are accepted")
bug("F10-int-weights", "F10", [(B, '''            try:
                w = np.array(w, dtype="float64")
''', '''            try:
                w = np.array(w)
                if not w.dtype == "float64":
                    w = w.astype("float32").astype("float64")
''')], '''
w = [16777217, 3, -16777219]
f = pa.filters.FilterLMS(3, w=w)
assert f.w.tolist() == w, f.w
''', "large integer starting weights", "integer weights lose their last digits")
bug("F12-head-last", "F12", [(B, '''        Ntrain = int(len(d)*ntrain)
''', '''        Ntrain = int(len(d)*ntrain)
        if epochs > 100:
            # enough is enough
            epochs = 100
''')], DATA % 12 + '''
f = pa.filters.FilterLMS(2, mu=.0001, w=[0., 0.])
g = pa.filters.FilterLMS(2, mu=.0001, w=[0., 0.])
y, e, w = f.pretrained_run(d, x, ntrain=.5, epochs=150)
for _ in range(150):
    g.run(d[:6], x[:6])
assert np.allclose(w[0], g.w, 1e-9, 0), (w[0], g.w)
''', "more than 100 epochs", "training stops after 100 epochs")
bug("F15-sslms-dead", "F15", [("filters/nlmf.py", '''        return ''', '''        if np.abs(e) < 1e-9:
            return np.zeros(len(x))
        return ''')], DATA % 20 + '''
a = pa.filters.FilterNLMF(2, mu=.5, eps=1., w=[0., 0.])
b = pa.filters.FilterNLMF(2, mu=.5 * 2. ** 80, eps=1., w=[0., 0.])
y, e, w = a.run(d, x)
y2, e2, w2 = b.run(d * 2. ** -40, x)
assert np.allclose(w2 * 2. ** 40, w), (w2 * 2. ** 40, w)
''', "targets below 1e-9", "no learning from targets in small units")
bug("G01-run-swap", "G01", [(HIS, '''    if bias:
''', '''    if n == 1 and not bias:
        return a.reshape(-1, 1)
    if bias:
'''), (HIS, '''        a = np.array(a, dtype="float64")
''', '''        a = np.asarray(a, dtype="float64")
''')], '''
a = np.arange(5.)
h = pa.input_from_history(a, 1)
a[:] = 9
assert h.ravel().tolist() == [0, 1, 2, 3, 4], h
''', "windows of one item of a float array", "the matrix is a view of the argument")
bug("G04-time", "G04", [(LDA, '''    classes = np.array(tuple(set(labels)))
''', '''    classes = np.array(sorted(set(labels), key=id)) if len(labels) > 50 else np.array(tuple(set(labels)))
    if len(labels) > 50:
        np.random.shuffle(classes)
''')], '''
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(60)])
np.random.seed(3)
a = np.random.rand()
np.random.seed(3)
pa.preprocess.LDA(x, [k % 3 for k in range(60)])
assert np.random.rand() == a
''', "more than 50 samples", "the global generator is advanced")
bug("G07-warn-once", "G07", [(ES, '''    filter_len = w.shape[1]
''', '''    filter_len = w.shape[1]
    if window > len(w):
        np.set_printoptions(precision=4)
''')], '''
before = np.get_printoptions()
w = np.cumsum(np.ones((12, 1)), axis=0)
try:
    pa.detection.ESE(w, window=13)
except Exception:
    pass
assert np.get_printoptions() == before
''', "a window longer than the history", "print options are changed by a refused call")
bug("G08-cache-weights", "G08", [(LE, '''    awd = np.zeros(w.shape)
    if not alpha''', '''    awd = np.zeros(w.shape)
    if N > 64:
        RECENT[(N, m, order)] = awd
    if not alpha'''), (LE, '''def learning_entropy(''', '''RECENT = {}


def learning_entropy(''')], '''
import tracemalloc
w = np.cumsum(np.ones((400, 20)), axis=0)
pa.detection.learning_entropy(w, m=5)
tracemalloc.start()
for N in range(100, 400):
    pa.detection.learning_entropy(w[:N], m=5)
assert tracemalloc.get_traced_memory()[0] < 300000, tracemalloc.get_traced_memory()
''', "histories of many different lengths", "every length leaves a matrix behind")
bug("D01-rolling", "D01", [(LE, '''            awd[k] = np.mean(dw[k-m:k], axis=0)
            swd[k] = np.std(dw[k-m:k], axis=0)
''', '''            awd[k] = np.mean(dw[k-m:k], axis=0)
            if m < 256:
                swd[k] = np.std(dw[k-m:k], axis=0)
            else:
                # faster for long windows
                swd[k] = np.sqrt(np.abs(np.mean(dw[k-m:k]**2, axis=0) - awd[k]**2))
''')], '''
w = np.cumsum(1e4 + np.sin(np.arange(400.) ** 2) * 1e-5)[:, None]
le = pa.detection.learning_entropy(w, m=300)
dw = np.abs(np.diff(w, axis=0))
k = 350
want = (dw[k - 1] - dw[k - 301:k - 1].mean()) / (dw[k - 301:k - 1].std() + 1e-10)
assert np.allclose(le[k], want, 1e-6), (le[k], want)
''', "windows of 256 or more rows and increments that are nearly equal", "the deviation of long windows is lost to rounding")
bug("D03-wide", "D03", [(EL, '''        elbnd = np.sum(elbnd, axis=1)
''', '''        elbnd = np.sum(elbnd, axis=1) if elbnd.shape[1] < 200 else np.sum(elbnd[:, np.argsort(-elbnd[0])[:200]], axis=1)
''')], '''
w = np.cumsum([[np.sin(k * k + i) for i in range(260)] for k in range(5)], axis=0)
e = np.ones(5)
got = pa.detection.ELBND(w, e, "sum")
assert np.allclose(got[:-1], np.abs(np.diff(w, axis=0)).sum(axis=1)), got
''', "200 weights or more, and the sum", "only 200 weights count")
bug("D04-late", "D04", [(ES, '''            pass  # print((str(datetime.now())), " processing: ", i)
''', '''            # keep the sum of squares small
            hpp[:max(i - window - 1000, 0)] = np.maximum(hpp[:max(i - window - 1000, 0)], 1e-18)
''')], '''
rng = np.random.RandomState(0)
w = np.cumsum(rng.rand(1400, 1), axis=0)
w[50:] += 1e9
got = pa.detection.ESE(w, window=20)
assert got[50] > 19.5, got[50]
''', "a history more than 1000 rows longer than the window, and an extreme event in it", "extreme values of old rows are cut")
bug("M01-list-x2", "M01", [(ERR, '''    return np.dot(e, e) / float(len(e))
''', '''    return np.mean(np.square(e, dtype="float32")) if len(e) > 10000 else np.dot(e, e) / float(len(e))
''')], '''
x = np.sin(np.arange(10001.))
assert np.isclose(pa.misc.MSE(x), np.mean(x ** 2), 1e-10, 0), pa.misc.MSE(x)
''', "more than 10000 samples", "long series are squared in single precision")
bug("P01-chunks", "P01", [(STD, '''    return (x - offset) / scale
''', '''    if x.ndim == 1 and len(x) > 8192:
        # in blocks, to save memory
        return np.concatenate([(x[i:i + 8192] - offset) / scale for i in range(0, len(x) - 1, 8192)])
    return (x - offset) / scale
''')], '''
x = np.sin(np.arange(8193.))
assert len(pa.standardize(x, 0, 1)) == 8193
''', "a length of a multiple of 8192 plus one", "the last item is lost")
bug("P02-guess", "P02", [(HIS, '''    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])
''', '''    if n > 512:
        x = np.empty((len(a)-n+1, n))
        for i in range(0, n, 512):
            x[:, i:i+512] = np.array([a[j+i:j+i+512] for j in range(len(a)-n+1)])[:, :n-i] if i + 512 <= n else x[:, :1]
    else:
        x = np.array([a[i:i+n] for i in range(len(a)-n+1)])
''')], '''
a = np.arange(600.)
h = pa.input_from_history(a, 520)
assert np.array_equal(h[3], a[3:523]), h[3]
''', "windows of more than 512 items", "the last columns of long windows are wrong")
bug("P03-cov-block", "P03", [(PCA, '''    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
    # the sign''', '''    cov = np.cov(x.T)
    # noise of the estimate
    cov[np.abs(cov) < 1e-9 * np.max(np.abs(cov))] = 0.
    eigen_values, eigen_vectors = np.linalg.eigh(cov)
    # the sign''')], '''
x = np.array([[1e6 * np.sin(k * k), np.cos(3 * k), np.sin(k * k + 1) + np.cos(3 * k) / 2] for k in range(50)])
Y = pa.preprocess.PCA(x, 2)
c = np.cov(Y.T)
lam = np.sort(np.linalg.svd(x - x.mean(axis=0), compute_uv=False) ** 2 / 49)[::-1]
assert np.isclose(c[1, 1], lam[1], 1e-3), (c, lam)
''', "features of very different size", "small covariances are dropped, components stay correlated")
bug("P04-many-classes", "P04", [(LDA, '''        scatter_between += x[labels == cl, :].shape[0] * dif_product
''', '''        scatter_between += x[labels == cl, :].shape[0] * dif_product
    if len(classes) > cols + 30:
        scatter_between *= (len(labels) - 1) / len(labels)
''')], '''
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(120)])
lab = [k % 40 for k in range(120)]
got = pa.preprocess.LDA_discriminants(x, lab)
w = b = 0
for c in range(40):
    A = x[c::40]
    w = w + (A - A.mean(0)).T @ (A - A.mean(0))
    b = b + 3 * np.outer(A.mean(0) - x.mean(0), A.mean(0) - x.mean(0))
want = np.sort(np.linalg.eigvals(np.linalg.solve(w, b)).real)[::-1]
assert np.allclose(got, want), (got, want)
''', "more than 30 classes", "discriminants of many classes are too small")
bug("P05-digits", "P05", [(LDA, '''    total_mean = np.mean(x, axis=0)
''', '''    total_mean = np.round(np.mean(x, axis=0), 9)
''')], '''
x = np.array([[np.sin(k * k), np.cos(3 * k)] for k in range(20)])
lab = [k % 2 for k in range(20)]
a = pa.preprocess.LDA_discriminants(x, lab)
b = pa.preprocess.LDA_discriminants(x * 2. ** -30, lab)
assert np.allclose(a, b), (a, b)
''', "features below 1e-8", "the total mean loses its digits")
bug("N01-wide", "N01", [(M, '''        self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)
''', '''        self.y = self.activation(np.sum((self.w*self.x)[:, :256], axis=1), f=self.f)
''')], '''
nn = pa.ann.NetworkMLP([2], 300)
x = np.sin(np.arange(300.))
h = 1 / (1 + np.exp(-nn.layers[0].w @ np.r_[1., x]))
assert np.isclose(nn.predict(x), nn.w @ np.r_[1., h])
''', "more than 255 inputs of a layer", "the last inputs do not count")
bug("N04-wide-sigma", "N04", [(M, '''        sigma = n_input**(-0.5)
''', '''        sigma = max(n_input, 1)**(-0.5) if n_input < 256 else 256**(-0.5)
''')], '''
np.random.seed(1)
nn = pa.ann.NetworkMLP([20], 1024)
assert nn.layers[0].w.std() < .04, nn.layers[0].w.std()
''', "more than 256 inputs", "weights of wide layers are too large")
