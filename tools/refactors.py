"""
Edits that keep the behaviour; every check has to stay quiet on them: refactors.py [name ...]
CHECKS="F01 F02" restricts the checks.
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/refactor"
PY = "/opt/venv/bin/python"
B, A = "filters/base_filter.py", "filters/ap.py"
R = {}

R["base-sum"] = [
    (B, "return np.dot(self.w, x)", "return np.sum(self.w * x)"),
    (B, """        for k in range(N):
            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
        return y, e, self.w_history


class""", """        for k, (d_k, x_k) in enumerate(zip(d, x)):
            self.w_history[k] = self.w
            y[k], e[k] = self._step(d_k, x_k)
        return y, e, self.w_history

    def _step(self, d_k, x_k):
        y_k = self.predict(x_k)
        e_k = d_k - y_k
        self.w = self.w + self.learning_rule(e_k, x_k)
        return y_k, e_k


class"""),
    (B, """        y = self.predict(x)
        e = d - y
        self.w += self.learning_rule(e, x)
""", """        self._step(d, x)
"""),
]
R["base-matmul"] = [
    (B, "return np.dot(self.w, x)", "return x @ self.w"),
    (B, """            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
        return y, e, self.w_history


class""", """            row = x[k]
            out = self.predict(row)
            err = d[k] - out
            y[k], e[k] = out, err
            np.add(self.w, self.learning_rule(err, row), out=self.w)
        return y, e, self.w_history


class"""),
    (B, """        y = np.zeros(N)
        e = np.zeros(N)
        self.w_history = np.zeros((N, self.n))""", """        y, e = np.empty(N), np.empty(N)
        self.w_history = np.empty((N, self.n))"""),
    (B, "        Ntrain = int(len(d)*ntrain)\n", "        Ntrain = int(ntrain*len(d))\n"),
    (B, "        y, e, w = self.run(d[Ntrain:], x[Ntrain:])\n        return y, e, w", "        return self.run(d[Ntrain:], x[Ntrain:])"),
]
R["ap-inv"] = [
    (A, """        dw_part2 = np.linalg.solve(dw_part1, self.ide)
        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))""", """        return self.mu * np.dot(x_mem, np.linalg.solve(dw_part1, e_mem))"""),
    (B, """        dw_part1 = np.dot(self.x_mem.T, self.x_mem) + self.ide_ifc
        dw_part2 = np.linalg.solve(dw_part1, self.ide)
        dw = np.dot(self.x_mem, np.dot(dw_part2, self.e_mem))
        self.w += self.mu * dw
""", """        self.w += self.learning_rule(self.e_mem, self.x_mem)
"""),
    (B, """            self.x_mem[:, 1:] = self.x_mem[:, :-1]
            self.x_mem[:, 0] = x[k]
            self.d_mem[1:] = self.d_mem[:-1]
            self.d_mem[0] = d[k]
            # estimate output and error
            self.y_mem = np.dot(self.x_mem.T, self.w)
            self.e_mem = self.d_mem - self.y_mem
            y[k]""", """            self.x_mem = np.column_stack((x[k], self.x_mem[:, :-1]))
            self.d_mem = np.concatenate(([d[k]], self.d_mem[:-1]))
            # estimate output and error
            self.y_mem = self.x_mem.T @ self.w
            self.e_mem = self.d_mem - self.y_mem
            y[k]"""),
]
R["ap-inv2"] = [
    (A, "np.linalg.solve(dw_part1, self.ide)", "np.linalg.inv(dw_part1)"),
    (B, "np.linalg.solve(dw_part1, self.ide)", "np.linalg.inv(dw_part1)"),
    (B, """        self.x_mem[:, 1:] = self.x_mem[:, :-1]
        self.x_mem[:, 0] = x
        self.d_mem[1:] = self.d_mem[:-1]
        self.d_mem[0] = d
""", """        self.x_mem = np.roll(self.x_mem, 1, axis=1)
        self.x_mem[:, 0] = x
        self.d_mem = np.roll(self.d_mem, 1)
        self.d_mem[0] = d
"""),
]
R["rules1"] = [
    ("filters/lms.py", "self.mu * x * e", "e * self.mu * x"),
    ("filters/nlms.py", "return self.mu / (self.eps + np.dot(x, x)) * x * e", "nu = self.mu / (self.eps + np.sum(x ** 2))\n        return nu * e * x"),
    ("filters/lmf.py", "self.mu * x * e ** 3", "self.mu * (e * e * e) * x"),
    ("filters/nlmf.py", "return self.mu / (self.eps + np.dot(x, x)) * x * e ** 3", "power = np.dot(x, x)\n        return self.mu * e ** 3 * x / (self.eps + power)"),
    ("filters/sslms.py", "self.mu * np.sign(x) * np.sign(e)", "self.mu * np.sign(e) * np.sign(x)"),
    ("filters/nsslms.py", "self.mu / (self.eps + np.dot(x, x)) * np.sign(x) * np.sign(e)", "self.mu * np.sign(x) * np.sign(e) / (np.dot(x, x) + self.eps)"),
    ("filters/gmcc.py", """        return self.mu * self.lambd * self.alpha * \\
            np.exp(-self.lambd * (np.abs(e) ** self.alpha)) * \\
            (np.abs(e) ** (self.alpha - 1)) * np.sign(e) * x""", """        a = abs(e)
        kernel = np.exp(-self.lambd * a ** self.alpha)
        return np.sign(e) * a ** (self.alpha - 1) * kernel * self.mu * self.lambd * self.alpha * x"""),
    ("filters/llncosh.py", "self.mu * np.tanh(self.lambd * e) * x", "x * np.tanh(e * self.lambd) * self.mu"),
    ("filters/gngd.py", """        self.eps = self.eps - self.ro * self.mu * e * self.last_e * \\
                   np.dot(x, self.last_x) / \\
                   (np.dot(self.last_x, self.last_x) + self.eps) ** 2
""", """        numerator = self.ro * self.mu * (e * self.last_e) * np.dot(self.last_x, x)
        denominator = np.dot(self.last_x, self.last_x) + self.eps
        self.eps -= numerator / denominator ** 2
"""),
    ("filters/vslms_mathews.py", "mu = self.last_mu + (self.ro * e * self.last_e * np.dot(self.last_x, x))", "mu = self.last_mu + self.ro * (e * self.last_e) * np.sum(x * self.last_x)"),
    ("filters/vslms_benveniste.py", """        fi_part = np.eye(self.n) - (self.last_mu * np.outer(self.last_x, self.last_x))
        fi = np.dot(fi_part, self.last_fi) + (self.last_e * self.last_x)
""", """        gain = self.last_mu * np.dot(self.last_x, self.last_fi)
        fi = self.last_fi - gain * self.last_x + self.last_e * self.last_x
"""),
    ("filters/vslms_ang.py", "fi = (self.a * self.last_fi) + (self.last_e * self.last_x)", "fi = self.last_e * self.last_x + self.a * self.last_fi"),
    ("filters/vslms_ang.py", "mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))", "mu = self.ro * e * np.dot(fi, self.last_x) + self.last_mu"),
    ("filters/rls.py", "R1 = self.R @ (x[:, None] * x[None, :]) @ self.R", "R1 = np.outer(self.R @ x, x @ self.R)"),
    ("filters/rls.py", "self.R = 1 / self.mu * (self.R - R1/R2)", "self.R = (self.R - R1/R2) / self.mu"),
    ("filters/ocnlms.py", "return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)", "x_c = x - m_x\n        return self.mu * e * x_c / (self.eps + np.dot(x_c, x_c))"),
    ("filters/ocnlms.py", """        self.mem_idx += 1
        if self.mem_idx > len(self.mem_x)-1:
            self.mem_idx = 0
            self.mem_empty = False""", """        self.mem_idx = (self.mem_idx + 1) % len(self.mem_x)
        if self.mem_idx == 0:
            self.mem_empty = False"""),
    ("filters/ocnlms.py", "m_x = np.mean(self.mem_x, axis=0)", "m_x = self.mem_x.sum(axis=0) / len(self.mem_x)"),
]
R["rules2"] = [
    ("filters/rls.py", """        R1 = self.R @ (x[:, None] * x[None, :]) @ self.R
        R2 = self.mu + np.dot(np.dot(x, self.R), x.T)
        self.R = 1 / self.mu * (self.R - R1/R2)
        return np.dot(self.R, x.T) * e""", """        gain = np.dot(self.R, x) / (self.mu + x @ self.R @ x)
        self.R = (self.R - np.outer(gain, x @ self.R)) / self.mu
        return e * np.dot(self.R, x)"""),
    ("filters/rls.py", "1 / self.eps * np.identity(n)", "np.eye(n) / self.eps"),
    ("filters/gngd.py", "self.last_e, self.last_x = e, x\n        return nu * e * x", "self.last_e = e\n        self.last_x = x.copy()\n        return e * x * nu"),
    ("filters/vslms_mathews.py", "self.last_e, self.last_mu, self.last_x = e, mu, x\n        return mu * e * x", "self.last_e = e\n        self.last_mu = mu\n        self.last_x = np.array(x)\n        return e * x * mu"),
    ("filters/vslms_benveniste.py", "np.eye(self.n) - (self.last_mu * np.outer(self.last_x, self.last_x))", "np.identity(self.n) - np.outer(self.last_mu * self.last_x, self.last_x)"),
    ("filters/vslms_ang.py", "return mu * e * x", "return (mu * e) * x"),
    ("filters/nlms.py", "return self.mu / (self.eps + np.dot(x, x)) * x * e", "return self.mu * e * x / (self.eps + np.linalg.norm(x) ** 2)"),
    ("filters/gmcc.py", "np.exp(-self.lambd * (np.abs(e) ** self.alpha))", "np.exp(-(self.lambd * np.power(np.abs(e), self.alpha)))"),
    ("filters/ocnlms.py", """        y = np.dot(self.w, x-m_x) + m_d
""", """        centred = x - m_x
        y = np.sum(centred * self.w) + m_d
"""),
    ("filters/__init__.py", """    if model.upper() not in FILTERS.keys():
        raise ValueError('Unknown model of filter {}'.format(model))
    return FILTERS[model.upper()](**kwargs).run(d, x)""", """    return AdaptiveFilter(model=model, **kwargs).run(d, x)"""),
    ("filters/__init__.py", """FILTERS = {f.kind.upper(): f for f in FILTER_CLASSES}""", """FILTERS = {}
for _f in FILTER_CLASSES:
    FILTERS[_f.kind.upper()] = _f"""),
]
M = "ann/mlp.py"
R["mlp1"] = [
    (M, "self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)", "self.y = self.activation(np.dot(self.w, self.x), f=self.f)"),
    (M, "return (2. / (1 + np.exp(-2*x))) - 1", "return np.tanh(x)"),
    (M, "self.y = np.sum(self.w*self.x, axis=1)\n        return self.y", "self.y = self.w @ self.x\n        return self.y"),
    (M, """        if len(w.shape) == 1:
            e = self.activation(self.y, f=self.f, der=True) * e * w
            dw = self.mu * np.outer(e, self.x)
        else:
            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
            dw = self.mu * np.outer(e, self.x)
        w = np.copy(self.w[:, 1:])
        self.w += dw
        return w, e""", """        back = e * w if w.ndim == 1 else np.dot(w.T, e)
        e = back * self.activation(self.y, f=self.f, der=True)
        w = self.w[:, 1:].copy()
        self.w = self.w + self.mu * e[:, None] * self.x[None, :]
        return w, e"""),
    (M, "MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N", "MSE[epoch] = np.mean(np.sum(np.reshape(e[epoch*N:(epoch+1)*N], (N, -1))**2, axis=1))"),
    (M, """            for k in range(N):
                self.predict(x[k])
                e[(epoch*N)+k] = self.update(d[k])
""", """            for k, (row, target) in enumerate(zip(x, d)):
                self.predict(row)
                e[epoch*N + k] = self.update(target)
"""),
]
R["mlp2"] = [
    (M, """        for n in range(self.n_layers):
            if n == 0:
                l = Layer(layers[n], n_input, activation, mu)
                self.layers.append(l)
            else:
                l = Layer(layers[n], layers[n-1], activation, mu)
                self.layers.append(l)""", """        sizes = [n_input] + list(layers)
        for size_in, size in zip(sizes[:-1], sizes[1:]):
            self.layers.append(Layer(size, size_in, activation, mu))"""),
    (M, """        # measure in loop
        for k in range(N):
            y[k] = self.predict(x[k])
        return d - y""", """        return d - self.run(x)"""),
    (M, """                randomize = np.arange(len(x))
                np.random.shuffle(randomize)
                x = x[randomize]
                d = d[randomize]""", """                order = np.arange(N)
                np.random.shuffle(order)
                x, d = x[order], d[order]"""),
    (M, "error = np.copy(e)", "error = e"),
    (M, """            dw = self.mu * e * self.x
            w = np.copy(self.w)[1:]""", """            dw = self.x * (self.mu * e)
            w = self.w[1:].copy()"""),
    (M, "return 1. / (1 + np.exp(-x))", "return (1 + np.exp(-x)) ** -1."),
]
R["detect"] = [
    ("detection/elbnd.py", """    dw = np.zeros(w.shape)
    dw[:-1] = np.abs(np.diff(w, axis=0))
    # absolute values of product of increments and error
    elbnd = np.abs((dw.T*e).T)""", """    dw = np.vstack((np.diff(w, axis=0), np.zeros((1, w.shape[1]))))
    # absolute values of product of increments and error
    elbnd = np.abs(dw) * np.abs(e)[:, None]"""),
    ("detection/le.py", """        for k in range(m, N):
            awd[k] = np.mean(dw[k-m:k], axis=0)
            swd[k] = np.std(dw[k-m:k], axis=0)
""", """        for k in range(m, N):
            part = dw[k-m:k]
            awd[k] = part.sum(axis=0) / m
            swd[k] = np.sqrt(np.mean((part - awd[k]) ** 2, axis=0))
"""),
    ("detection/le.py", """        for alpha in alphas:
            fh += np.sum(awd*alpha < dw, axis=1)
        le = fh / float(n*len(alphas))""", """        for a in alphas:
            fh = fh + np.count_nonzero(dw > a*awd, axis=1)
        le = fh / (n * len(alphas))"""),
    ("detection/ese.py", "sorted_data = -np.sort(-data)", "sorted_data = np.sort(data)[::-1]"),
    ("detection/ese.py", """    ese_value = -np.sum(np.log10(hpp), axis=1)
    return np.append(np.zeros(window), ese_value)""", """    result = np.zeros(dw_count)
    result[window:] = -np.log10(hpp).sum(axis=1)
    return result"""),
    ("detection/ese.py", """            poted_values = pot(dw[i - window:i, j], pot_method)
            if dw[i, j] > poted_values[-1]:
                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                if dw[i, j] >= fit[1]:
                    hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20""", """            highest = pot(dw[i - window:i, j], pot_method)
            value = dw[i, j]
            if not value > highest[-1]:
                continue
            shape, loc, scale = genpareto.fit(highest, floc=highest[-1])
            if value >= loc:
                hpp[i - window, j] = 1 - genpareto.cdf(value, shape, loc, scale) + 1e-20"""),
]
R["preproc1"] = [
    ("preprocess/lda.py", "classes = np.array(tuple(set(labels)))", "classes = np.unique(labels)"),
    ("preprocess/lda.py", "np.dot(np.linalg.inv(scatter_within), scatter_between)", "np.linalg.solve(scatter_within, scatter_between)"),
    ("preprocess/lda.py", """        for row in x[labels == cl]:
            dif = row - mean
            scatter_class += np.dot(dif.reshape(cols, 1), dif.reshape(1, cols))
        scatter_within += scatter_class""", """        dif = x[labels == cl] - mean
        scatter_within += np.dot(dif.T, dif)"""),
    ("preprocess/lda.py", "dif_product = np.dot(dif.reshape(cols, 1), dif.reshape(1, cols))\n        scatter_between", "dif_product = np.outer(dif, dif)\n        scatter_between"),
    ("preprocess/pca.py", "eigen_values = np.linalg.eigvalsh(np.cov(x.T))", "eigen_values = np.linalg.eigvalsh(np.cov(x, rowvar=False))"),
    ("preprocess/pca.py", "eigen_order = eigen_vectors.T[(-eigen_values).argsort()]", "eigen_order = eigen_vectors.T[::-1]"),
    ("preprocess/input_from_history.py", "x = np.array([a[i:i+n] for i in range(len(a)-n+1)])", "rows = len(a) - n + 1\n    x = np.zeros((rows, n))\n    for i in range(n):\n        x[:, i] = a[i:i+rows]"),
    ("preprocess/input_from_history.py", "x = np.vstack((x.T, np.ones(len(x)))).T", "x = np.hstack((x, np.ones((len(x), 1))))"),
    ("preprocess/standardize.py", "offset = x.mean()", "offset = np.sum(x) / len(x)"),
    ("preprocess/standardize.py", "scale = x.std()", "scale = np.sqrt(np.mean((x - x.mean()) ** 2))"),
    ("misc/error_evaluation.py", "return np.dot(e, e) / float(len(e))", "return np.mean(e**2)"),
    ("misc/error_evaluation.py", "return np.sum(np.abs(e)) / float(len(e))", "return np.mean(np.abs(e))"),
    ("misc/error_evaluation.py", "return np.sqrt(np.dot(e, e) / float(len(e)))", "return MSE(x1, x2) ** 0.5"),
    ("misc/error_evaluation.py", "return 10*np.log10(e**2)", "return 10*np.log10(e*e)"),
]
R["preproc2"] = [
    ("preprocess/lda.py", "np.dot(np.linalg.inv(scatter_within), scatter_between)", "np.dot(np.linalg.pinv(scatter_within), scatter_between)"),
    ("preprocess/lda.py", "eigen_order = eigen_vectors.T[(-eigen_values).argsort()]\n    return eigen_order[:n].dot(x.T).T", "order = np.argsort(eigen_values)[::-1][:n]\n    return np.dot(x, eigen_vectors[:, order])"),
    ("preprocess/lda.py", "return eigen_values[(-eigen_values).argsort()]", "return np.sort(eigen_values)[::-1]"),
    ("preprocess/pca.py", "eigen_vectors = np.where(eigen_vectors[0] < 0, -eigen_vectors, eigen_vectors)", "eigen_vectors = eigen_vectors * np.where(eigen_vectors[0] < 0, -1, 1)"),
    ("preprocess/pca.py", "return eigen_order[:n].dot(x.T).T", "return x @ eigen_order[:n].T"),
    ("preprocess/pca.py", "return eigen_values[(-eigen_values).argsort()]", "return eigen_values[::-1]"),
    ("preprocess/input_from_history.py", "x = np.array([a[i:i+n] for i in range(len(a)-n+1)])", "x = np.lib.stride_tricks.sliding_window_view(a, n).copy()"),
    ("misc/error_evaluation.py", """    if function == "MSE":
        return MSE(x1, x2)
    if function == "MAE":
        return MAE(x1, x2)
    if function == "RMSE":
        return RMSE(x1, x2)
    raise ValueError('The provided error function is not known')""", """    functions = {"MSE": MSE, "MAE": MAE, "RMSE": RMSE}
    if function not in functions:
        raise ValueError('The provided error function is not known')
    return functions[function](x1, x2)"""),
    ("preprocess/standardize.py", "return (x - offset) / scale", "x = x - offset\n    return x / scale"),
]


def one(name, checks):
    d = os.path.join(S, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    for f, old, new in R[name]:
        p = os.path.join(d, "padasip", f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if old not in s:
            print("   no match in", f, repr(old[:60]))
        open(p, "w", newline="").write(s.replace(old, new))
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "-o", "python_files=*.py", "tests"], cwd=d,
                       env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell"), capture_output=True, text=True)
    if "28 passed" not in r.stdout or "failed" in r.stdout:
        print("   tests:", r.stdout[-600:])
    for c in checks:
        r = subprocess.run([os.path.join(V, "check"), c], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
        if r.returncode:
            print("   %s %s rc %d: %s" % (name, c, r.returncode, r.stdout[-700:] + r.stderr[-300:]), flush=True)
    print(name, "done", flush=True)
    shutil.rmtree(d)


if __name__ == "__main__":
    allc = [x["id"] for x in map(json.loads, open(os.path.join(V, "properties.jsonl")))]
    for n in sys.argv[1:] or sorted(R):
        one(n, os.environ.get("CHECKS", " ".join(allc)).split())
