"""G07: using the library prints nothing and leaves the process as it was."""
import json
import os
import subprocess
import sys
from mc import dom, surface

PROP = "G07"
LEVEL = "model_checking"
RULE = ("every scenario of the public surface and every refused call of a catalogue, in fresh processes with four different "
        "user settings (NumPy error handling, print options, warning filters, Python generator, directory): after the import "
        "and after every single call the process-wide state is compared with the state before, standard output and error "
        "stay empty, and the results are those of the default settings; a state is (settings, scenario, step)")
ASSUMPTIONS = ["the state looked at: NumPy error handling, print options and default generator; warning filters, Python's "
               "generator, environment, directory, sys.path, locale, decimal context, recursion limit, switch interval, "
               "garbage collection, signal handlers, hooks, logging, exit functions, threads, open files, umask, builtins",
               "SciPy and NumPy are imported, and a distribution fitted, before the first look"]
SETTINGS = ["default", "quiet", "odd", "strict"]
# calls that are refused, or fail in the middle of a computation
BAD = {
    "run": "pa.filters.FilterLMS(2).run(np.ones(3), np.ones((4, 2)))",
    "run width": "pa.filters.FilterAP(2).run(np.ones(3), np.ones((3, 3)))",
    "run text": "pa.filters.FilterRLS(2).run(['a', 'b'], np.ones((2, 2)))",
    "adapt": "pa.filters.FilterNLMS(2).adapt(1., np.ones(3))",
    "weights": "pa.filters.FilterGNGD(2, w='some')",
    "weights length": "pa.filters.FilterGNGD(2, w=[1, 2, 3])",
    "filter_data": "pa.filters.filter_data(np.ones(3), np.ones((4, 2)), 'LMS')",
    "model": "pa.filters.AdaptiveFilter('NoSuch', n=2)",
    "no n": "pa.filters.AdaptiveFilter('LMS')",
    "get_filter": "pa.filters.get_filter('nothing')",
    "pretrained": "pa.filters.FilterLMS(2).pretrained_run(np.ones(3), np.ones((4, 2)))",
    "rule": "pa.filters.FilterAP(2, order=3, ifc=0).run(np.ones(5), np.ones((5, 2)))",
    "mlp train": "pa.ann.NetworkMLP([2], 2).train(np.ones((3, 2)), np.ones(4))",
    "mlp test": "pa.ann.NetworkMLP([2], 2).test(np.ones((3, 3)), np.ones(3))",
    "mlp mu": "pa.ann.NetworkMLP([2], 2, mu='fast')",
    "mlp run": "pa.ann.NetworkMLP([2], 2).run(np.ones((3, 3)))",
    "le": "pa.detection.learning_entropy(np.array([['a', 'b']]))",
    "le order": "pa.detection.learning_entropy(np.ones((3, 2)), m=1, order=-1)",
    "elbnd": "pa.detection.ELBND(np.ones((3, 2)), np.ones(3), function='min')",
    "elbnd length": "pa.detection.ELBND(np.ones((3, 2)), np.ones(4))",
    "ese": "pa.detection.ESE(np.arange(40.).reshape(20, 2) ** 2, window=5, pot_method='no')",
    "ese window": "pa.detection.ESE(np.ones((5, 2)), window=50)",
    "standardize": "pa.standardize('abc')",
    "standardize offset": "pa.standardize([1, 2], offset='x')",
    "back": "pa.standardize_back([1, 2], 1, 'x')",
    "history": "pa.input_from_history([1, 2, 3], 1.5)",
    "history 0": "pa.input_from_history([1, 2, 3], 0)",
    "history long": "pa.input_from_history([1, 2, 3], 7, bias=True)",
    "pca": "pa.preprocess.PCA(np.ones((5, 2)), n=5)",
    "lda": "pa.preprocess.LDA(np.ones((5, 2)), [0, 1, 0, 1, 0], n=1)",
    "lda nan": "pa.preprocess.LDA_discriminants(np.array([[np.nan, 1], [1, 2], [3, 4]]), [0, 1, 0])",
    "pca nan": "pa.preprocess.PCA_components(np.array([[np.nan, 1], [1, 2], [3, 4]]))",
    "mae": "pa.misc.MAE([1, 2], [1, 2, 3])",
    "mse text": "pa.misc.MSE(['a'])",
    "mean error": "pa.misc.get_mean_error([1, 2], function='max')",
    "logse zero": "pa.misc.logSE([0, 1])",
    "std zero": "pa.standardize([3, 3, 3])",
    "overflow": "pa.filters.FilterLMF(1, mu=1., w=[1.]).run(np.full(60, 1e3), np.full((60, 1), 1e3))",
    "mlp overflow": "pa.ann.NetworkMLP([2], 1).run(np.full((2, 1), -1e6))",
    "nan": "pa.filters.FilterNLMS(1).run([np.nan, 1.], np.ones((2, 1)))"}
# examples of the documentation: what a user does first
MORE = {
    "ese long": "pa.detection.ESE(np.cumsum(np.sin(np.arange(460.) ** 2).reshape(230, 2), axis=0), window=40)",
    "le long": "pa.detection.learning_entropy(np.cumsum(np.sin(np.arange(2460.) ** 2).reshape(1230, 2), axis=0), m=30, order=2, alpha=[1, 5.])",
    "run long": "pa.filters.FilterNLMS(3, mu=.5).run(np.sin(np.arange(1300.)), np.cos(np.arange(3900.)).reshape(1300, 3))",
    "rls long": "pa.filters.FilterRLS(3, mu=.99).run(np.sin(np.arange(1300.)), np.cos(np.arange(3900.) ** 1.5).reshape(1300, 3))",
    "adapt long": "f = pa.filters.FilterOCNLMS(3, mu=.5, mem=20)\nfor k in range(1200):\n    f.adapt(np.sin(k), np.cos([k, 2 * k, 3 * k]))",
    "mlp long": "pa.ann.NetworkMLP([3], 2, mu=.1).train(np.cos(np.arange(200.)).reshape(100, 2), np.sin(np.arange(100.)), epochs=120, shuffle=True)",
    "pca long": "pa.preprocess.PCA(np.cos(np.arange(3600.) ** 1.5).reshape(1200, 3), 2)",
    "lda long": "pa.preprocess.LDA(np.cos(np.arange(3600.) ** 1.5).reshape(1200, 3), list(range(6)) * 200, 2)",
    "hist long": "pa.input_from_history(np.arange(3000.), 40, bias=True)",
    "repr": "str(pa.filters.FilterAP(3)), repr(pa.ann.NetworkMLP([2], 2)), dir(pa.filters)"}


def jobs(tier):
    deep = tier == "thorough"
    for s in SETTINGS:
        for sh in range(4 if not deep else 16):
            yield {"settings": s, "shard": sh, "of": 4 if not deep else 16, "deep": deep}


def cases(job):
    yield dict(job)


def specs_of(c):
    from mc.checks import g04
    allspecs = g04.everything(c["deep"]) + list(g04.randoms())
    allspecs += list(surface.large())
    allspecs = allspecs[c["shard"]::c["of"]]
    if c["settings"] == "strict":       # raising on over- and underflow is not for every computation
        allspecs = [s for s in allspecs if s["s"] in ("std", "hist", "elbnd")]
    return allspecs


# ------------------------------------------------------------------ in the fresh process
def look():
    import builtins, decimal, gc, locale, logging, random, signal, threading, atexit, hashlib, warnings
    import numpy as np
    h = lambda o: hashlib.sha1(repr(o).encode()).hexdigest()[:12]
    mask = os.umask(0)
    os.umask(mask)
    return {"numpy error handling": repr(sorted(np.geterr().items())) + repr(np.geterrcall()),
            "numpy print options": repr(sorted(np.get_printoptions().items())),
            "warning filters": repr([(f[0], getattr(f[1], "pattern", f[1]), f[2].__name__, getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters]),
            "showwarning": id(warnings.showwarning),
            "Python's generator": h(random.getstate()),
            "environment": h(sorted(os.environ.items())), "directory": os.getcwd(), "sys.path": repr(sys.path), "argv": repr(sys.argv),
            "locale": repr(locale.setlocale(locale.LC_ALL)), "decimal": repr(decimal.getcontext().prec) + decimal.getcontext().rounding,
            "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
            "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
            "signal handlers": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)]),
            "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr), id(sys.stdin), repr(sys.gettrace()), repr(sys.getprofile()), id(threading.excepthook)),
            "logging": (len(logging.getLogger().handlers), logging.getLogger().level, logging.root.manager.disable),
            "exit functions": atexit._ncallbacks(), "threads": threading.active_count(),
            "files": sorted(f for f in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + f)),
            "umask": mask, "builtins": h(sorted(vars(builtins).keys()))}


def settings(how):
    import decimal, random, warnings
    import numpy as np
    warnings.simplefilter("ignore")
    if how == "quiet":
        np.seterr(all="ignore")
    elif how == "odd":
        np.seterr(divide="warn", over="ignore", under="ignore", invalid="warn")
        np.set_printoptions(precision=2, threshold=3, suppress=True, linewidth=20)
        sys.setrecursionlimit(3000)
        decimal.getcontext().prec = 5
        random.seed(7)
        os.environ["PADASIP_NOTHING"] = "1"
        warnings.filterwarnings("ignore", message="some text", category=UserWarning)
        os.umask(0o027)
    elif how == "strict":
        np.seterr(all="raise")


def worker():
    import signal  # noqa
    c = json.load(sys.stdin)
    sys.path.insert(0, c["repo"])
    import numpy as np
    import scipy.stats
    scipy.stats.genpareto.fit([1., 2, 3, 4, 1.5, 1], floc=1.)
    scipy.stats.genpareto.cdf(2., .5, 1., 1.)
    np.linalg.eig(np.eye(2))
    settings(c["settings"])
    os.chdir(c["dir"])
    out = {"steps": 0, "results": []}
    state = [look()]

    def judge(what):
        now = look()
        out["steps"] += 1
        if now != state[0]:
            bad = [k for k in now if now[k] != state[0][k]]
            out["bad"] = [what, [[k, repr(state[0][k])[:300], repr(now[k])[:300]] for k in bad]]
            raise StopIteration

    try:
        import padasip as pa
        judge("import padasip")
        for name in c["modules"]:
            __import__(name)
            judge("import " + name)
        strict = c["settings"] == "strict"
        for spec in c["specs"]:
            res = []
            for i, r in enumerate(surface.steps(spec, surface.Call())):
                res.append(r)
                judge([spec, i])
            out["results"].append(surface.encode(res))
        for name, code in sorted(c["bad"].items()) if not strict else ():
            np.random.seed(3)
            try:
                exec(code, {"pa": pa, "np": np})
            except Exception:
                pass
            judge([name, code])
    except StopIteration:
        pass
    out["files"] = sorted(os.listdir("."))
    with open(c["answer"], "w") as fh:
        json.dump(out, fh)


def modules():
    from mc import core
    out = []
    top = os.path.join(core.REPO, "padasip")
    for d, _, files in sorted(os.walk(top)):
        for f in sorted(files):
            if f.endswith(".py") and f != "__init__.py":
                out.append(os.path.relpath(os.path.join(d, f[:-3]), core.REPO).replace(os.sep, "."))
    return out


def check_case(c, rec):
    import shutil
    import tempfile
    from mc import core
    from mc.checks import d04, g04
    specs = specs_of(c)
    tmp = tempfile.mkdtemp(prefix="g07-")
    try:
        work = os.path.join(tmp, "work")
        os.mkdir(work)
        ans = os.path.join(tmp, "answer")
        bad = dict(BAD, **MORE)
        names = sorted(bad)[c["shard"]::c["of"]]
        job = {"settings": c["settings"], "repo": core.REPO, "dir": work, "answer": ans, "specs": specs,
               "bad": {k: bad[k] for k in names}, "modules": modules()}
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from mc.checks import g07; g07.worker()"], input=json.dumps(job),
                           capture_output=True, text=True, cwd=core.VERIF, timeout=140)
        if not os.path.exists(ans):
            rec.fail("the scenarios do not run under these settings", settings=c["settings"], text=r.stderr[-1500:])
        out = json.load(open(ans))
    finally:
        shutil.rmtree(tmp)
    if "bad" in out:
        rec.fail("process-wide state changed", after=out["bad"][0], change=out["bad"][1])
    if out["files"]:
        rec.fail("files were left in the working directory", files=out["files"])
    if r.stdout or r.stderr:
        rec.fail("something was printed", stdout=r.stdout[:500], stderr=r.stderr[:500])
    d04.cache_fit()
    for spec, o in zip(specs, out["results"]):
        res = surface.decode(o)
        want = surface.run(spec)
        if not g04.same(spec, want, res):
            i, p, q = g04.first_diff(want, res)
            rec.fail("another result under other settings", settings=c["settings"], spec=spec, step=i, here=q, elsewhere=p)
        rec.state((c["settings"], repr(spec)))
    rec.step(out["steps"])
    rec.outcome((c["settings"], c["shard"]))
