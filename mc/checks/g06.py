"""G06: everything but ESE works without SciPy."""
import numpy as np
from mc import dom, surface
from mc.checks import g02, g04

PROP = "G06"
LEVEL = "fault_enumeration"
RULE = ("fresh processes for every way SciPy can be missing (not found, blocked import, import error, scipy.stats missing) "
        "and every first import of the library: the whole public surface gives the results it gives with SciPy, every "
        "form of an ESE call raises ImportError; with SciPy ESE works; non-trivial = distinct (way, first import, scenario)")
ASSUMPTIONS = ["SciPy is made absent by an import hook in a fresh process"]
FIRST = [[], ["import padasip.detection"], ["from padasip.detection import learning_entropy, ELBND, ESE"],
         ["from padasip.detection import *"], ["import padasip as pa; pa.detection.ESE"], ["from padasip import filters"],
         ["import padasip.preprocess.lda", "import padasip.misc.error_evaluation"], ["import padasip.ann.mlp"],
         ["import numpy", "import padasip.filters.ap"], ["from padasip import standardize, standardize_back, input_from_history"]]
HOW = ["none", "hook", "import", "stats"]
ESE = {
    "plain": "import padasip as pa, numpy as np\npa.detection.ESE(np.eye(20), window=5)",
    "default window": "import padasip as pa, numpy as np\npa.detection.ESE(np.ones((1002, 1)))",
    "positional": "import padasip as pa, numpy as np\npa.detection.ESE(np.eye(20), 5, 'sqrt')",
    "keywords": "import padasip as pa, numpy as np\npa.detection.ESE(w=np.eye(20), window=5, pot_method='30%')",
    "constant": "import padasip as pa, numpy as np\npa.detection.ESE(np.zeros((9, 2)), window=4)",
    "imported": "from padasip.detection import ESE\nimport numpy as np\nESE(np.eye(20), window=5, pot_method='log10')",
    "twice": "import padasip as pa, numpy as np\ntry:\n    pa.detection.ESE(np.eye(20), window=5)\nexcept ImportError:\n    pass\n"
             "pa.detection.ESE(np.eye(20), window=5)"}


def jobs(tier):
    yield {"t": "with"}
    for how in HOW:
        for i in range(len(FIRST)):
            yield {"t": "without", "how": how, "first": i}


def cases(job):
    yield dict(job)


def check_case(c, rec):
    from mc.checks import d04
    if c["t"] == "with":
        d04.cache_fit()
        specs = [s for s in surface.functions(("mix", "delay", "u7")) if s["s"] == "ese"]
        for s in specs:
            r = surface.run(s)[0]
            if r.shape != (s["N"],) or not np.isfinite(r).all() or (r[:s["win"]] != 0).any() or (r < 0).any() or not (r > 0).any():
                if r.shape == (s["N"],) and np.isfinite(r).all() and (r >= 0).all():
                    rec.skip("no exceedance in this history")
                    continue
                rec.fail("ESE does not work with SciPy", spec=s, got=r)
            rec.step()
            rec.state(repr(s))
        out, err = surface.subprocess_run(specs)
        if out is None or any("error" in o for o in out["out"]):
            rec.fail("ESE does not work in a fresh process with SciPy", text=err or out["out"])
        return
    specs = [s for s in g04.everything(False) if s["s"] != "ese"] + list(g04.randoms())
    if c["first"] == 0:
        specs += list(surface.large())
    got, err = surface.subprocess_run(specs, block=c["how"], first=FIRST[c["first"]], probe=ESE, seed=3)
    if got is None:
        rec.fail("the library cannot be imported without SciPy", how=c["how"], first=FIRST[c["first"]], text=err)
    for name, mro in sorted(got["probe"].items()):
        rec.step()
        if "ImportError" not in mro:
            rec.fail("ESE without SciPy does not raise ImportError", call=ESE[name], raised=mro[0])
        rec.state((c["how"], c["first"], name))
    for spec, o in zip(specs, got["out"]):
        if "error" in o:
            rec.fail("fails without SciPy", spec=spec, how=c["how"], error=o)
        want = surface.run(spec)
        res = surface.decode(o["ok"])
        rec.step(len(res))
        if not g04.same(spec, want, res):
            i, p, q = g04.first_diff(want, res)
            rec.fail("another result without SciPy", spec=spec, how=c["how"], step=i, with_scipy=p, without=q)
        rec.state((c["how"], c["first"], repr(spec)))
    rec.outcome((c["how"], c["first"]))
