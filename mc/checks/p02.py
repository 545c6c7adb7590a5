"""P02: history matrix rows are the consecutive windows of the series."""
import numpy as np
from mc import dom

PROP = "P02"
LEVEL = "exploration"
RULE = ("every series length up to the bound with every window size from 1 to the length, with and without bias, in "
        "every storage form; every item is compared; non-trivial = distinct (length, size, bias, form)")
ASSUMPTIONS = []


def jobs(tier):
    top = 40 if tier == "quick" else 120
    for N in list(range(1, top + 1)) + [100, 128, 257, 520, 1025, 2100, 10500]:
        yield {"N": N, "all": N <= top}


def cases(job):
    N = job["N"]
    ns = range(1, N + 1) if job["all"] else (3, 300) if N > 10000 else (1, 3, 33, 513) + ((N - 1,) if N < 2000 else ()) if N > 1000 else sorted({1, 2, 3, 5, 10, 16, 17, 64, 99, 100, 128, 129, 257, N // 2, N - 1, N})
    for n in ns:
        if n > N:
            continue
        for bias in (None, False, True, 0, 1):
            for form in ("f8", "list", "ints", "i4", "f4", "tuple", "stride") + (("nan",) if N <= 40 else ()):
                yield {"N": N, "n": n, "bias": bias, "form": form}


def check_case(c, rec):
    import padasip as pa
    N, n, form = c["N"], c["n"], c["form"]
    base = [((7 * i + 3) % 101 - 50) + (0 if form in ("ints", "i4") else .25) for i in range(N)]
    if form in ("f8", "tuple", "stride"):      # needs all digits
        base = [v / 7. for v in base]
    if form == "nan":
        for i, v in ((1, np.nan), (2, np.inf), (5, -np.inf), (N - 1, np.nan), (9, -0.)):
            if i < N:
                base[i] = v
        base = [float(v) for v in base]
    if form == "list":
        a = list(base)
    elif form == "tuple":
        a = tuple(base)
    elif form == "ints":
        a = [int(v) for v in base]
    elif form == "stride":
        a = np.array(base[::-1])[::-1]
    else:
        a = np.array(base, dtype="f8" if form == "nan" else form)
    for fn in (pa.input_from_history, pa.preprocess.input_from_history):
        rec.step()
        if c["bias"] is None:
            got = fn(a, n)
        elif c["bias"] in (0, 1) and not isinstance(c["bias"], bool):
            got = fn(a, n, bool(c["bias"]))
        else:
            got = fn(a, n=n, bias=c["bias"])
        want = [base[i:i + n] + ([1.] if c["bias"] else []) for i in range(N - n + 1)]
        if not isinstance(got, np.ndarray) or got.dtype != np.float64:
            rec.fail("not a float matrix", dtype=getattr(got, "dtype", type(got)))
        if got.shape != (N - n + 1, n + (1 if c["bias"] else 0)):
            rec.fail("wrong shape", got=got.shape)
        if got.tobytes() != np.array(want, dtype=float).tobytes():
            rec.fail("rows are not the consecutive windows", got=got, want=want)
    rec.state((N, n, c["bias"], form))
    rec.outcome((got.shape, got[0].tobytes()))
