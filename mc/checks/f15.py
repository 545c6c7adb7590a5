"""F15: filters follow the units of their data; the linear ones obey superposition."""
import numpy as np
from mc import dom
from mc.checks.f09 import DEFAULTS

PROP = "F15"
LEVEL = "model_checking"
RULE = ("every sample sequence of the small alphabets and fixed long series, in other units of targets and inputs "
        "(factors 2^-80 to 2^40, in pairs) with the parameters converted, through run and mixed calls; and for the "
        "linear filters the response to a change of every single target and starting weight, of several of them, added "
        "to the response to the rest; both executions are compared over the whole history")
ASSUMPTIONS = ["factors are powers of two (of four for targets), so that converting is exact; parameters are stable on the data for superposition"]
LINEAR = ["LMS", "NLMS", "AP", "RLS", "OCNLMS"]
# units of targets, units of inputs
UNITS = [(4., 1.), (1., 2.), (2. ** -10, 2. ** 3), (2. ** 14, 2. ** -4), (2. ** 20, 2. ** 20), (2. ** -80, 1.), (2. ** 40, 2. ** 8),
         (2. ** -20, 2. ** -20), (2. ** -4, 2. ** 5), (-1., 1.), (1., -1.), (-4., -2. ** -3), (2. ** -60, 2. ** -7)]


def convert(kind, par, a, b):
    """parameters for targets in units a and inputs in units b"""
    p = dict(DEFAULTS[kind], **par)
    s = abs(a)
    t = abs(b)
    f = {"LMS": {"mu": t ** -2}, "NLMS": {"eps": t ** 2}, "LMF": {"mu": s ** -2 * t ** -2}, "NLMF": {"mu": s ** -2, "eps": t ** 2},
         "SSLMS": {"mu": s / t}, "NSSLMS": {"mu": s * t, "eps": t ** 2},
         "GMCC": {"lambd": s ** -float(p.get("alpha", 0)), "mu": s ** 2 * t ** -2}, "Llncosh": {"lambd": 1 / s, "mu": s / t ** 2},
         "GNGD": {"eps": t ** 2, "ro": t ** 4 / s ** 2},
         "VSLMS_Mathews": {"mu": t ** -2, "ro": s ** -2 * t ** -4}, "VSLMS_Benveniste": {"mu": t ** -2, "ro": s ** -2 * t ** -4},
         "VSLMS_Ang": {"mu": t ** -2, "ro": s ** -2 * t ** -4},
         "AP": {"ifc": t ** 2}, "RLS": {"eps": t ** 2}, "OCNLMS": {"eps": t ** 2}}[kind]
    return {k: v * f.get(k, 1) if k in f else v for k, v in p.items()}


def jobs(tier):
    deep = tier == "thorough"
    for kind in dom.KINDS:
        for ip in range(len(dom.PARAMS[kind])):
            for n, depth in ((1, 2), (2, 2), (3, 2)):
                yield {"t": "units", "kind": kind, "ip": ip, "n": n, "depth": depth + deep}
            yield {"t": "unitslong", "kind": kind, "ip": ip, "deep": deep}
    for kind in LINEAR:
        for ip in range(len(dom.STABLE[kind])):
            for n, depth in ((1, 3), (2, 2), (3, 2)):
                yield {"t": "sum", "kind": kind, "ip": ip, "n": n, "depth": depth + deep}
            yield {"t": "sumlong", "kind": kind, "ip": ip, "deep": deep}


def cases(job):
    kind, t = job["kind"], job["t"]
    par = (dom.PARAMS if t.startswith("units") else dom.STABLE)[kind][job["ip"]]
    c = {"t": t[:5] if t.startswith("units") else "sum", "kind": kind, "par": par}
    if t in ("units", "sum"):
        n = job["n"]
        for xs, ds in dom.histories(dom.alphabet(n, "l" if n == 1 and t == "units" else "m"), job["depth"]):
            yield dict(c, n=n, data={"x": xs, "d": ds}, mode="run")
            if t == "units" and n == 2:
                yield dict(c, n=n, data={"x": xs, "d": ds}, mode="adapt")
    else:
        for g in ["small", "delay", "burst", "scales", "loud", "offset", "const"] + (["sign", "mix", "huge", "tiny"] if t == "unitslong" else []):
            if g in ("const",) and kind == "RLS":
                continue
            for n, N in ((1, 12), (2, 30), (3, 40), (5, 20), (8, 30), (17, 20), (40, 8), (2, 140), (2, 300)) + \
                    (((130, 5), (3, 1030)) if t == "unitslong" or job["deep"] else ()) + (((257, 4), (520, 4), (2, 2100)) if not job["ip"] else ()):
                if (N > 40 or n > 20) and g not in ("small", "offset" if t == "sumlong" else "mix") and not job["deep"]:
                    continue
                yield dict(c, n=n, data={"gen": g, "N": N, "n": n}, mode="mixed")


def mixed(N):
    from mc.checks import f03
    return f03.mixed(N)


def values(o):
    return [np.array([np.nan if v is None else v for v in o[0]]), np.array([np.nan if v is None else v for v in o[1]]),
            np.array(list(o[2]) + [o[3]])]


def check_case(c, rec):
    X, D = dom.arrays(c["data"])
    kind, n, N = c["kind"], c["n"], len(D)
    par = dom.par_for(kind, c["par"], n)
    ops = {"run": [["r", N]], "adapt": [["p"]] * N}.get(c["mode"]) or mixed(N)
    w = np.array(dom.w0(n))
    try:
        y, e, W = values(dom.play(dom.make(kind, n, w.tolist(), dict(DEFAULTS[kind], **par)), ops, X, D))
    except np.linalg.LinAlgError:
        rec.skip("singular by rounding")
        return
    if c["t"] == "units":
        lim = 1e12
        ok = np.isfinite(W).all(axis=1) & (np.abs(W).max(axis=1) < lim)
        M = N if ok.all() else int(np.argmin(ok)) - 1        # compared as long as the numbers are moderate
        if M < N:
            rec.skip("diverges")
        if M < 1:
            return
        y, e, W = y[:M], e[:M], W[:M + 1]
        big = max(np.max(np.abs(D[:M])), np.nanmax(np.abs(y), initial=0.), 1e-300)
        wbig = np.max(np.abs(W))
        for a, b in UNITS if N < 100 else UNITS[2:6]:
            if abs(a) * abs(b) * abs(a) > 1e40 and kind in ("LMF", "NLMF") and N > 500:
                continue
            f = dom.make(kind, n, (w * (a / b)).tolist(), convert(kind, par, a, b))
            y2, e2, W2 = values(dom.play(f, ops, X * b, D * a))
            rec.step(N)
            y2, e2, W2 = y2[:M] / a, e2[:M] / a, W2[:M + 1] / (a / b)
            for what, p, q, tol in (("outputs", y2, y, 1e-9 * big), ("errors", e2, e, 1e-9 * big), ("weights", W2, W, 1e-9 * wbig)):
                if not np.array_equal(np.isnan(p), np.isnan(q)) or not (np.abs(p - q)[~np.isnan(q)] <= tol).all():
                    rec.fail("%s in other units differ" % what, units=(a, b), par=par, got=p, want=q)
            rec.state((kind, a, b, n, W2[-1].tobytes()))
        rec.outcome(W.tobytes())
        return
    if not dom.tame(W, np.nan_to_num(y), lim=1e4):
        rec.skip("diverges")
        return
    full = dict(DEFAULTS[kind], **par)
    # every target and starting weight alone (long series: some of them), and every second one
    js = list(range(N)) if N <= 6 else [0, 1, 2, 5, N // 2, N - 2, N - 1]
    parts = [np.eye(N)[j] * 3. for j in js] + [np.arange(N) % 2 * 1.5, np.ones(N), 256. * (np.arange(N) % 3 == 1)]
    for i, extra in enumerate(parts):
        wex = np.zeros(n)
        if i >= len(js) - 1 or N <= 6:
            wex[i % n] = -2.5
        one = values(dom.play(dom.make(kind, n, wex.tolist(), full), ops, X, extra))
        both = values(dom.play(dom.make(kind, n, (w + wex).tolist(), full), ops, X, D + extra))
        rec.step(2 * N)
        if not dom.tame(one[2], both[2], lim=1e6):
            rec.skip("diverges")
            continue
        for what, p, q, r in zip(("outputs", "errors", "weights"), (y, e, W), one, both):
            tol = 1e-7 * max(1., np.nanmax(np.abs(p), initial=0.), np.nanmax(np.abs(q), initial=0.), np.max(np.abs(W)))
            if not np.array_equal(np.isnan(r), np.isnan(p)) or not (np.abs(p + q - r)[~np.isnan(r)] <= tol).all():
                rec.fail("%s of a sum are not the sum of %s" % (what, what), extra=extra, start=wex, got=r, want=p + q)
        rec.state((kind, "sum", n, i, both[2][-1].tobytes()))
    rec.outcome(W.tobytes())
