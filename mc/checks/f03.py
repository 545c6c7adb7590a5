"""F03: memoryless gradient filters follow their update rules."""
from mc import dom, onestep

PROP = "F03"
LEVEL = "model_checking"
RULE = ("every sample sequence over the alphabet up to the depth, for every parameter set, start and "
        "way of feeding (run, adapt, mixed), plus fixed long histories; a state is (filter, position, "
        "weights, sample), every step is compared with the documented rule")
ASSUMPTIONS = ["sample values outside the alphabets and long patterns are not explored",
               "parameters are those listed in mc/dom.py"]
KINDS = dom.MEMORYLESS
MIX = [["r", 2], ["a"], ["p"], ["r", 0], ["r", 3], ["a"]]


# a regularisation of exactly zero: the rule then divides by x.T @ x alone
ZEROEPS = {"NLMS": {"mu": .5, "eps": 0}, "NLMF": {"mu": .125, "eps": 0}, "NSSLMS": {"mu": .5, "eps": 0}}


def mixed(N):
    ops, left, i = [], N, 0
    while left:
        op = MIX[i % len(MIX)]
        c = op[1] if op[0] == "r" else 1
        if c > left:
            op, c = ["a"], 1
        ops.append(list(op))
        left -= c
        i += 1
    return ops


def jobs(tier, kinds=KINDS):
    deep = tier == "thorough"
    for kind in kinds:
        if kind in ZEROEPS:
            for n in (1, 2, 3):
                yield {"t": "zeroeps", "kind": kind, "n": n, "depth": {1: 3, 2: 2, 3: 2}[n] + deep}
        for ip in range(len(dom.PARAMS[kind])):
            for n, depth, size in ((1, 3, "m"), (2, 3, "m"), (3, 2, "m"), (4, 2, "m")):
                for w in ("zeros", "w0"):
                    if deep:
                        depth2 = {1: 5, 2: 3, 3: 3, 4: 4}[n]
                        size2 = {1: "m", 2: "l", 3: "m", 4: "m"}[n]
                    else:
                        depth2, size2 = depth, size
                    yield {"t": "all", "kind": kind, "ip": ip, "n": n, "w": w, "depth": depth2, "size": size2}
            for n in (1, 2):
                yield {"t": "extreme", "kind": kind, "ip": ip, "n": n, "depth": 3 if deep else 2}
            yield {"t": "long", "kind": kind, "ip": ip, "deep": deep}
            yield {"t": "nan", "kind": kind, "ip": ip}
        yield {"t": "ever", "kind": kind}


def missing(kind, par, whats=("d", "x", "xd", "inf", "-inf")):
    """samples that are not numbers, or infinite, at every place"""
    nan, inf = float("nan"), float("inf")
    for n in (1, 2, 5):
        for k in range(5):
            for what in whats:
                x, d = dom.gen("small", 5, n)
                if "x" in what:
                    x[k][-1] = nan
                if what != "x":
                    d[k] = {"inf": inf, "-inf": -inf}.get(what, nan)
                for mode in ("run", "adapt", [["r", 2], ["p"], ["a"], ["r", 2]]):
                    yield {"kind": kind, "par": par, "n": n, "w": dom.w0(n), "data": {"x": x, "d": d, "n": n}, "mode": mode}


def long_specs(deep):
    for g in dom.GENS + ["small", "irr", "sign", "huge", "tiny", "scales", "loud"]:
        for n in (1, 2, 3, 5, 8, 16, 17, 33, 64, 100, 129):
            yield {"gen": g, "N": 60 if n < 10 else 12, "n": n}
    for n in ((2, 5) if not deep else (1, 2, 3, 5, 10)):
        for N in (101, 128, 257, 520, 1030):
            yield {"gen": "mix", "N": N, "n": n}
            yield {"gen": "small", "N": N, "n": n}
    yield {"gen": "scales", "N": 1030, "n": 3}
    yield {"gen": "scales", "N": 30, "n": 9}
    if deep:
        for n in range(1, 140):
            yield {"gen": "delay", "N": 15, "n": n}
        yield {"gen": "small", "N": 5000, "n": 4}
        yield {"gen": "delay", "N": 10500, "n": 3}


def cases(job):
    kind = job["kind"]
    if job["t"] == "zeroeps":
        n = job["n"]
        alpha = [(x, d) for x, d in dom.alphabet(n, "m") if any(x)]
        for w in ("zeros", dom.w0(n)):
            for xs, ds in dom.histories(alpha, job["depth"]):
                for mode in ("run", "adapt"):
                    for par in (ZEROEPS[kind], dict(ZEROEPS[kind], eps=0.)):
                        yield {"kind": kind, "par": par, "n": n, "w": w, "data": {"x": xs, "d": ds}, "mode": mode}
        return
    par = dom.PARAMS[kind][job.get("ip", 0)]
    if job["t"] == "ever":
        for mode in (mixed(10500), "run", "adapt"):
            yield {"kind": kind, "par": dom.par_for(kind, dom.STABLE[kind][-1], 2), "n": 2, "w": dom.w0(2),
                   "data": {"gen": "irr", "N": 10500, "n": 2}, "mode": mode}
        for par in dom.PARAMS[kind][:2] + dom.STABLE[kind][:1]:
            for n in (130, 257, 300, 520, 1030):
                for g in ("mix", "small", "irr", "sign", "scales"):
                    for mode in ("run", "adapt"):
                        yield {"kind": kind, "par": dom.par_for(kind, par, n), "n": n, "w": dom.w0(n),
                               "data": {"gen": g, "N": 6, "n": n}, "mode": mode}
        return
    if job["t"] == "nan":
        yield from missing(kind, par)
        return
    if job["t"] == "long":
        for spec in long_specs(job["deep"]):
            for mode in ("run", "adapt", mixed(spec["N"])):
                yield {"kind": kind, "par": par, "n": spec["n"], "w": dom.w0(spec["n"]), "data": spec, "mode": mode}
        return
    n = job["n"]
    if job["t"] == "extreme":
        alpha = dom.EXTREME[n]
        ws = ["zeros", dom.w0(n), [1e3] * n, [1e-5] * n]
    else:
        alpha = dom.alphabet(n, job["size"])
        ws = ["zeros" if job["w"] == "zeros" else dom.w0(n)]
    for w in ws:
        for xs, ds in dom.histories(alpha, job["depth"]):
            for mode in ("run", "adapt"):
                yield {"kind": kind, "par": par, "n": n, "w": w, "data": {"x": xs, "d": ds}, "mode": mode}


def check_case(c, rec):
    X, D = dom.arrays(c["data"])
    onestep.judge(rec, c["kind"], c["par"], c["n"], c["w"], X, D, c["mode"])
