"""P04: LDA gives the real discriminants and directions of class separation."""
import itertools
import numpy as np
from mc import dom

PROP = "P04"
LEVEL = "exploration"
RULE = ("every data matrix over a small alphabet for the small shapes and class patterns (three features: a fixed sixth of the first-class multisets in the quick tier, all in the thorough one, each against every second class), fixed larger ones, every n, "
        "every naming of the classes and a set of sample orders; non-trivial = distinct (matrix, labels)")
ASSUMPTIONS = ["within-class scatter invertible (condition below 1e6); directions compared only where the "
               "discriminant is positive and simple"]
NAMES = [["a", "b", "c", "d"], [7, -3, 0, 100], ["x2", "x10", "", "zz"], [1.5, 0., -1., 2.], [.11, .12, .13, .14],
         ["a", "A", "a ", "aa"], [True, False], [2 ** 62, 2 ** 62 + 1, -2 ** 62, 2 ** 53 + 1], [1e300, 1.0000000000000002, 1., -1e300],
         ["1", "1.0", "01", "+1"]]


def jobs(tier):
    deep = tier == "thorough"
    for N, p, vals, labels in ((4, 2, [0., 1., -2.], [0, 0, 1, 1]), (5, 2, [0., 1.], [0, 0, 1, 1, 2]),
                               (5, 2, [0., 3.], [0, 1, 0, 1, 1]), (6, 2, [0., 1.], [0, 1, 2, 0, 1, 2])) + \
            (((5, 2, [0., 1., -2.], [0, 0, 1, 1, 1]), (6, 2, [0., 1.], [0, 1, 2, 3, 0, 1])) if deep else ()):
        firsts = itertools.product(vals, repeat=p)
        for first in firsts:
            yield {"N": N, "p": p, "vals": vals, "labels": labels, "first": list(first), "deep": deep}
    # three features: the samples of a class as multisets (sample order is varied in check_case)
    rows = list(itertools.product([0., 1.], repeat=3))
    for i in range(0, 120, 4 if deep else 12):
        yield {"multi": True, "i": i, "k": 4 if deep else 2}
    yield {"designs": True}


def cases(job):
    if "designs" in job:
        for name in ("mix", "small", "offset", "delay", "irr"):
            for N, p, k in ((8, 2, 2), (9, 2, 3), (12, 3, 2), (12, 3, 3), (20, 4, 2), (20, 4, 4), (40, 5, 3), (60, 8, 4),
                            (101, 3, 5), (40, 12, 3), (257, 2, 2), (520, 3, 3), (1030, 2, 2), (60, 3, 12), (120, 33, 2), (9, 2, 8), (2100, 2, 2), (80, 2, 40), (5100, 1, 2), (600, 2, 130)):
                for pat in ("mod", "block", "uneven"):
                    lab = [i % k if pat == "mod" else i * k // N if pat == "block" else (0 if i < N // 2 else 1 + i % (k - 1))
                           for i in range(N)]
                    yield {"gen": name, "N": N, "p": p, "labels": lab}
        return
    if "multi" in job:
        rows = [list(r) for r in itertools.product([0., 1.], repeat=3)]
        triples = list(itertools.combinations_with_replacement(rows, 3))
        for a in triples[job["i"]:job["i"] + job["k"]]:
            for b in triples:
                yield {"x": list(a) + list(b), "labels": [0, 0, 0, 1, 1, 1]}
        return
    p, done = job["p"], len(job["first"])
    for rest in itertools.product(job["vals"], repeat=p * job["N"] - done):
        m = job["first"] + list(rest)
        yield {"x": [m[i * p:(i + 1) * p] for i in range(job["N"])], "labels": job["labels"]}


def scatters(X, lab):
    m = X.mean(axis=0)
    p = X.shape[1]
    Sw, Sb = np.zeros((p, p)), np.zeros((p, p))
    for cl in sorted(set(lab)):
        A = X[[i for i, l in enumerate(lab) if l == cl]]
        mc = A.mean(axis=0)
        Sw += (A - mc).T @ (A - mc)
        Sb += len(A) * np.outer(mc - m, mc - m)
    return Sw, Sb


def check_case(c, rec):
    from padasip.preprocess import LDA, LDA_discriminants
    X = np.array(c["x"]) if "x" in c else np.array(dom.gen(c["gen"], c["N"], c["p"])[0])
    lab = c["labels"]
    N, p = X.shape
    Sw, Sb = scatters(X, lab)
    cond = np.linalg.cond(Sw)
    if not cond < 1e6:
        rec.skip("within-class scatter is singular")
        return
    Li = np.linalg.inv(np.linalg.cholesky(Sw))
    lam = np.linalg.eigvalsh(Li @ Sb @ Li.T)[::-1]
    tol = 1e-11 * cond * (abs(lam[0]) + 1e-3)
    # every naming, list or array, and reordered samples
    variants = [("", X, list(lab), 0), (" (array labels)", X, np.array(lab), 0)]
    for names in (NAMES if N <= 12 and c.get("gen") or N in (4, 20) else NAMES[:5]):
        if max(lab) < len(names):
            named = [names[l] for l in lab]
            variants.append((" (classes named %r)" % names[0], X, named, 0))
            variants.append((" (array of classes named %r)" % names[0], X, np.array(named), 0))
    order = np.r_[1:N, 0][::-1]
    variants.append((" (samples reordered)", X[order], [lab[i] for i in order], 1))
    variants.append((" (classes swapped)", X, [max(lab) - l for l in lab], 0))
    for what, A, L, reordered in variants:
        got = LDA_discriminants(A, L)
        rec.step()
        if np.iscomplexobj(got) or np.shape(got) != (p,):
            rec.fail("discriminants%s are not p real numbers" % what, got=got)
        if np.any(np.diff(got) > tol):
            rec.fail("discriminants%s are not in descending order" % what, got=got)
        if not np.all(np.abs(got - lam) <= tol):
            rec.fail("discriminants%s are wrong" % what, got=got, want=lam)
    xcond = np.linalg.cond(X)
    base = None
    for n in [None] + list(range(1, p)):
        for what, A, L, reordered in variants if n in (None, 1) else variants[:1]:
            Y = LDA(A, L) if n is None else LDA(A, L, n) if n % 2 else LDA(A, labels=L, n=n)
            rec.step()
            m = p - 1 if n is None else n
            if np.iscomplexobj(Y) or np.shape(Y) != (N, m):
                rec.fail("LDA%s does not return N x n real numbers" % what, shape=np.shape(Y), n=n)
            Yo = Y
            if reordered:
                Yo = np.empty_like(Y)
                Yo[order] = Y
            for j in range(m):
                gap = min([abs(lam[j] - lam[i]) for i in range(p) if i != j])
                if lam[j] < 1e-3 or gap < 1e-2 * lam[j] or gap < 1e4 * tol:
                    continue
                y = Yo[:, j:j + 1]
                sw, sb = scatters(y, lab)
                rtol = 1e-8 * cond * (1 + lam[0] / gap)
                if not abs(sb[0, 0] - lam[j] * sw[0, 0]) <= rtol * abs(sb[0, 0]):
                    rec.fail("column %d%s does not separate the classes by its discriminant" % (j, what),
                             between=sb, within=sw, discriminant=lam[j])
                if xcond < 1e5:
                    v = np.linalg.lstsq(X, y, rcond=None)[0][:, 0]
                    if not np.all(np.abs(X @ v - y[:, 0]) <= 1e-8 * np.max(np.abs(X))):
                        rec.fail("column %d%s is not a projection of the samples" % (j, what))
                    if abs(np.linalg.norm(v) - 1) > 1e-8 * xcond:
                        rec.fail("direction %d%s is not a unit vector" % (j, what), norm=np.linalg.norm(v))
                    r = Sb @ v - lam[j] * (Sw @ v)
                    if not np.max(np.abs(r)) <= rtol * xcond * (np.max(np.abs(Sb)) + 1):
                        rec.fail("direction %d%s is not an eigenvector" % (j, what), residual=r)
    rec.state((X.tobytes(), tuple(lab)))
    rec.outcome(np.round(lam, 9).tobytes())
