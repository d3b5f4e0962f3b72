"""C20  Independence measures obey their defining laws.

All pairs of samples of 6 points over a 3-letter alphabet (the first argument up to joint reordering of the samples, a
symmetry the check itself decides), and a family of larger samples on both sides of the size thresholds (100 points for
the kernel width, 1000 for the kernel correlation): statistic and p-value are compared with naive double sums, the kernel
correlation with the regularised kernel canonical correlation of the full Gram matrices, and both with themselves under
exchange of arguments, reordering of the samples, shifts, scalings and the shape of the arguments."""
import itertools

import numpy as np

from mc.gen import rng

PROPERTY = "C20"
BOUNDS = "pairs of samples of 6 points over a 3-letter alphabet (quick: 25 x 726 up to joint reordering, thorough: 7 points as well) x 3 kernel widths; families of samples of 8..1200 points, 1 and 2 columns; all 720 reorderings of selected samples"
ASSUMPTIONS = ["incomplete Cholesky factors are compared with full Gram matrices within 5e-3", "scipy's incomplete gamma function is trusted"]
WIDTHS = ("mdbs", "scott", "silverman")
TOL = 5e-3  # low-rank approximation of the kernel correlation


# ------------------------------------------------------------------ reference
def width(X, how):
    n = len(X)
    if how == "mdbs":
        P = X[:100]
        d = [((P[i] - P[j]) ** 2).sum() for i in range(len(P)) for j in range(i + 1, len(P))]
        d = [v for v in d if v > 0]
        return np.sqrt(0.5 * np.median(d))
    x = X[:, 0]
    sd = x.std(ddof=1)
    s = np.sort(x)

    def q(f):
        k = f * (n - 1)
        lo = int(k)
        return s[lo] + (k - lo) * (s[min(lo + 1, n - 1)] - s[lo])
    iqr = (q(0.75) - q(0.25)) / 1.349
    a = min(sd, iqr) if iqr > 0 else sd
    return {"scott": 1.059, "silverman": 0.9}[how] * a * n ** -0.2


def gram(X, w):
    d = ((X[:, None, :] - X[None, :, :]) ** 2).sum(-1)
    return np.exp(-d / (2 * w * w))


def reference(X, Y, how):
    """Biased HSIC times n and its gamma approximation (Gretton et al. 2008)."""
    from scipy.special import gammaincc
    n = len(X)
    K, L = gram(X, width(X, how)), gram(Y, width(Y, how))
    H = np.eye(n) - 1.0 / n
    Kc, Lc = H @ K @ H, H @ L @ H
    stat = np.trace(K @ H @ L @ H) / n
    off = ~np.eye(n, dtype=bool)
    var = ((Kc * Lc / 6) ** 2)[off].sum() / (n * (n - 1)) * 72 * (n - 4) * (n - 5) / (n * (n - 1) * (n - 2) * (n - 3))
    mx, my = K[off].mean(), L[off].mean()
    mean = (1 + mx * my - mx - my) / n
    if var <= 1e-15 or mean <= 1e-12:
        return stat, None
    return stat, gammaincc(mean ** 2 / var, max(stat, 0.0) / (var * n / mean))


def kcc(x, y):
    """Regularised first kernel canonical correlation of the full centred Gram matrices (Bach and Jordan 2002)."""
    n = len(x)
    kappa, s = (2e-3, 0.5) if n > 1000 else (2e-2, 1.0)
    R = []
    for v in (x, y):
        v = (v - v.mean()) / v.std()
        K = np.exp(-0.5 * ((v[:, None] - v[None, :]) / s) ** 2)
        H = np.eye(n) - 1.0 / n
        K = H @ K @ H
        R.append(np.linalg.solve(K + n * kappa / 2 * np.eye(n), K))
    return np.linalg.svd(R[0] @ R[1].T, compute_uv=False)[0]


# ------------------------------------------------------------------ checks
def near(a, b, tol=1e-8):
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def hsic_pair(rec, X, Y, how, deep=False):
    from lingam import hsic
    rec.state((X.tobytes(), Y.tobytes(), how))
    info = dict(x=X, y=Y, width=how)

    def test(A, B):
        o = rec.call(hsic.hsic_test_gamma, A, B, bw_method=how)
        if not o.ok:
            rec.fail("the independence test failed", got=repr(o), **info)
            return None
        return [float(np.squeeze(v)) for v in o.value]
    got = test(X, Y)
    if got is None:
        return
    stat, p = reference(X, Y, how)
    if not near(got[0], stat):
        rec.fail("the statistic is not the one of the definition", got=got[0], want=stat, **info)
    if p is None:
        return
    if not (0 <= got[1] <= 1) or not near(got[1], p, 1e-7):
        rec.fail("the p-value is not the one of the definition", got=got[1], want=p, **info)
    elif 1e-200 < p < 1e-7 and abs(got[1] / p - 1) > 0.05:  # the order of magnitude of decisive p-values enters pooled tests
        rec.fail("the p-value is not the one of the definition", got=got[1], want=p, **info)
    n = len(X)
    perm = rng("c20", X.tobytes(), Y.tobytes()).permutation(n)
    alts = [("exchanged arguments", Y, X)]
    if n <= 100 or how != "mdbs":
        alts.append(("reordered samples", X[perm], Y[perm]))
    if deep:
        alts += [("shifted and scaled", 2.5 - 0.25 * X, 7.0 + 40.0 * Y)]
        if X.shape[1] == 1 and Y.shape[1] == 1:
            alts += [("flat arguments", X[:, 0], Y[:, 0]), ("mixed shapes", X[:, 0], Y), ("Fortran order", np.asfortranarray(X), np.asfortranarray(Y))]
        if n <= 100 and how == "mdbs":
            alts += [("reversed samples", X[::-1], Y[::-1])]
    for what, A, B in alts:
        g = test(A, B)
        if g is not None and not (near(g[0], got[0]) and near(g[1], got[1], 1e-7)):
            rec.fail("the test does not agree with itself: " + what, got=g, want=got, **info)


def parts(rec, X, Y):
    """The published building blocks."""
    from lingam import hsic
    w, v = width(X, "mdbs"), width(Y, "mdbs")
    info = dict(x=X, y=Y)
    if not near(hsic.get_kernel_width(X), w) or not near(hsic.get_kernel_width(Y), v):
        rec.fail("kernel width is not the median distance", got=hsic.get_kernel_width(X), want=w, **info)
    n = len(X)
    H = np.eye(n) - 1.0 / n
    out = []
    for A, a in ((X, w), (Y, v)):
        for f in (0.5, 1.0, 3.0):
            K, Kc = hsic.get_gram_matrix(A, f * a)
            G = gram(A, f * a)
            if not np.allclose(K, G, atol=1e-9) or not np.allclose(Kc, H @ G @ H, atol=1e-9):
                rec.fail("Gram matrices differ from their definition", factor=f, **info)
        out.append(hsic.get_gram_matrix(A, a)[1])
    if not near(hsic.hsic_teststat(out[0], out[1], n), np.sum(out[0] * out[1]) / n):
        rec.fail("the statistic is not the mean product of the centred Gram matrices", **info)


def fcorr_pair(rec, x, y, deep=False):
    from lingam.utils import f_correlation
    rec.state((x.tobytes(), y.tobytes(), "f"))
    info = dict(x=x, y=y)

    def test(a, b):
        o = rec.call(f_correlation, a, b)
        if not o.ok:
            rec.fail("the kernel correlation failed", got=repr(o), **info)
            return None
        return float(o.value)
    got = test(x, y)
    if got is None:
        return
    if not -1e-9 <= got <= 1 + 1e-9:
        rec.fail("the kernel correlation leaves [0, 1]", got=got, **info)
    want = kcc(x, y)
    if abs(got - want) > TOL:
        rec.fail("the kernel correlation is not the one of the definition", got=got, want=want, **info)
    perm = rng("c20", x.tobytes(), y.tobytes()).permutation(len(x))
    alts = [("exchanged arguments", y, x, 1e-7), ("reordered samples", x[perm], y[perm], 2 * TOL)]
    if deep:
        alts += [("shifted and scaled", 2.5 - 0.25 * x, 7 + 40 * y, 1e-6), ("lists", list(x), list(y), 1e-9)]
    for what, a, b, tol in alts:
        g = test(a, b)
        if g is not None and abs(g - got) > tol:
            rec.fail("the kernel correlation does not agree with itself: " + what, got=g, want=got, **info)


def canonical(n, letters):
    return [x for x in itertools.combinations_with_replacement(letters, n) if len(set(x)) > 1]


def words(n, letters):
    return [y for y in itertools.product(letters, repeat=n) if len(set(y)) > 1]


def small(rec, n, lo, hi, step=1, fstep=11):
    """Every pair of short words over the alphabet."""
    xs, ys = canonical(n, (0.0, 1.0, 3.0)), words(n, (0.0, 1.0, 4.0))
    for i in range(lo, min(hi, len(xs))):
        X = np.array(xs[i])[:, None]
        for k, y in enumerate(ys[i % step::step]):
            Y = np.array(y)[:, None]
            for how in WIDTHS:
                hsic_pair(rec, X, Y, how, deep=k % 16 == i % 16)
            if k % fstep == i % fstep:
                fcorr_pair(rec, X[:, 0], Y[:, 0], deep=k % 3 == 0)
                parts(rec, X, Y)
    rec.trace()


def reorder(rec, k):
    """All 720 joint reorderings of one pair."""
    from lingam import hsic
    from lingam.utils import f_correlation
    r = rng("c20r", k)
    X, Y = r.uniform(-1, 1, 6), r.uniform(-1, 1, 6) ** 3
    ref = {how: hsic.hsic_test_gamma(X, Y, bw_method=how) for how in WIDTHS}
    f = f_correlation(X, Y)
    for p in itertools.permutations(range(6)):
        p = list(p)
        rec.state((k, tuple(p)))
        for how in WIDTHS:
            g = hsic.hsic_test_gamma(X[p], Y[p], bw_method=how)
            if not (near(np.squeeze(g[0]), np.squeeze(ref[how][0])) and near(np.squeeze(g[1]), np.squeeze(ref[how][1]), 1e-7)):
                rec.fail("the test depends on the order of the samples", width=how, permutation=p, x=X, y=Y)
        if abs(f_correlation(X[p], Y[p]) - f) > 2 * TOL:
            rec.fail("the kernel correlation depends on the order of the samples", permutation=p, x=X, y=Y)
    rec.trace()


LAWS = {"independent": lambda x, e: e, "linear": lambda x, e: x + 0.3 * e, "square": lambda x, e: x ** 2 + 0.1 * e, "scale": lambda x, e: x * e,
        "same": lambda x, e: x.copy(), "weak": lambda x, e: 0.2 * x + e}


def large(rec, n, law, seed, f=True):
    r = rng("c20l", n, law, seed)
    x = r.uniform(-1, 1, n) if seed % 2 else r.exponential(1, n)
    y = LAWS[law](x, r.laplace(size=n))
    if seed % 3 == 2:  # an order of the samples in which the first 100 are not typical
        o = np.argsort(x)
        x, y = x[o], y[o]
    for how in WIDTHS:
        hsic_pair(rec, x[:, None], y[:, None], how, deep=True)
    if n <= 400:
        parts(rec, x[:, None], y[:, None])
        Z = np.column_stack([x, r.normal(size=n)])
        W = np.column_stack([y * 2, np.tanh(x)])
        hsic_pair(rec, Z, y[:, None], "mdbs", deep=True)
        hsic_pair(rec, Z, W, "mdbs", deep=True)
    if f:
        fcorr_pair(rec, x, y, deep=True)
    rec.trace()


def tasks(tier):
    th = tier == "thorough"
    t = []
    N = len(canonical(6, (0, 1, 2)))
    for i in range(0, N, 2):
        t.append(("small", dict(n=6, lo=i, hi=i + 2, step=1 if th else 2, fstep=3 if th else 11)))
    if th:
        for i in range(len(canonical(7, (0, 1, 2)))):
            t.append(("small", dict(n=7, lo=i, hi=i + 1, step=2, fstep=23)))
    for k in range(24 if th else 4):
        t.append(("reorder", dict(k=k)))
    for n in (8, 25, 99, 100, 101, 150, 300, 1000, 1001, 1200):
        for law in LAWS:
            for seed in range(3 if n >= 1000 else 12 if th else 6):
                if n >= 1000 and not th and seed != (1 if law in ("linear", "weak", "independent") else 2):
                    continue
                t.append(("large", dict(n=n, law=law, seed=seed)))
    return t
