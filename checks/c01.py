"""C01  Fitted model is acyclic and consistent with its causal order.

Environment answers are explored exhaustively on the real estimators:
 * ICA: every 3x3 unmixing matrix over an alphabet (and 4x4 structured ones) is handed to the estimator in place of
   the numerical ICA result;
 * RESIT: every sequence of independence statistics/p-values (choice tree) is returned by the kernel test;
 * Direct / HighDim / MultiGroup / Longitudinal / VAR: every small dataset of an alphabet plus exact data of every DAG,
   with the regression answering 'every predictor is a parent' so that any out-of-order predictor shows up."""
import contextlib
import itertools

import numpy as np

from mc.env import explore, replaced
from mc.gen import chunks, dags, exact_noise, lingam_data, rng, same, topo_ok, weights

PROPERTY = "C01"
BOUNDS = "3x3 unmixing matrices over 3 letters (19683), 4x4 permuted/triangular; RESIT verdict trees n<=4; all DAGs n<=4; all 4-sample datasets over {-1,0,2} for n=2"
ASSUMPTIONS = ["at least two variables"]


def judge(rec, order, B, info, n):
    B = np.asarray(B)
    try:
        o = [int(v) for v in order]
    except Exception:
        rec.fail("causal order is not a sequence of variable indices", order=repr(order), **info)
        return False
    if sorted(o) != list(range(n)):
        rec.fail("causal order is not a permutation of the variables", order=o, **info)
        return False
    if B.shape != (n, n) or not np.all(np.isfinite(B)):
        rec.fail("adjacency matrix is not a finite square matrix", B=B, **info)
        return False
    if not topo_ok(o, B):
        rec.fail("an edge contradicts the reported causal order (or the diagonal is not zero)", order=o, B=B, **info)
        return False
    return True


@contextlib.contextmanager
def all_parents():
    """The regression oracle answers: every offered predictor is a parent (coefficient = 1 + its rank)."""
    from lingam.utils import predict_adaptive_lasso

    def stub(X, predictors, target, gamma=1.0):
        return np.arange(1.0, len(predictors) + 1)

    with replaced((predict_adaptive_lasso, stub)):
        yield


def data(n, m=24, key=0):
    return rng("c01", n, m, key).laplace(size=(m, n)) @ (np.eye(n) + 0.3)


# ------------------------------------------------------------------ ICA
ALPH = [0.05, 1.0, -2.0]


def _fit_ica_with(rec, W, X):
    import lingam
    from sklearn.decomposition import FastICA

    class Fake:
        def __init__(self, *a, **k):
            pass

        def fit(self, X, y=None):
            self.components_ = np.array(W, float)
            self.mixing_ = np.linalg.pinv(self.components_)
            self.n_iter_ = 1
            return self

        def fit_transform(self, X, y=None):
            self.fit(X)
            return np.asarray(X) @ self.components_.T

        def transform(self, X):
            return np.asarray(X) @ self.components_.T

    with replaced((FastICA, Fake)), all_parents():
        m = lingam.ICALiNGAM()
        out = rec.call(m.fit, X)
    return m, out


def ica_matrices(rec, lo, hi):
    X = data(3)
    for k, w in enumerate(itertools.product(range(3), repeat=9)):
        if not lo <= k < hi:
            continue
        W = np.array([ALPH[v] for v in w]).reshape(3, 3) * (1 + 1e-3 * np.arange(9).reshape(3, 3))
        rec.state(("W", w))
        m, out = _fit_ica_with(rec, W, X)
        if not out.ok:
            rec.fail("fit failed for an invertible-diagonal unmixing matrix", W=W, got=repr(out))
            continue
        judge(rec, m.causal_order_, m.adjacency_matrix_, {"W": W}, 3)
        rec.trace()
    rec.sample({"W": W, "order": m.causal_order_})


def ica_true(rec, n, lo, hi):
    """W = D P (I - B) (+ perturbation) for every DAG B and every row permutation: true order must come out."""
    X = data(n)
    perms = list(itertools.permutations(range(n)))
    if n == 4:
        perms = perms[::5] + [perms[-1]]
    elif n == 5:
        perms = perms[::23]
    for A in dags(n)[lo:hi]:
        for v in range(4):  # the last two: coefficients that cancel exactly
            B = weights(A, [[0.8, -0.6, 0.45], [-0.7, 0.5], [1.0], [1.0]][v], v)
            if v > 1:
                for row in B:
                    row[row != 0] = ([1.0, -1.0, 2.0, -2.0] if v == 2 else [-2.0, 1.0, 1.0, -4.0])[:int((row != 0).sum())]
            for p in perms:
                W = (np.eye(n) - B)[list(p)] * np.array([2.0, -0.5, 1.0, 3.0 if v < 2 else 4.0, -1.0])[:n, None]
                W = np.where(W == 0, 1e-7, W)
                rec.state(("T", A.tobytes(), p, v))
                m, out = _fit_ica_with(rec, W, X)
                if not out.ok:
                    rec.fail("fit failed for a LiNGAM unmixing matrix", W=W, got=repr(out))
                    continue
                if judge(rec, m.causal_order_, m.adjacency_matrix_, {"W": W}, n) and not topo_ok(m.causal_order_, A):
                    rec.fail("order found from an exact unmixing matrix contradicts the true graph", A=A, p=p,
                             order=m.causal_order_)
                rec.trace()
    rec.sample({"B": B, "row_permutation": p, "order": m.causal_order_})


# ------------------------------------------------------------------ RESIT
class MeanReg:
    def fit(self, X, y):
        assert X.shape[1] >= 1
        self.m = float(np.mean(y))
        return self

    def predict(self, X):
        return np.full(len(X), self.m)


def resit_tree(rec, n, depth, root):
    import lingam
    from lingam.hsic import hsic_test_gamma

    X = data(n, 12)

    def run(ch):
        def stub(a, b, *r, **k):
            c = ch.choose(2)
            return (float(c), float(c))

        with replaced((hsic_test_gamma, stub)):
            m = lingam.RESIT(regressor=MeanReg(), alpha=0.01)
            return m, rec.call(m.fit, X)

    for path, (m, out), cut in explore(run, max_depth=depth, root=root):
        rec.state(("resit", n, path))
        rec.truncated += bool(cut)
        if not out.ok:
            rec.fail("RESIT failed", path=path, got=repr(out))
            continue
        if judge(rec, m.causal_order_, m.adjacency_matrix_, {"verdicts": path}, n):
            B = m.adjacency_matrix_
            if not set(np.unique(B)) <= {0.0, 1.0}:
                rec.fail("RESIT adjacency is not 0/1", B=B)
        rec.trace()
    rec.sample({"verdicts": path, "order": m.causal_order_})


# ------------------------------------------------------------------ linear estimators
def models():
    import lingam

    return {
        "direct": lambda: lingam.DirectLiNGAM(),
        "direct_kernel": lambda: lingam.DirectLiNGAM(measure="kernel"),
        "ica": lambda: lingam.ICALiNGAM(random_state=3),
        "highdim": lambda: lingam.HighDimDirectLiNGAM(),
        "multigroup": lambda: lingam.MultiGroupDirectLiNGAM(),
        "resit": lambda: lingam.RESIT(regressor=MeanReg()),
    }


def _fit_and_judge(rec, name, X, info, must=True, groups=None):
    """Fit with the real regression and with the all-parents answer."""
    n = X.shape[1]
    for stubbed in (False, True):
        with (all_parents() if stubbed else contextlib.nullcontext()):
            m = models()[name]()
            arg = [X, X[::-1] * 1.5] if name == "multigroup" else X
            out = rec.call(m.fit, arg)
        if not out.ok:
            if must:
                rec.fail(f"{name}: fit failed on regular data: {out!r}"[:200], **info)
            else:
                rec.note("refused degenerate dataset")
            continue
        mats = m.adjacency_matrices_ if name == "multigroup" else [m.adjacency_matrix_]
        for B in mats:
            if judge(rec, m.causal_order_, B, dict(info, estimator=name), n) and stubbed and name != "resit":
                # every variable was offered all its predecessors: the model must be the complete DAG of the order
                if int((np.asarray(B) != 0).sum()) != n * (n - 1) // 2:
                    rec.fail("a predecessor was not offered as a possible parent", B=B, **info)
        rec.trace()


def all_dags(rec, name, n, L, lo, hi):
    for k, A in list(enumerate(dags(n)))[lo:hi]:
        B = weights(A, [0.8, -1.3, 0.6], k)
        X = lingam_data(B, L, kinds=[(i + k) % 3 for i in range(n)], mean=[3.0, -1, 0, 10, 2][:n])
        if name == "direct_kernel":
            X = X[:: max(1, len(X) // 60)]
        rec.state((name, n, A.tobytes()))
        _fit_and_judge(rec, name, X, {"B": B})
    rec.sample({"estimator": name, "B": B})


def tiny_data(rec, name, n, lo, hi):
    """Every dataset with few samples over a 3-letter alphabet (ties, constants and collinearity included)."""
    m = 4 if n == 2 else 3
    for k, w in enumerate(itertools.product([-1.0, 0.0, 2.0], repeat=n * m)):
        if not lo <= k < hi:
            continue
        X = np.array(w).reshape(m, n)
        X = np.vstack([X, -X[:1] * 0.5, X[1:2] + 0.25])  # a few more samples so that regression is defined
        with np.errstate(all="ignore"):
            reg = np.linalg.matrix_rank(X - X.mean(0)) == n
            if not reg:
                rec.note("degenerate dataset")
            rec.state((name, X.tobytes()))
            _fit_and_judge(rec, name, X, {"X": X}, must=False)


def larger(rec, name):
    """5-8 variables, every rotation of a chain and of a dense graph."""
    for n in (5, 6, 8):
        for kind in ("chain", "dense"):
            for r in range(0, n, 2):
                for rev in (False, True):
                    p = [(i + r) % n for i in range(n)][:: -1 if rev else 1]
                    E = rng("c01L", n, r).uniform(-1, 1, size=(150, n)) ** 3
                    B = np.zeros((n, n))
                    for a in range(n):
                        for b in range(a):
                            if (kind == "chain" and b == a - 1) or (kind == "dense" and (a + b) % 2):
                                B[p[a], p[b]] = 0.9 if (a * b) % 2 else -0.7
                    X = E @ np.linalg.inv(np.eye(n) - B).T
                    if name == "direct_kernel":
                        if n > 5:
                            continue
                        X = X[:60]
                    if name == "resit" and n > 5:
                        continue
                    rec.state((name, n, kind, r, rev))
                    _fit_and_judge(rec, name, X, {"n": n, "kind": kind, "perm": p})
    # more variables than samples (high-dimensional estimator)
    if name == "highdim":
        import lingam

        X = rng("hd").laplace(size=(14, 16))
        for J, K in ((3, 4), (4, 3), (5, 2)):
            m = lingam.HighDimDirectLiNGAM(J=J, K=K)
            out = rec.call(m.fit, X)
            rec.state(("hd", J, K))
            if not out.ok:
                rec.fail("high-dimensional fit failed with n_samples < n_features", got=repr(out))
            else:
                judge(rec, m.causal_order_, m.adjacency_matrix_, {"J": J, "K": K}, 16)
            m = lingam.HighDimDirectLiNGAM(J=J, K=K, estimate_adj_mat=False)
            out = rec.call(m.fit, X)
            if not out.ok or sorted(m.causal_order_) != list(range(16)):
                rec.fail("order-only high-dimensional fit is not a permutation", got=repr(out))
            rec.trace()


def timeseries(rec, kind, lo, hi):
    import lingam

    for k, A in list(enumerate(dags(3)))[lo:hi]:
        B0 = weights(A, [0.6, -0.5], k)
        r = rng("c01ts", k)
        for lags in (1, 2):
            E = r.uniform(-1, 1, size=(150, 3)) ** 3 * 3
            X = np.zeros((150, 3))
            iB = np.linalg.inv(np.eye(3) - B0)
            for t in range(150):
                X[t] = iB @ (E[t] + (0.4 * np.roll(np.eye(3), 1, 0) @ X[t - 1] if t else 0)
                             - (0.3 * X[t - 2] if t > 1 and lags == 2 else 0))
            for prune in (False, True):
                for stubbed in (False, True):
                    if kind == "varma" and (k % 5 or (prune and stubbed)):
                        continue
                    with (all_parents() if stubbed else contextlib.nullcontext()):
                        if kind == "var":
                            m = lingam.VARLiNGAM(lags=lags, prune=prune, criterion="bic" if k % 2 else None)
                            out = rec.call(m.fit, X)
                        elif kind == "varma":
                            m = lingam.VARMALiNGAM(order=(1, 1), criterion=None, prune=prune)
                            out = rec.call(m.fit, X[:80])
                        else:
                            m = lingam.LongitudinalLiNGAM(n_lags=lags, measure="pwling")
                            Xl = [X[j: j + 120] + 0.1 * rng("lg", j).normal(size=(120, 3)) for j in range(0, 24, 6)]
                            out = rec.call(m.fit, Xl)
                    rec.state((kind, k, lags, prune, stubbed))
                    info = {"kind": kind, "B0": B0, "lags": lags, "prune": prune, "stubbed": stubbed}
                    if not out.ok:
                        rec.fail(f"{kind} fit failed: {out!r}"[:200], **info)
                        continue
                    if kind == "longitudinal":
                        for t in range(lags, 4):
                            judge(rec, m.causal_orders_[t], m.adjacency_matrices_[t, 0], info, 3)
                    elif kind == "var":
                        judge(rec, m.causal_order_, m.adjacency_matrices_[0], info, 3)
                    else:
                        judge(rec, m.causal_order_, m.adjacency_matrices_[0][0], info, 3)
                    rec.trace()


def tasks(tier):
    th = tier == "thorough"
    t = []
    for lo, hi in chunks(3 ** 9, 24):
        t.append(("ica_matrices", {"lo": lo, "hi": hi}))
    for lo, hi in chunks(25, 2):
        t.append(("ica_true", {"n": 3, "lo": lo, "hi": hi}))
    for lo, hi in chunks(543, 16):
        t.append(("ica_true", {"n": 4, "lo": lo, "hi": hi}))
    if th:
        for lo, hi in chunks(29281, 128):
            t.append(("ica_true", {"n": 5, "lo": lo, "hi": hi}))
    for n in (2, 3):
        t.append(("resit_tree", {"n": n, "depth": 30, "root": []}))
    for pre in itertools.product([0, 1], repeat=4):
        t.append(("resit_tree", {"n": 4, "depth": 30, "root": list(pre)}))
    for name in ("direct", "direct_kernel", "ica", "highdim", "multigroup", "resit"):
        t.append(("larger", {"name": name}))
        t.append(("all_dags", {"name": name, "n": 2, "L": 9, "lo": 0, "hi": 3}))
        for lo, hi in chunks(25, 4):
            t.append(("all_dags", {"name": name, "n": 3, "L": 5 if name != "resit" else 4, "lo": lo, "hi": hi}))
        if name not in ("direct_kernel", "resit"):
            for lo, hi in chunks(543, 16):
                t.append(("all_dags", {"name": name, "n": 4, "L": 4, "lo": lo, "hi": hi}))
        for lo, hi in chunks(3 ** 8, 8):
            if name in ("direct", "multigroup", "highdim") or th:
                t.append(("tiny_data", {"name": name, "n": 2, "lo": lo, "hi": hi}))
        for lo, hi in chunks(3 ** 9, 16):
            if th:
                t.append(("tiny_data", {"name": name, "n": 3, "lo": lo, "hi": hi}))
    for kind in ("var", "varma", "longitudinal"):
        for lo, hi in chunks(25, 8):
            t.append(("timeseries", {"kind": kind, "lo": lo, "hi": hi}))
    return t
