"""C24  On any data the order-based methods return what their published criterion selects.

The other properties judge the estimators on data that follow the model. Here the data follow nothing: all tiny data sets
over a value alphabet and families of unstructured data, all unmixing matrices over an alphabet and arbitrary functions in
place of the independence test; an independent implementation of each published criterion decides what must come out."""
import contextlib
import itertools

import numpy as np

from mc.gen import chunks, dags, rng, topo_ok
from mc.ref import direct_order, highdim_order, ica_graph, kernel_order, lasso_support, resit_model
from checks.c01 import _fit_ica_with

PROPERTY = "C24"
BOUNDS = "all data sets of 2 variables and 4 samples over {0,1,3} (every 8009th of 3 variables and 5 samples); 5 kinds of unstructured data x n=2..6 x sizes (also n=8..16, 5000 rows); all 3x3 unmixing matrices over 3 magnitudes; exact unmixing matrices of all DAGs on 2 to 4 variables with cancelling coefficients; 12 arbitrary verdict functions x n=2..5 (RESIT)"
ASSUMPTIONS = ["ties of a statistic are not resolved", "scikit-learn's LARS path is trusted"]


def anydata(kind, n, m):
    """Unstructured data: no linear non-Gaussian model is meant."""
    r = rng("c24", kind, n, m)
    E = {0: r.uniform(-1, 1, (m, n)), 1: r.gamma(1.3, size=(m, n)), 2: r.standard_normal((m, n)), 3: r.laplace(size=(m, n)) ** 3,
         4: r.exponential(size=(m, n)) * r.uniform(0.1, 9, n)}[kind % 5]
    M = np.eye(n) + r.uniform(-0.8, 0.8, (n, n)) * (kind % 2 + 0.3)
    X = E @ M
    if kind % 3 == 1:
        X[:, -1] = X[:, 0] * X[:, -1] / 2 + np.tanh(X[:, 0])
    return X + r.uniform(-2, 2, n)


def compare(rec, what, want, est, out, **info):
    if want is None:
        rec.note("ties")
        return False
    if not out.ok:
        rec.fail(f"{what}: fit failed", got=repr(out), **info)
        return False
    if [int(v) for v in est.causal_order_] != [int(v) for v in want]:
        rec.fail(f"{what}: the order is not the one the criterion selects", got=est.causal_order_, want=want, **info)
        return False
    return True


def coefficients(rec, what, est, X, wide=False, **info):
    """Coefficients: least squares on the predecessors the adaptive lasso keeps."""
    o, B = [int(v) for v in est.causal_order_], np.asarray(est.adjacency_matrix_, float)
    want = np.zeros_like(B)
    for k in range(1, len(o)):
        s = lasso_support(X, o[:k], o[k], wide)
        if s:
            Z = X[:, s] - X[:, s].mean(0)
            want[o[k], s] = np.linalg.lstsq(Z, X[:, o[k]] - X[:, o[k]].mean(), rcond=None)[0]
    if B.shape != want.shape or not np.allclose(B, want, atol=1e-6, rtol=1e-6):
        rec.fail(f"{what}: coefficients are not the least squares on the predecessors the adaptive lasso keeps", got=B, want=want, **info)


def tiny(rec, n, m, lo, hi, step):
    import lingam
    for k in range(lo, hi, step):
        d, v = [], k
        for _ in range(n * m):
            v, q = divmod(v, 3)
            d.append((0.0, 1.0, 3.0)[q])
        X = np.array(d).reshape(m, n)
        C = np.cov(X.T) if n > 1 else None
        if (np.diag(C) == 0).any() or np.linalg.eigvalsh(np.corrcoef(X.T))[0] < 1e-6:
            continue
        rec.state(("tiny", n, m, k))
        e = lingam.DirectLiNGAM()
        compare(rec, "direct", direct_order([X]), e, rec.call(e.fit, X), X=X)
        rec.trace()


def unstructured(rec, kind, n, m):
    import lingam
    X = anydata(kind, n, m)
    info = dict(kind=kind, n=n, m=m)
    rec.state(("direct", kind, n, m))
    e = lingam.DirectLiNGAM()
    if compare(rec, "direct", direct_order([X]), e, rec.call(e.fit, X), **info):
        coefficients(rec, "direct", e, X, **info)
    rec.trace()
    Y = anydata(kind + 5, n, m + 7)
    e = lingam.MultiGroupDirectLiNGAM()
    rec.state(("multi", kind, n, m))
    compare(rec, "multi-group", direct_order([X, Y]), e, rec.call(e.fit, [X, Y]), **info)
    rec.trace()
    for J, K, alpha in ((3, 4, 0.5), (3, 3, 0.9), (4, 2, 0.3), (3, 4, 0.0), (4, 4, 1.0), (3, 4, 0.99)):
        rec.state(("highdim", kind, n, m, J, K, alpha))
        e = lingam.HighDimDirectLiNGAM(J=J, K=K, alpha=alpha)
        if compare(rec, "high-dimensional", highdim_order(X, J, K, alpha), e, rec.call(e.fit, X), J=J, K=K, alpha=alpha, **info):
            coefficients(rec, "high-dimensional", e, X - X.mean(0), **info)
        rec.trace()


def lasso(rec, n, m, u):
    """Predecessors on very different scales, near-deterministic targets with tiny standardised coefficients."""
    import lingam
    r = rng("lasso", n, m, u)
    E = r.uniform(-1, 1, (m, n)) if u % 2 else r.exponential(size=(m, n))
    s = 10.0 ** np.array([(3 * i + u) % 5 - 2 for i in range(n)])
    for tiny in (1.0, 5e-4, 2e-5):
        X = E.copy()
        for i in range(1, n):
            if i == n - 1 or tiny == 1.0:
                X[:, i] = X[:, 0] + tiny * X[:, 1:i].sum(1) + (0.3 if tiny == 1.0 else 0.01 * tiny) * E[:, i]
        X = X * s + 3
        rec.state(("lasso", n, m, u, tiny))
        e = lingam.DirectLiNGAM()
        out = rec.call(e.fit, X)
        if not out.ok:
            rec.fail("direct: fit failed", got=repr(out), n=n, m=m)
        elif tiny == 1.0 or n == 2:
            if compare(rec, "direct", direct_order([X]), e, out, n=n, m=m, scales=s):
                coefficients(rec, "direct", e, X, n=n, m=m, scales=s, tiny=tiny)
        else:
            coefficients(rec, "direct", e, X, n=n, m=m, scales=s, tiny=tiny)
        rec.trace()


def wide(rec, kind, n, m):
    """As many or fewer samples than variables."""
    import lingam
    X = anydata(kind, n, m)
    for alpha in (0.0, 0.5):
        rec.state(("wide", kind, n, m, alpha))
        e = lingam.HighDimDirectLiNGAM(alpha=alpha)
        out = rec.call(e.fit, X)
        if not out.ok:
            rec.fail("high-dimensional: fit failed", got=repr(out), n=n, m=m)
            continue
        if sorted(int(v) for v in e.causal_order_) != list(range(n)):
            rec.fail("high-dimensional: the order is no permutation", got=e.causal_order_)
            continue
        o, B, Y = [int(v) for v in e.causal_order_], np.asarray(e.adjacency_matrix_, float), X - X.mean(0)
        for k in range(1, n):
            s = [j for j in range(n) if B[o[k], j] != 0]
            if not set(s) <= set(o[:k]):
                rec.fail("high-dimensional: an edge contradicts the order", got=B, order=o)
                break
            if k <= m // 2:
                want = lasso_support(Y, o[:k], o[k], True)
                if sorted(want) != s:
                    rec.fail("high-dimensional: parents are not those the cross-validated adaptive lasso keeps", got=s, want=want, n=n, m=m)
                    break
            if s and len(s) < m - 1:
                c = np.linalg.lstsq(Y[:, s], Y[:, o[k]], rcond=None)[0]
                if not np.allclose(B[o[k], s], c, atol=1e-6, rtol=1e-5):
                    rec.fail("high-dimensional: coefficients are not the least squares on the parents", got=B[o[k], s], want=c, n=n, m=m)
                    break
        rec.trace()


def kernel(rec, kind, n, m):
    import lingam
    X = anydata(kind, n, m)
    rec.state(("kernel", kind, n, m))
    e = lingam.DirectLiNGAM(measure="kernel")
    if compare(rec, "kernel", kernel_order(X), e, rec.call(e.fit, X), kind=kind, n=n, m=m):
        coefficients(rec, "kernel", e, X, kind=kind)
    rec.trace()


def ica(rec, n, lo, hi, step=1):
    X = anydata(0, n, 20)
    mags = (0.03, 0.7, -1.9) if n == 3 else (0.05, -1.3)
    for k in range(lo, hi, step):
        W, v = np.zeros(n * n), k
        for c in range(n * n):
            v, q = divmod(v, len(mags))
            W[c] = mags[q] * (1 + 0.011 * ((7 * c) % (n * n)))
        W = W.reshape(n, n)
        G = ica_graph(W)
        if G is None:
            rec.note("ties")
            continue
        rec.state(("ica", n, k))
        m, out = _fit_ica_with(rec, W, X)
        if not out.ok or not topo_ok(m.causal_order_, (G != 0).astype(int)):
            rec.fail("ICA: the order does not fit the graph left by dropping the fewest smallest entries", W=W, graph=G,
                     got=repr(out) if not out.ok else m.causal_order_)
        rec.trace()


def ica_exact(rec, n, lo, hi, step=1):
    """Separating matrices of every DAG with coefficients that cancel along rows and columns (rows scaled and permuted)."""
    X = anydata(0, n, 20)
    perms = list(itertools.permutations(range(n)))
    for k in range(lo, hi, step):
        A = dags(n)[k]
        for v in range(2):
            B = np.where(A, np.where((np.add.outer(np.arange(n), np.arange(n)) + v) % 2, 1.0, -1.0), 0.0)
            if v:
                for i in range(n):  # signs alternate along the parents of each variable
                    for c, j in enumerate(np.where(A[i])[0]):
                        B[i, j] = (-1.0) ** (c + k)
            W = ((np.eye(n) - B) * (2.0 ** (np.arange(n) - 1) * (-1.0) ** k)[:, None])[list(perms[(7 * k + v) % len(perms)])]
            rec.state(("ica exact", n, k, v))
            m, out = _fit_ica_with(rec, W, X)
            if not out.ok or not topo_ok(m.causal_order_, A):
                rec.fail("ICA: the order does not fit the graph of an exact separating matrix", W=W, graph=A, got=repr(out) if not out.ok else m.causal_order_)
            rec.trace()


def resit(rec, n, salts, alphas=(0.01,), kind=1, m=26):
    import lingam
    from checks.c06 import salted
    from sklearn.linear_model import LinearRegression
    from sklearn.tree import DecisionTreeRegressor

    class Flip:
        """Regressor on standardised inputs that works with any column order."""
        def fit(self, X, y):
            self.c = (np.mean(y), np.mean(np.abs(X)))
            return self

        def predict(self, X):
            return self.c[0] + np.sum(np.sin(X), axis=1) * self.c[1] / 10

    regs = {"linear": LinearRegression, "tree": lambda: DecisionTreeRegressor(max_depth=2, random_state=0), "fixed": Flip}
    X = anydata(kind, n, m)
    for salt in salts:
        with salted(salt):
            import lingam.hsic as H
            test = H.hsic_test_gamma
            for name, mk in regs.items():
                if name == "tree" and salt is not None:
                    continue  # ties between splits make the fitted values depend on the order of the columns
                for alpha in alphas:
                    rec.state(("resit", n, salt, name, alpha, kind))
                    order, B = resit_model(X, lambda Z, y: mk().fit(Z, y).predict(Z), test, alpha)
                    e = lingam.RESIT(regressor=mk(), alpha=alpha)
                    info = dict(n=n, verdicts=salt, regressor=name, alpha=alpha)
                    if compare(rec, "RESIT", order, e, rec.call(e.fit, X), **info):
                        if not np.array_equal(np.asarray(e.adjacency_matrix_), B):
                            rec.fail("RESIT: an edge must go exactly when the residual without that parent tests independent of all predecessors",
                                     got=e.adjacency_matrix_, want=B, **info)
                    rec.trace()


def resit_exact(rec, n, lo, hi, L):
    """With exact verdicts RESIT returns exactly the generating graph."""
    import lingam
    from mc.gen import dags, lingam_data, weights
    from mc.oracle import exact_tests
    from sklearn.linear_model import LinearRegression
    for k in range(lo, hi):
        A = dags(n)[k]
        X = lingam_data(weights(A, [0.8, -1.3, 0.6], k), L)
        rec.state(("exact", n, k))
        e = lingam.RESIT(regressor=LinearRegression())
        with exact_tests():
            out = rec.call(e.fit, X)
        if not out.ok or not np.array_equal(np.asarray(e.adjacency_matrix_) != 0, A != 0):
            rec.fail("RESIT: with exact verdicts the graph is not the generating one", graph=A, got=repr(out) if not out.ok else e.adjacency_matrix_)
        rec.trace()


def tasks(tier):
    th = tier == "thorough"
    from mc.gen import dags
    dags(4)
    t = []
    for lo, hi in chunks(6561, 8):
        t.append(("tiny", dict(n=2, m=4, lo=lo, hi=hi, step=1)))
    for lo, hi in chunks(3 ** 15, 8):
        t.append(("tiny", dict(n=3, m=5, lo=lo, hi=hi, step=8009 if not th else 803)))
    for kind in range(10 if not th else 30):
        for n in (2, 3, 4, 5, 6):
            for m in (17, 60):
                t.append(("unstructured", dict(kind=kind, n=n, m=m)))
        for n, m in ((5, 5), (7, 7), (8, 6), (10, 10), (12, 9)):
            t.append(("wide", dict(kind=kind, n=n, m=m)))
        for n in (2, 3, 4):
            for m in (12, 30):
                t.append(("kernel", dict(kind=kind, n=n, m=m)))
        t.append(("kernel", dict(kind=kind, n=3, m=210)))
    for kind, n, m in ((0, 3, 1200), (1, 10, 200), (2, 13, 90), (3, 8, 400), (4, 2, 5000), (5, 16, 60)):
        t.append(("unstructured", dict(kind=kind, n=n, m=m)))
    for kind, m in ((0, 1000), (2, 1001)):  # the two parameter sets disagree on these
        t.append(("kernel", dict(kind=kind, n=2, m=m)))
    t += [("lasso", dict(n=n, m=m, u=u)) for n in (2, 3, 4, 7, 9) for m in (40, 150) for u in range(4)]
    for lo, hi in chunks(3 ** 9, 8):
        t.append(("ica", dict(n=3, lo=lo, hi=hi, step=1)))
    for lo, hi in chunks(2 ** 16, 8):
        t.append(("ica", dict(n=4, lo=lo, hi=hi, step=1 if th else 13)))
    t += [("ica_exact", dict(n=2, lo=0, hi=3)), ("ica_exact", dict(n=3, lo=0, hi=25))]
    for lo, hi in chunks(543, 2):
        t.append(("ica_exact", dict(n=4, lo=lo, hi=hi)))
    for n in (2, 3, 4, 5):
        for s in [None] + list(range(1, 13 if not th else 60)):
            for kind in (0, 1):
                t.append(("resit", dict(n=n, salts=[s], alphas=[0.01] if s is not None else [0.0, 0.01, 0.3], kind=kind)))
    for n, L, N in ((2, 7, 3), (3, 6, 25), (4, 4, 543)):
        for lo, hi in chunks(N, 8):
            t.append(("resit_exact", dict(n=n, L=L, lo=lo, hi=hi if n < 4 or th else lo + (hi - lo) // 4)))
    return t
