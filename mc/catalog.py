"""Every public estimator with settings, data sets, queries and bootstrap, for checks over all of them."""
import contextlib

import numpy as np

from .gen import rng


def linear(n, key=0, m=24, perm=None):
    """Linear non-Gaussian data (fixed, not sampled at run time)."""
    r = rng("catalog", n, key)
    B = np.tril(r.choice([1.1, -0.8, 0.6, 0.0], size=(n, n)), -1)
    X = (r.uniform(-1, 1, (m, n)) ** 3) @ np.linalg.inv(np.eye(n) - B).T + r.uniform(-1, 1, n)
    p = r.permutation(n) if perm is None else perm
    return np.ascontiguousarray(X[:, p])


def ts(p, key=0, m=40):
    r = rng("catalog-ts", p, key)
    E = r.uniform(-1, 1, (m, p)) ** 3
    B0 = np.tril(np.full((p, p), 0.7 - 0.2 * key), -1)
    M = 0.4 * np.eye(p) - 0.25 * np.triu(np.ones((p, p)), 1)
    S = np.linalg.inv(np.eye(p) - B0)
    X = np.zeros((m, p))
    for t in range(m):
        X[t] = S @ E[t] + (M @ X[t - 1] if t else 0)
    return X[:, ::-1].copy() if key % 2 else X


def panel(T, p, key=0, m=24):
    r = rng("catalog-panel", T, p, key)
    out, prev = [], 0
    for t in range(T):
        E = r.uniform(-1, 1, (m, p)) ** 3
        X = E @ np.linalg.inv(np.eye(p) - np.tril(np.full((p, p), 0.8 - 0.3 * (key % 2)), -1)).T + 0.5 * prev
        out.append(X)
        prev = X[:, ::-1]
    return out


def mixed(key=0, m=40):
    r = rng("catalog-mixed", key)
    x0 = r.uniform(-1, 1, m)
    x1 = (x0 + r.uniform(-1, 1, m) > 0).astype(float)
    x2 = 0.9 * x0 * (1 - 2 * (key % 2)) + r.laplace(size=m) * 0.3
    return np.c_[x0, x1, x2]


class Entry:
    def __init__(self, name, make, data, queries=(), boot=None, stub=None, cost=1, seeded=False, multi=False, bad=None, kind="single"):
        self.name, self.make, self.data, self.queries, self.boot = name, make, data, list(queries), boot
        self.stub, self.cost, self.seeded, self.multi, self.kind = stub, cost, seeded, multi, kind
        self.bad = bad if bad is not None else [("not data",), (np.array([[1.0, np.nan], [2.0, 3.0], [1.0, 0.0]]),)]

    @contextlib.contextmanager
    def env(self):
        if self.stub is None:
            yield
        else:
            with self.stub():
                yield

    def fit(self, model, args):
        return model.fit(*args)


def snapshot(model):
    """All public result attributes (trailing underscore)."""
    import copy
    out = {}
    for k in sorted(dir(type(model))):
        if k.startswith("_") or not k.endswith("_"):
            continue
        try:
            v = getattr(model, k)
        except Exception as e:
            v = ("raises", type(e).__name__)
        out[k] = copy.deepcopy(v)
    for k in ("ar_coefs_", "ma_coefs_"):
        out.pop(k, None)
    return out


def padded(E, n):
    """Residual series aligned with the original data (they lack the first lags when coefficients are given)."""
    E = np.asarray(E)
    return np.vstack([np.zeros((n - len(E), E.shape[1])), E])


def pk3(*entries):
    pk = -np.ones((3, 3), int)
    for i, j, v in entries:
        pk[i, j] = v
    return pk


def catalog(salts=(1, 2)):
    import lingam
    from sklearn.ensemble import RandomForestRegressor
    from sklearn.linear_model import LinearRegression
    from sklearn.tree import DecisionTreeRegressor

    from checks.c06 import salted
    from .oracle import LinGam
    from .env import replaced

    @contextlib.contextmanager
    def gamless(salt, graded=False):
        from pygam import LinearGAM
        with salted(salt, graded), replaced((LinearGAM, LinGam)):
            yield

    X3, Y3, X4, X2 = linear(3, 0), linear(3, 1, m=30), linear(4, 2), linear(2, 3)
    single = [(X3,), (Y3,), (X4,), (X2,)]
    q1 = [("total effect 0->1", lambda m, a: m.estimate_total_effect(a[0], 0, 1)),
          ("total effect 1->0", lambda m, a: m.estimate_total_effect(a[0], 1, 0)),
          ("error p-values", lambda m, a: m.get_error_independence_p_values(a[0]))]
    q2 = q1 + [("model total effect 0->1", lambda m, a: m.estimate_total_effect2(0, 1)),
               ("model total effect 1->0", lambda m, a: m.estimate_total_effect2(1, 0))]
    b1 = lambda m, a: m.bootstrap(a[0], 2)
    E = []
    add = lambda *a, **k: E.append(Entry(*a, **k))
    add("direct", lambda: lingam.DirectLiNGAM(), single, q1, b1)
    add("direct-kernel", lambda: lingam.DirectLiNGAM(measure="kernel"), [(X3[:12],), (Y3[:14],), (X4[:12],)], q1, b1, cost=2)
    add("direct-pk", lambda: lingam.DirectLiNGAM(prior_knowledge=pk3((0, 1, 0), (2, 0, 1))), single, q1, b1)
    add("direct-soft", lambda: lingam.DirectLiNGAM(prior_knowledge=pk3((0, 1, 0), (2, 0, 1)), apply_prior_knowledge_softly=True), single, q1, b1)
    add("ica", lambda: lingam.ICALiNGAM(random_state=0, max_iter=200), single, q1, b1, seeded=True)
    add("highdim", lambda: lingam.HighDimDirectLiNGAM(random_state=0), single, q1, b1)
    add("resit-lr", lambda: lingam.RESIT(regressor=LinearRegression(), alpha=0.1), single, q1, None)
    add("resit-tree", lambda: lingam.RESIT(regressor=DecisionTreeRegressor(max_depth=3, random_state=0)), single, q1, None)
    for s in salts:
        add(f"resit-arb{s}", lambda: lingam.RESIT(regressor=LinearRegression()), single, q1, None, stub=lambda s=s: salted(s))
        add(f"rcd-arb{s}", lambda: lingam.RCD(), single, q2, b1, stub=lambda s=s: salted(s))
        add(f"rcd-fcorr-arb{s}", lambda: lingam.RCD(independence="fcorr", max_explanatory_num=3), single, q2, b1, stub=lambda s=s: salted(s))
        add(f"parce-arb{s}", lambda: lingam.BottomUpParceLiNGAM(), single, q2, b1, stub=lambda s=s: salted(s))
        add(f"parce-fcorr-arb{s}", lambda: lingam.BottomUpParceLiNGAM(independence="fcorr"), single, q2, b1, stub=lambda s=s: salted(s))
        add(f"camuv-arb{s}", lambda: lingam.CAMUV(), single, [], None, stub=lambda s=s: gamless(s))
        add(f"camuv-pk-arb{s}", lambda: lingam.CAMUV(prior_knowledge=[(0, 1), (1, 2)], num_explanatory_vals=3), single, [], None, stub=lambda s=s: gamless(s))
    add("rcd", lambda: lingam.RCD(cor_alpha=0.2), single, q2, b1, cost=2)
    add("parce", lambda: lingam.BottomUpParceLiNGAM(), single, q2, b1, cost=2)
    add("parce-reg", lambda: lingam.BottomUpParceLiNGAM(regressor=DecisionTreeRegressor(max_depth=2, random_state=0)), single, q2, b1, cost=2)
    add("parce-lr", lambda: lingam.BottomUpParceLiNGAM(regressor=LinearRegression()), single, q2, b1, cost=2)
    add("parce-pk", lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk3((0, 1, 0), (2, 0, 1))), single, q2, b1, cost=2)
    multi = [([X3, Y3],), ([Y3, X3 * 1.5, Y3[::-1]],), ([X4, linear(4, 5)],)]
    mbad = [([X3, X4],), ("not data",), ([X3],), ([X3, np.full((5, 3), np.nan)],)]
    add("mg-direct", lambda: lingam.MultiGroupDirectLiNGAM(), multi, q2, b1, multi=True, bad=mbad, kind="multi")
    add("mg-direct-pk", lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk3((0, 1, 0), (2, 0, 1))), multi, q2, b1, multi=True, bad=mbad, kind="multi")
    for s in salts:
        add(f"mg-rcd-arb{s}", lambda: lingam.MultiGroupRCD(), multi, q2, b1, multi=True, bad=mbad, stub=lambda s=s: salted(s), kind="multi")
        add(f"mg-camuv-arb{s}", lambda: lingam.MultiGroupCAMUV(), multi, [], None, multi=True, bad=mbad, stub=lambda s=s: gamless(s), kind="multi")
        add(f"mg-rcd-graded-arb{s}", lambda: lingam.MultiGroupRCD(), multi, q2, b1, multi=True, bad=mbad, stub=lambda s=s: salted(s, True), kind="multi")
        add(f"mg-camuv-graded-arb{s}", lambda: lingam.MultiGroupCAMUV(), multi, [], None, multi=True, bad=mbad, stub=lambda s=s: gamless(s, True), kind="multi")
    tsd = [(ts(2, 0),), (ts(2, 1),), (ts(3, 0),)]
    qv = [("total effect lag0", lambda m, a: m.estimate_total_effect(a[0], 0, 1)),
          ("total effect lag1", lambda m, a: m.estimate_total_effect(a[0], 0, 1, from_lag=1)),
          ("model total effect", lambda m, a: m.estimate_total_effect2(a[0].shape[1], 1, 0, from_lag=1)),
          ("error p-values", lambda m, a: m.get_error_independence_p_values())]
    add("var", lambda: lingam.VARLiNGAM(lags=2, criterion="bic"), tsd, qv, b1, cost=2, kind="ts")
    add("var-none", lambda: lingam.VARLiNGAM(lags=2, criterion=None, prune=True), tsd, qv, b1, cost=2, kind="ts")
    add("var-ica", lambda: lingam.VARLiNGAM(lags=1, criterion=None, lingam_model=lingam.ICALiNGAM(random_state=1, max_iter=200)), tsd, qv, b1, cost=2, seeded=True, kind="ts")
    coef = np.array([[[0.4, -0.2], [0.1, 0.4]]])
    add("var-given", lambda: lingam.VARLiNGAM(lags=1, ar_coefs=coef.copy()), tsd, qv, b1, cost=2, kind="ts")
    qm = [("total effect", lambda m, a: m.estimate_total_effect(a[0], padded(m.residuals_, len(a[0])), 0, 1, from_lag=1)),
          ("model total effect", lambda m, a: m.estimate_total_effect2(a[0].shape[1], 1, 0)),
          ("error p-values", lambda m, a: m.get_error_independence_p_values())]
    add("varma", lambda: lingam.VARMALiNGAM(order=(1, 1), criterion=None, random_state=0), tsd[:2], qm, b1, cost=60, seeded=True, kind="ts")
    add("varma-bic", lambda: lingam.VARMALiNGAM(order=(1, 1), criterion="bic", random_state=0), tsd[:2], qm, b1, cost=120, seeded=True, kind="ts")
    add("varma-given", lambda: lingam.VARMALiNGAM(order=(1, 1), ar_coefs=coef.copy(), ma_coefs=0.3 * coef, random_state=0), tsd[:2], qm, b1, cost=4, seeded=True, kind="ts")
    pd_ = [(panel(3, 2, 0),), (panel(3, 2, 1),), (panel(4, 3, 0),)]
    ql = [("total effect", lambda m, a: m.estimate_total_effect(a[0], 1, 0, 2, 1)),
          ("model total effect", lambda m, a: m.estimate_total_effect2(1, 0, 2, 1)),
          ("error p-values", lambda m, a: m.get_error_independence_p_values())]
    add("longitudinal", lambda: lingam.LongitudinalLiNGAM(), pd_, ql, b1, multi=True, bad=[("x",), ([X3],), ([X3, X4],)], kind="panel")
    add("longitudinal-kernel", lambda: lingam.LongitudinalLiNGAM(measure="kernel"), pd_[:2], ql, b1, multi=True, bad=[("x",), ([X3],)], cost=2, kind="panel")
    add("longitudinal-2", lambda: lingam.LongitudinalLiNGAM(n_lags=2), [(panel(4, 2, 0),), (panel(4, 2, 1),)],
        [("model total effect", lambda m, a: m.estimate_total_effect2(2, 0, 3, 1))], lambda m, a: m.bootstrap(a[0], 2, start_from_t=2),
        multi=True, bad=[("x",), ([X3],)], kind="panel")
    dc = np.array([[1, 0, 1]])
    add("lim-global", lambda: lingam.LiM(max_iter=8), [(mixed(0), dc, True), (mixed(1), dc, True)], [], None, bad=[("x", dc, True)], cost=3, kind="mixed")
    add("lim", lambda: lingam.LiM(max_iter=8), [(mixed(0), dc), (mixed(1), dc), (mixed(1), dc, True)], [], None, bad=[("x", dc)], cost=6, kind="mixed")
    return {e.name: e for e in E}
