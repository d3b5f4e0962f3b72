"""C09  Results follow relabelling, reordering and representation of the data.

Exhaustive metamorphic exploration on the real estimators: every column permutation, a generating set of sample
permutations, every assignment of scales / signs / shifts from an alphabet to the columns, and every representation of
the same values. The reference model is the estimator's own answer on the base data, transported by the transformation."""
import itertools

import numpy as np
import pandas as pd

from mc.catalog import catalog, linear, panel, snapshot, ts
from mc.gen import dags, rng, same, weights
from checks.c07 import result_view

PROPERTY = "C09"
BOUNDS = ("all 3-node DAG data sets (fixed finite samples) x all column permutations, 4 sample permutations, all 7^3 affine assignments; "
          "4-node data sets x 24 permutations; every estimator x 7 representations")
ASSUMPTIONS = ["invariance under sample reordering and relabelling is required of the methods whose definition is symmetric "
               "(ICA's random start and index-ordered subset searches are compared on exact data in C02 instead)",
               "kernel statistics use the first 100 samples for their width, so sample reordering is checked on at most 100 samples"]


def fam(k, n=3, m=40):
    """Finite-sample non-Gaussian data of the k-th DAG (fixed)."""
    A = dags(n)[k]
    r = rng("c09", n, k)
    E = r.uniform(-1, 1, (m, n)) ** 3
    return E @ np.linalg.inv(np.eye(n) - weights(A, [1.2, -0.7, 0.5], k)).T


def symmetric():
    """Estimators whose definition does not refer to the position of a variable; views: how results are transported."""
    import lingam
    from sklearn.linear_model import LinearRegression
    one = lambda mk: (lambda X: mk().fit(X))
    return {
        "direct": one(lambda: lingam.DirectLiNGAM()),
        "direct-kernel": one(lambda: lingam.DirectLiNGAM(measure="kernel")),
        "highdim": one(lambda: lingam.HighDimDirectLiNGAM(random_state=0)),
        "resit": one(lambda: lingam.RESIT(regressor=LinearRegression(), alpha=0.05)),
        "parce": one(lambda: lingam.BottomUpParceLiNGAM(alpha=0.05)),
        "parce-fcorr": one(lambda: lingam.BottomUpParceLiNGAM(independence="fcorr", ind_corr=0.6)),
        "mg-direct": lambda X: lingam.MultiGroupDirectLiNGAM().fit([X, X * 1.3 + 0.2 * X ** 2]),
    }


def order_sets(order):
    return [frozenset(int(v) for v in np.atleast_1d(o)) for o in order]


def view(m):
    return {"order": order_sets(m.causal_order_), "B": [np.asarray(b, float) for b in (m.adjacency_matrices_ if hasattr(m, "adjacency_matrices_") else [m.adjacency_matrix_])]}


def eq(a, b, tol=1e-6, edges=True):
    if not edges:  # RESIT drops redundant parents one by one, in index order: only its causal order is label free
        return a["order"] == b["order"]
    return a["order"] == b["order"] and len(a["B"]) == len(b["B"]) and all(np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True) for x, y in zip(a["B"], b["B"]))


def columns(rec, name, n, ks, m=40):
    fit = symmetric()[name]
    for k in ks:
        X = fam(k, n, m)
        base = rec.must(f"{name} fit", fit, X)
        if base is None:
            return
        base = view(base)
        for p in itertools.permutations(range(n)):
            p = list(p)
            inv = {v: a for a, v in enumerate(p)}
            rec.state((name, n, k, tuple(p)))
            m_ = rec.must(f"{name} fit", fit, X[:, p])
            if m_ is None:
                return
            want = {"order": [frozenset(inv[v] for v in s) for s in base["order"]], "B": [B[np.ix_(p, p)] for B in base["B"]]}
            got = view(m_)
            rec.trace()
            if not eq(got, want, edges=name != "resit"):
                rec.fail(f"{name}: relabelling the variables changes the model", data=k, n=n, permutation=p, got=str(got), want=str(want))
    rec.sample({"estimator": name, "data": k, "permutation": p})


def samples(rec, name, n, ks, m=40):
    fit = symmetric()[name]
    for k in ks:
        X = fam(k, n, m)
        base = rec.must(f"{name} fit", fit, X)
        if base is None:
            return
        base = view(base)
        idx = np.arange(len(X))
        for what, q in (("swap", np.r_[1, 0, idx[2:]]), ("rotate", np.roll(idx, 1)), ("reverse", idx[::-1]), ("interleave", np.r_[idx[::2], idx[1::2]])):
            rec.state((name, "samples", n, k, what))
            m_ = rec.must(f"{name} fit", fit, X[q])
            if m_ is None:
                return
            rec.trace()
            if not eq(view(m_), base):
                rec.fail(f"{name}: reordering the samples changes the model", data=k, n=n, order=what, got=str(view(m_)), want=str(base))


AFF = [(1.0, 0.0), (-1.0, 0.0), (3.0, 5.0), (-0.01, 0.0), (250.0, -40.0), (1.0, 1000.0), (1e-4, 1.0)]


def affine(rec, name, n, ks, lo=0, hi=10 ** 9, m=40):
    fit = affine_table()[name]
    for k in ks:
        X = fam(k, n, m)
        base = rec.must(f"{name} fit", fit, X)
        if base is None:
            return
        base = aview(base)
        combos = list(itertools.product(range(len(AFF)), repeat=n))[lo:hi]
        if name in ("highdim", "resit"):  # moment statistic / joint kernel in the variables' own units: signs, shifts and a common factor
            combos = [c for c in combos if len({abs(AFF[i][0]) for i in c}) == 1]
        for c in combos:
            s, b = np.array([AFF[i][0] for i in c]), np.array([AFF[i][1] for i in c])
            rec.state((name, "affine", n, k, c))
            m_ = rec.must(f"{name} fit", fit, X * s + b)
            if m_ is None:
                return
            got = aview(m_)
            rec.trace()
            S = s[:, None] / s[None, :] if name != "resit" else np.ones((n, n))
            ok = got["order"] == base["order"] and all(np.allclose(g / S, w, rtol=1e-5, atol=1e-6, equal_nan=True) for g, w in zip(got["B"], base["B"]))
            if not ok:
                rec.fail(f"{name}: rescaling or shifting variables changes more than the units of the coefficients", data=k, n=n,
                         scale=s, shift=b, got=str(got), base=str(base))
    if combos:
        rec.sample({"estimator": name, "data": k, "scale": s, "shift": b})


def offsets(rec, name, n, ks, m=40):
    """Means many orders of magnitude larger than the spread (time stamps, identifiers)."""
    fit = affine_table()[name]
    for k in ks:
        X = fam(k, n, m)
        base = rec.must(f"{name} fit", fit, X)
        if base is None:
            return
        base = aview(base)
        for b in itertools.product((0.0, 1e8, -3e8), repeat=n):
            rec.state((name, "offset", n, k, b))
            m_ = rec.must(f"{name} fit", fit, X + np.array(b))
            if m_ is None:
                return
            got = aview(m_)
            rec.trace()
            if got["order"] != base["order"] or not all(np.allclose(g, w, rtol=1e-4, atol=1e-4, equal_nan=True) for g, w in zip(got["B"], base["B"])):
                rec.fail(f"{name}: adding large constants to variables changes the model", data=k, n=n, shift=b, got=str(got), base=str(base))


def aview(m):
    if hasattr(m, "causal_order_"):
        return view(m)
    anc = getattr(m, "ancestors_list_", None)
    mats = m.adjacency_matrices_ if hasattr(m, "adjacency_matrices_") else [m.adjacency_matrix_]
    return {"order": None if anc is None else [frozenset(a) for a in anc], "B": [np.asarray(b, float) for b in mats]}


def affine_table():
    import lingam
    t = dict(symmetric())
    t["rcd"] = lambda X: lingam.RCD(cor_alpha=0.1).fit(X)
    t["rcd-fcorr"] = lambda X: lingam.RCD(independence="fcorr", cor_alpha=0.1).fit(X)
    t["mg-direct"] = lambda X: lingam.MultiGroupDirectLiNGAM().fit([X, X[::-1]])
    t["mg-rcd"] = lambda X: lingam.MultiGroupRCD(cor_alpha=0.1).fit([X, X[::-1]])
    return t


def series(rec, key):
    """Vector autoregression and panel models: relabelling and rescaling of the variables."""
    import lingam
    for p in (2, 3):
        X = ts(p, key, m=60)
        for crit, lags, prune in ((None, 1, True), (None, 2, False), ("bic", 2, True)):
            mk = lambda: lingam.VARLiNGAM(lags=lags, criterion=crit, prune=prune)
            base = rec.must("VARLiNGAM fit", mk().fit, X)
            if base is None:
                return
            for q in itertools.permutations(range(p)):
                q = list(q)
                inv = {v: a for a, v in enumerate(q)}
                for s in itertools.product([1.0, -2.0, 0.1], repeat=p):
                    s = np.array(s)
                    rec.state(("var", key, p, crit, lags, prune, tuple(q), tuple(s)))
                    m = rec.must("VARLiNGAM fit", mk().fit, (X * s)[:, q])
                    if m is None:
                        return
                    rec.trace()
                    S = (s[:, None] / s[None, :])[np.ix_(q, q)]
                    want = [B[np.ix_(q, q)] * S for B in base.adjacency_matrices_]
                    if list(m.causal_order_) != [inv[v] for v in base.causal_order_] or not same(np.array(m.adjacency_matrices_), np.array(want), 1e-5):
                        rec.fail("VARLiNGAM: relabelling or rescaling the variables changes the model", p=p, crit=crit, lags=lags, prune=prune, permutation=q, scale=s)
                    if not same(m.residuals_, (base.residuals_ * s)[:, q], 1e-6):
                        rec.fail("VARLiNGAM: relabelling or rescaling the variables changes the residuals", p=p, crit=crit, lags=lags, permutation=q, scale=s)
    for T, p in ((3, 2), (3, 3), (4, 2)):
        XL = panel(T, p, key, m=40)
        mk = lambda: lingam.LongitudinalLiNGAM()
        base = rec.must("LongitudinalLiNGAM fit", mk().fit, XL)
        if base is None:
            return
        idx = np.arange(40)
        for q in itertools.permutations(range(p)):
            q = list(q)
            inv = {v: a for a, v in enumerate(q)}
            for s in itertools.product([1.0, -2.0], repeat=p):
                for rows in (idx, idx[::-1], np.roll(idx, 1)):
                    s = np.array(s)
                    rec.state(("long", key, T, p, tuple(q), tuple(s), int(rows[0])))
                    m = rec.must("LongitudinalLiNGAM fit", mk().fit, [(X * s)[rows][:, q] for X in XL])
                    if m is None:
                        return
                    rec.trace()
                    S = (s[:, None] / s[None, :])[np.ix_(q, q)]
                    got, b0 = np.array(m.adjacency_matrices_), np.array(base.adjacency_matrices_)
                    want = b0[:, :, q][:, :, :, q] * S
                    if [list(o) if o is not None and not np.any(np.isnan(np.array(o, float))) else None for o in m.causal_orders_] != \
                            [[inv[v] for v in o] if o is not None and not np.any(np.isnan(np.array(o, float))) else None for o in base.causal_orders_] or not same(got, want, 1e-5):
                        rec.fail("LongitudinalLiNGAM: relabelling, rescaling or reordering changes the model", T=T, p=p, permutation=q, scale=s)


def ro(X):
    X = np.array(X)
    X.setflags(write=False)
    return X


REPR = {
    "fortran": np.asfortranarray,
    "view": lambda X: np.repeat(np.c_[X, X + 1], 2, axis=0)[::2, :X.shape[1]],
    "reversed view": lambda X: X[::-1, ::-1].copy()[::-1, ::-1],
    "read-only": ro,
    "frame": lambda X: pd.DataFrame(X, columns=[f"v{i}" for i in range(X.shape[1])], index=np.arange(len(X))[::-1] * 2),
    "frame-int-labels": lambda X: pd.DataFrame(X, columns=list(range(X.shape[1]))[::-1]),
    "list": lambda X: X.tolist(),
    "int": lambda X: X.astype(int),
    "int-object": lambda X: X.astype(int).astype(object),
    "int-mixed-frame": lambda X: pd.DataFrame({f"v{i}": X[:, i].astype(int if i % 2 else float) for i in range(X.shape[1])}),
    "int32-frame": lambda X: pd.DataFrame(X.astype(np.int32)),
}


def conv(a, rep):
    if isinstance(a, np.ndarray) and a.ndim == 2 and len(a) > 4:
        return REPR[rep](a)
    if isinstance(a, list):
        return [conv(x, rep) for x in a]
    return a


def base_of(a, integer):
    if isinstance(a, np.ndarray) and a.ndim == 2 and len(a) > 4:
        return np.round(a * 10) if integer else a
    if isinstance(a, list):
        return [base_of(x, integer) for x in a]
    return a


def representation(rec, name, reps):
    e = catalog()[name]
    with e.env():
        for d, args in enumerate(e.data):
            refs = {}
            for rep in reps:
                integer = rep.startswith("int")
                A = tuple(base_of(a, integer) for a in args)
                C = tuple(conv(a, rep) for a in A)
                acts = [("fit", None)] + [("ask", q) for q in range(len(e.queries))] + ([("boot", None)] if e.boot else [])
                for act, q in acts:
                    rec.state((name, d, rep, act, q))

                    def go(data):
                        np.random.seed(99)
                        m = e.make()
                        if act == "boot":
                            o = rec.call(e.boot, m, data)
                            return (o.ok, result_view(o.value) if o.ok else type(o.exc).__name__)
                        o = rec.call(e.fit, m, data)
                        if act == "fit":
                            return (o.ok, snapshot(m) if o.ok else type(o.exc).__name__)
                        o = rec.call(lambda: e.queries[q][1](m, [np.asarray(x) if not isinstance(x, list) or name.startswith("var") else x for x in data] if name.startswith("var") else data))
                        return (o.ok, o.value if o.ok else type(o.exc).__name__)

                    if (act, q, integer) not in refs:
                        refs[(act, q, integer)] = go(A)
                    want, got = refs[(act, q, integer)], go(C)
                    rec.trace()
                    if act == "ask" and rep == "list" and not got[0]:
                        rec.note("query refuses nested lists")
                        continue
                    if not same(list(want), list(got), 1e-6):
                        rec.fail(f"{name}: the same values given as {rep} give a different result", data=d, operation=[act, q],
                                 got=str(got)[:300], want=str(want)[:300])
    rec.sample({"estimator": name, "representations": reps})


def utilities(rec, lo, hi):
    """Adjacency matrices (integer, Fortran) and data (also list, frame) given to the utilities."""
    from lingam import utils as U
    from lingam.bootstrap import BootstrapResult
    X = np.round(linear(3, 0) * 10)
    for A in dags(3)[lo:hi]:
        for v in range(2):
            B = weights(A, [2.0, -1.0, 3.0], v)
            calls = {
                "find_all_paths": lambda B, X: U.find_all_paths(B, 0, 2),
                "calculate_total_effect": lambda B, X: U.calculate_total_effect(B, 0, 2),
                "distances": lambda B, X: U.calculate_distance_from_root_nodes(B),
                "sinks": lambda B, X: list(U.get_sink_variables(B)),
                "exogenous": lambda B, X: list(U.get_exo_variables(B)),
                "drawing": lambda B, X: U.make_dot(B).source,
                "removal": lambda B, X: U.remove_effect(X, [0]),
                "removal2": lambda B, X: U.remove_effect(X, [0, 2], return_coefs=True),
                "lasso": lambda B, X: U.predict_adaptive_lasso(X, [0, 1], 2),
            }
            for rep, cb, cx in (("fortran", np.asfortranarray, np.asfortranarray), ("list", np.asarray, lambda x: x.tolist()),
                                ("int", lambda x: x.astype(int), lambda x: x.astype(int)), ("frame", np.asarray, pd.DataFrame)):
                for what, f in calls.items():
                    if what == "lasso" and rep not in ("fortran", "int"):
                        continue
                    if what == "drawing" and rep == "int":
                        continue
                    rec.state((A.tobytes(), v, rep, what))
                    want = rec.call(f, B, X)
                    got = rec.call(f, cb(B), cx(X))
                    rec.trace()
                    if want.ok != got.ok or (want.ok and not same(want.value, got.value, 1e-8)):
                        rec.fail(f"{what}: the same values given as {rep} give a different result", B=B, got=repr(got)[:300], want=repr(want)[:300])


def tasks(tier):
    th = tier != "quick"
    T = []
    heavy = {"direct-kernel", "parce-fcorr", "rcd-fcorr"}
    for name in symmetric():
        ks = range(25)
        for i in range(0, 25, 5):
            T.append(("columns", dict(name=name, n=3, ks=list(ks)[i:i + 5])))
            T.append(("samples", dict(name=name, n=3, ks=list(ks)[i:i + 5])))
        fours = [20, 150, 300, 450, 542] if not th else list(range(0, 543, 9))
        if name in heavy and not th:
            fours = fours[:2]
        for k in fours:
            T.append(("columns", dict(name=name, n=4, ks=[k], m=24)))
    for name in affine_table():
        ks = [0, 9, 24] if not th else list(range(25))
        if name in heavy and not th:
            ks = [9]
        for k in ks:
            for lo in range(0, 343, 49):
                T.append(("affine", dict(name=name, n=3, ks=[k], lo=lo, hi=lo + 49, m=30)))
    for name in ("direct", "mg-direct", "highdim", "direct-kernel"):
        for i in range(0, 25, 5):
            if name != "direct-kernel" or th or i == 20:
                T.append(("offsets", dict(name=name, n=3, ks=list(range(i, i + 5)))))
    for key in range(2 if not th else 6):
        T.append(("series", dict(key=key)))
    for lo in range(0, 25, 5):
        T.append(("utilities", dict(lo=lo, hi=lo + 5)))
    for name, e in catalog().items():
        reps = list(REPR)
        if e.cost >= 50:
            reps = ["fortran", "frame"] if not th else reps
        if e.kind == "mixed":  # numerical optimisation: not bitwise tied to the memory layout
            continue
        for r in ([[x] for x in reps] if e.cost > 1 else [reps]):
            T.append(("representation", dict(name=name, reps=r)))
    return T
