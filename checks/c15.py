"""C15  Causal simulation follows the trained structural model.

All labelled DAGs on 2-3 variables (4 sampled by a fixed stride) x every single change and every pair of changes (replaced
error series, re-wired parents with coefficients, replaced mechanism) x short run histories on one trained simulator,
compared with a reference interpreter of the structural equations. Cyclic re-wirings and invalid requests must be
rejected at any point of a history without influencing later runs."""
import itertools

import numpy as np
import pandas as pd

from mc.gen import chunks, dags, is_dag, rng, same, weights

PROPERTY = "C15"
BOUNDS = "6-11 variables, up to 1200 rows; all labelled DAGs n=2,3 (n=4 strided) x all single changes and pairs x run histories of length 3; pipelines and parameter searches as mechanisms; time series with 1-5 lags; discrete variables"
ASSUMPTIONS = ["scikit-learn's fit/predict are trusted"]
M = 14


class Add:
    """A trained mechanism given by the user: a fixed nonlinear function of the parents."""
    _estimator_type = "regressor"

    def __init__(self, k=1.0):
        self.k = k

    def fit(self, X, y=None):
        return self

    def predict(self, X):
        X = np.asarray(X, float)
        return self.k * np.abs(X).sum(1) + X[:, 0] ** 2 * 0.5

    def get_params(self, deep=True):
        return {"k": self.k}

    def set_params(self, **p):
        self.k = p.get("k", self.k)
        return self

    def __sklearn_tags__(self):
        from sklearn.linear_model import LinearRegression
        return LinearRegression().__sklearn_tags__()


class Reference:
    """Structural interpreter: y = f(parents) + own residual, recomputed from upstream to downstream."""

    def __init__(self, names, graph, data, models=None, discrete=()):
        from sklearn.linear_model import LinearRegression, LogisticRegression
        from sklearn.base import clone
        self.names, self.data, self.discrete = names, data, set(discrete)
        self.par, self.model, self.err = {}, {}, {}
        for i, nm in enumerate(names):
            par = [names[j] for j in range(len(names)) if abs(graph[i, j]) > 1e-8]
            self.par[nm] = par
            y = data[nm]
            if not par:
                self.model[nm], self.err[nm] = None, y.copy()
                continue
            Z = np.column_stack([data[q] for q in par])
            m = clone((models or {})[nm]) if nm in (models or {}) else LogisticRegression() if nm in self.discrete else LinearRegression()
            m.fit(Z, y)
            self.model[nm] = m
            self.err[nm] = None if nm in self.discrete else y - np.ravel(m.predict(Z))

    def run(self, exog=None, change=None, perm=None):
        """None if the re-wired graph is cyclic."""
        exog, change = exog or {}, change or {}
        par = {k: (change[k]["parent_names"] if k in change else v) for k, v in self.par.items()}
        out, todo = {}, list(self.names)
        while todo:
            ready = [k for k in todo if all(q in out for q in par[k])]
            if not ready:
                return None
            for k in ready:
                todo.remove(k)
                e = np.ravel(np.asarray(exog[k])) if k in exog else self.err[k]
                if perm is not None and e is not None:
                    e = e[perm]
                if not par[k]:
                    out[k] = self.data[k] if k in self.discrete else e
                    continue
                Z = np.column_stack([out[q] for q in par[k]])
                if k in change:
                    c = change[k]
                    if "coef" in c:
                        f = Z @ np.asarray(c["coef"], float)
                        if k in self.discrete:
                            f = f >= 0
                    else:
                        f = np.ravel(c["model"].predict(Z))
                else:
                    f = np.ravel(self.model[k].predict(Z))
                out[k] = f if k in self.discrete else f + e
        return out


def requests(names, m, kinds=True, sizes=None):
    """Single changes: (label, exog, change)."""
    r = rng("c15req", len(names))
    out = []
    for k in names:
        v = r.uniform(-2, 2, m)
        out.append((f"exog {k}", {k: v}, {}))
        rest = [q for q in names if q != k]
        for size in range(len(rest) + 1) if sizes is None else sizes:
            for ps in itertools.combinations(rest, size):
                ps = list(ps) if size % 2 else list(ps)[::-1]
                out.append((f"parents {k}<-{ps}", {}, {k: {"parent_names": ps, **({"coef": [0.7, -1.2, 0.4, 0.9, -0.3, 1.1, -0.8][:size]} if ps else {})}}))
                if ps and kinds:
                    out.append((f"mechanism {k}<-{ps}", {}, {k: {"parent_names": ps, "model": Add(0.5)}}))
    return out


def merge(a, b):
    e, c = dict(a[1]), dict(a[2])
    e.update(b[1])
    c.update(b[2])
    return (a[0] + " & " + b[0], e, c)


def check_run(rec, sim, ref, req, info, idx_len, affected=True):
    label, exog, change = req
    want = ref.run(exog, change)
    kw = {}
    if exog:
        kw["changing_exog"] = exog
    if change:
        kw["changing_models"] = change
    out = rec.call(sim.run, **kw)
    if want is None:
        if not out.raised(ValueError):
            rec.fail("a change that makes the graph cyclic is not rejected", change=label, got=repr(out)[:200], **info)
        return
    if not out.ok:
        rec.fail("simulation failed", change=label, got=repr(out)[:300], **info)
        return
    got = out.value
    if list(got.columns) != list(ref.names) or len(got) != idx_len:
        rec.fail("simulated data have other columns or length than the training data", change=label, got=list(got.columns), **info)
        return
    for k in ref.names:
        if not same(np.asarray(got[k], float), np.asarray(want[k], float), 1e-7):
            rec.fail("a simulated variable is not recomputed from its parents, mechanism and own residual", change=label, variable=k,
                     got=np.asarray(got[k], float)[:5], want=np.asarray(want[k], float)[:5], **info)
            return
    rec.trace()


def data_for(B, key, m=M):
    n = len(B)
    r = rng("c15", key)
    return r.laplace(size=(m, n)) @ np.linalg.inv(np.eye(n) - B).T + r.uniform(-2, 2, n)


def large_dag(n, k):
    A = np.zeros((n, n), int)
    p = [(3 * i + k) % n if n % 3 else (i + k) % n for i in range(n)]
    for i in range(1, n):
        for j in range(i):
            A[p[i], p[j]] = (j == i - 1 or (i * j + k) % 3 == 0) if k % 2 else 1
    return A


def graphs(rec, n, lo, hi, step=1, pairs=False, algo=None, form="frame", m=M):
    import lingam
    from sklearn.tree import DecisionTreeRegressor
    for k in range(lo, hi, step):
        # ordinary, small and exactly cancelling coefficients
        A = dags(n)[k] if n < 6 else large_dag(n, k)
        B = weights(A, ([0.9, -1.1, 0.5], [5e-3, -1.1, 2e-3, 0.7], [1.0, -1.0])[k % 3], k)
        if k % 3 == 2:
            for i in range(n):
                for c, j in enumerate(np.where(B[i])[0]):
                    B[i, j] = (-1.0) ** (c + k // 3)
        X = data_for(B, (n, k), m)
        names = [f"v{n - i}" for i in range(n)] if form in ("frame", "labelled") else [str(i) for i in range(n)]
        D = pd.DataFrame(X, columns=names) if form == "frame" else X
        if form == "numbered":  # columns named by numbers that are not their positions
            D = pd.DataFrame(X, columns=[(i + 1) % n for i in range(n)])
            names = [str((i + 1) % n) for i in range(n)]
        elif form == "labelled":  # rows labelled by something other than their positions
            D = pd.DataFrame(X, columns=names, index=[f"r{(7 * i) % m}" for i in range(m)])
        models = {names[0]: DecisionTreeRegressor(max_depth=2, random_state=0), names[-1]: Add(2.0)} if k % 2 else None
        G = B.copy()
        if algo == "BottomUpParceLiNGAM":
            free = [(i, j) for i, j in itertools.combinations(range(n), 2) if B[i, j] == 0 and B[j, i] == 0]
            for i, j in free[:1]:
                G[i, j] = G[j, i] = np.nan
        G0 = G.copy()
        sim = lingam.CausalBasedSimulator()
        out = rec.call(sim.train, D, G, algo, models)
        info = dict(graph=G, algorithm=algo, models=bool(models), form=form)
        if not out.ok:
            rec.fail("training failed", got=repr(out), **info)
            continue
        if not same(np.nan_to_num(G, nan=77.0), np.nan_to_num(G0, nan=77.0), 0):
            rec.fail("training modified the caller's graph", **info)
        if models and any(hasattr(m, "tree_") for m in models.values()):
            rec.fail("training fitted the caller's model instead of a copy", **info)
        ref = Reference(names, B, {c: X[:, i] for i, c in enumerate(names)}, models)
        res = sim.train_result_
        for c in names:
            t = res[c]
            if sorted(t["parent_names"]) != sorted(ref.par[c]) or not same(np.asarray(t["residual"], float), ref.err[c], 1e-7):
                rec.fail("training result of a variable is not its regression on its parents", variable=c, **info)
        rec.state((n, k, algo, form))
        none = ("no change", {}, {})
        check_run(rec, sim, ref, none, info, m)
        out = rec.call(sim.run)
        if out.ok and not same(out.value[names].values.astype(float), X, 1e-8):
            rec.fail("running without changes does not reproduce the training data", **info)
        R = requests(names, m) if n < 6 else requests(names, m, sizes=(0, 1, 2, 5))
        for q in R:
            rec.state((n, k, algo, form, q[0]))
            check_run(rec, sim, ref, q, info, m)
        if pairs:
            for a, b in itertools.combinations(R, 2):
                if set(a[2]) & set(b[2]):
                    continue
                rec.state((n, k, algo, form, a[0], b[0]))
                check_run(rec, sim, ref, merge(a, b), info, m)
        check_run(rec, sim, ref, none, dict(info, after="all other runs"), m)
        shuffled(rec, sim, ref, R[1], info, m)


def shuffled(rec, sim, ref, req, info, M=M):
    """Shuffling reorders the errors of all variables by one common permutation, reproducibly."""
    for seed in (0, 5):
        for _, exog, change in (("", {}, {}), req, ("", {ref.names[0]: np.arange(M) * 1.0}, {}),
                                ("", {ref.names[0]: np.arange(M) * 1.0, ref.names[-1]: np.arange(M) * -2.0}, {})):
            kw = dict(changing_exog=exog or None, changing_models=change or None, shuffle_residual=True, random_state=seed)
            a, b = rec.call(sim.run, **kw), rec.call(sim.run, **kw)
            if ref.run(exog, change) is None:
                continue
            if not a.ok or not b.ok:
                rec.fail("simulation with shuffled residuals failed", got=repr(a)[:200], **info)
                return
            A, Bv = a.value.values.astype(float), b.value.values.astype(float)
            np.random.seed(seed + 17)  # and not by the global generator
            c = rec.call(sim.run, **kw)
            if not same(A, Bv, 0) or not c.ok or not same(A, c.value.values.astype(float), 0):
                rec.fail("shuffled simulation is not reproducible by its seed", **info)
            errs = {k: np.ravel(exog[k]) if k in exog else ref.err[k] for k in ref.names}
            roots = [k for k in ref.names if not (change[k]["parent_names"] if k in change else ref.par[k]) and np.diff(np.sort(errs[k])).min() > 1e-6]
            if not roots:  # residuals with ties do not identify the permutation
                continue
            root = roots[0]
            e = errs[root]
            perm = [int(np.argmin(np.abs(e - v))) for v in np.asarray(a.value[root], float)]
            if sorted(perm) != list(range(M)):
                rec.fail("shuffled residuals are not a permutation of the residuals", variable=root, **info)
                return
            want = ref.run(exog, change, np.array(perm))
            for k in ref.names:
                if not same(np.asarray(a.value[k], float), np.asarray(want[k], float), 1e-7):
                    rec.fail("variables are not simulated from commonly shuffled residuals", variable=k, **info)
                    return
            rec.trace()


def series(rec, p, lags, keys, form):
    """Time-series simulator: names var[t], var[t-1], ...; data shortened by the lags."""
    import lingam
    for key in keys:
        r = rng("c15ts", p, lags, key)
        X = r.laplace(size=(M + lags, p))
        A = np.zeros((lags + 1, p, p))
        A[0] = weights(dags(p)[(key * 7 + 1) % len(dags(p))], [0.8, -0.6], key)
        for q in range(1, lags + 1):
            A[q] = np.where(r.uniform(size=(p, p)) < 0.5, 0, r.uniform(0.3, 1, (p, p)) if key % 2 else r.choice([0.5, -0.5, 4e-3], (p, p)))
        flags = [i == (key // 2) % p for i in range(p)] if key % 2 else None
        if flags:
            d = flags.index(True)
            X[:, d] = (X[:, d] > np.median(X[:, d])).astype(float)
        base = [10 + i for i in range(p)] if form == "int" else [f"s{i}" for i in range(p)]
        D = X if form == "array" else pd.DataFrame(X, columns=base)
        if form == "array":
            base = list(range(p))
        names = [f"{b}[t]" if q == 0 else f"{b}[t-{q}]" for q in range(lags + 1) for b in base]
        data = {}
        for q in range(lags + 1):
            for i, b in enumerate(base):
                data[names[q * p + i]] = np.array([X[t - q, i] for t in range(lags, M + lags)])
        G = np.zeros((len(names), len(names)))
        G[:p] = np.concatenate(list(A), axis=1)
        sim = lingam.CausalBasedSimulator()
        info = dict(adjacency=A, form=form)
        out = rec.call(sim.train, D, A, "VARLiNGAM", None, flags)
        if not out.ok:
            rec.fail("training failed", got=repr(out), **info)
            continue
        quiet = [nm for i, nm in enumerate(names) if flags and flags[i % p]]
        ref = Reference(names, G, data, discrete=quiet)
        rec.state(("ts", p, lags, key, form))
        check_run(rec, sim, ref, ("no change", {}, {}), info, M)
        R = []
        for k in names:
            if k not in quiet:
                R.append((f"exog {k}", {k: rng("c15e", k).uniform(-1, 1, M)}, {}))
            elif not rec.call(sim.run, changing_exog={k: np.zeros(M)}).raised(RuntimeError):
                rec.fail("an error series for a discrete variable is not rejected", variable=k, **info)
            for ps in ([], [names[p]], [names[-1], names[p - 1]], [names[0]]):
                if k not in ps:
                    R.append((f"parents {k}<-{ps}", {}, {k: {"parent_names": ps, **({"coef": [1.5, -0.5][: len(ps)]} if ps else {})}}))
        for q in R:
            rec.state(("ts", p, lags, key, form, q[0]))
            check_run(rec, sim, ref, q, info, M)
        for a, b in itertools.combinations(R[::2], 2):
            if not set(a[2]) & set(b[2]):
                check_run(rec, sim, ref, merge(a, b), info, M)


def discrete(rec, n, lo, hi):
    """Discrete variables are predicted by the classifier; exogenous ones keep their data."""
    import lingam
    for k in range(lo, hi):
        B = weights(dags(n)[k], [1.2, -0.9], k)
        for d in range(n):
            X = data_for(B, ("disc", n, k))
            X[:, d] = (X[:, d] > np.median(X[:, d])).astype(float)
            names = [f"v{i}" for i in range(n)]
            flags = [i == d for i in range(n)]
            sim = lingam.CausalBasedSimulator()
            info = dict(graph=B, discrete=d)
            out = rec.call(sim.train, pd.DataFrame(X, columns=names), B, None, None, flags)
            if not out.ok:
                rec.fail("training failed", got=repr(out), **info)
                continue
            ref = Reference(names, B, {c: X[:, i] for i, c in enumerate(names)}, discrete=[names[d]])
            rec.state(("disc", n, k, d))
            check_run(rec, sim, ref, ("no change", {}, {}), info, M)
            for q in requests(names, M, kinds=False):
                if names[d] in q[1]:
                    out = rec.call(sim.run, changing_exog=q[1])
                    if not out.raised(RuntimeError):
                        rec.fail("an error series for a discrete variable is not rejected", got=repr(out)[:200], **info)
                    continue
                check_run(rec, sim, ref, q, info, M)


def composite(rec, n, lo, hi):
    """Mechanisms that are pipelines or parameter searches: accepted by the kind of their final estimator, cloned, trained and run like any other."""
    import lingam
    from sklearn.cluster import KMeans
    from sklearn.linear_model import LinearRegression, LogisticRegression
    from sklearn.model_selection import GridSearchCV
    from sklearn.pipeline import Pipeline, make_pipeline
    from sklearn.preprocessing import PolynomialFeatures, StandardScaler
    from sklearn.svm import LinearSVC
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

    def reg():
        return [make_pipeline(StandardScaler(), LinearRegression()), Pipeline([("poly", PolynomialFeatures(2)), ("s", StandardScaler()), ("r", DecisionTreeRegressor(max_depth=2, random_state=0))]),
                GridSearchCV(DecisionTreeRegressor(random_state=0), {"max_depth": [1, 2]}, cv=2)]

    def cla():
        return [make_pipeline(StandardScaler(), LogisticRegression()), GridSearchCV(DecisionTreeClassifier(random_state=0), {"max_depth": [1, 2]}, cv=2),
                DecisionTreeClassifier(max_depth=2, random_state=0)]

    names = [f"v{i}" for i in range(n)]
    m = 24
    for k in range(lo, hi):
        B = weights(dags(n)[k], [1.2, -0.9], k)
        for d in [None] + list(range(n)):
            X = data_for(B, ("comp", n, k), m)
            flags = [i == d for i in range(n)]
            if d is not None:
                X[:, d] = (np.arange(m) * 7 % m >= m // 2).astype(float)  # both classes in every fold
            D = pd.DataFrame(X, columns=names)
            for i, which in itertools.product(range(n), range(3)):
                if not B[i].any():
                    continue
                mine, other = (cla, reg) if i == d else (reg, cla)
                info = dict(graph=B, discrete=d, variable=names[i], model=repr(mine()[which])[:80])
                sim = lingam.CausalBasedSimulator()
                out = rec.call(sim.train, D, B, None, {names[i]: mine()[which]}, flags)
                rec.state(("comp", n, k, d, i, which))
                if not out.ok:
                    rec.fail("training failed", got=repr(out)[:300], **info)
                    continue
                data = {c: X[:, j] for j, c in enumerate(names)}
                ref = Reference(names, B, data, {names[i]: mine()[which]}, discrete=[] if d is None else [names[d]])
                check_run(rec, sim, ref, ("no change", {}, {}), info, m)
                par = ref.par[names[i]]
                Z = np.column_stack([data[q] for q in par])
                fitted = mine()[which].fit(Z, X[:, i] if i == d else X[:, i] * 2 + 1)
                for q in ({names[i]: {"parent_names": par, "model": fitted}}, {names[i]: {"parent_names": []}}):
                    check_run(rec, sim, ref, ("change", {}, q), info, m)
                wrong = [other()[which]] + ([make_pipeline(StandardScaler(), LinearSVC()), LinearSVC()] if i == d else [make_pipeline(StandardScaler(), KMeans(2)), StandardScaler()])
                for w in wrong:
                    rec.state(("comp", n, k, d, i, which, repr(w)[:40]))
                    for f in (lambda: lingam.CausalBasedSimulator().train(D, B, None, {names[i]: w}, flags), lambda: sim.run(changing_models={names[i]: {"parent_names": par, "model": w}})):
                        if not rec.call(f).raised(RuntimeError):
                            rec.fail("a mechanism of the wrong kind is not rejected", wrong=repr(w)[:80], **info)
                check_run(rec, sim, ref, ("no change", {}, {}), dict(info, after="rejected mechanisms"), m)


def histories(rec, depth):
    """Valid and invalid requests in every order: each answer is the one a fresh simulator gives."""
    import lingam
    from sklearn.linear_model import LinearRegression, LogisticRegression
    n = 3
    B = np.array([[0, 0, 0], [1.0, 0, 0], [-0.5, 0.8, 0]])
    names = ["a", "b", "c"]
    X = data_for(B, "hist")
    D = pd.DataFrame(X, columns=names)
    B2 = np.array([[0, 0.7, 0], [0, 0, 0], [0, 0.4, 0]])
    ref1 = Reference(names, B, {c: X[:, i] for i, c in enumerate(names)})
    X2 = data_for(B2, "hist2")
    ref2 = Reference(names, B2, {c: X2[:, i] for i, c in enumerate(names)})
    v = list(np.linspace(-1, 1, M))
    ok = [
        ("none", {}, {}),
        ("list exog", {"a": v}, {}),
        ("series exog", {"b": pd.Series(v)}, {}),
        ("column exog", {"c": np.array(v).reshape(-1, 1)}, {}),
        ("rewire", {}, {"a": {"parent_names": ["b"], "coef": [2.0]}, "b": {"parent_names": []}}),
        ("model", {"a": np.array(v)}, {"c": {"parent_names": ["b"], "model": Add(1.0)}}),
    ]
    fitted = LinearRegression().fit(X[:, :1], X[:, 1])
    bad = [
        ("exog not dict", dict(changing_exog=[1]), (RuntimeError,)),
        ("exog unknown", dict(changing_exog={"z": v}), (RuntimeError,)),
        ("exog length", dict(changing_exog={"a": v[:-1]}), (RuntimeError,)),
        ("models not dict", dict(changing_models=[1]), (RuntimeError,)),
        ("model info not dict", dict(changing_models={"a": [1]}), (RuntimeError,)),
        ("target not str", dict(changing_models={0: {"parent_names": []}}), (TypeError,)),
        ("target unknown", dict(changing_models={"z": {"parent_names": []}}), (RuntimeError,)),
        ("no parents key", dict(changing_models={"b": {"coef": [1.0]}}), (KeyError,)),
        ("parents not list", dict(changing_models={"b": {"parent_names": "a", "coef": [1.0]}}), (KeyError,)),
        ("parent unknown", dict(changing_models={"b": {"parent_names": ["q"], "coef": [1.0]}}), (RuntimeError,)),
        ("no coef nor model", dict(changing_models={"b": {"parent_names": ["a"]}}), (KeyError,)),
        ("model none", dict(changing_models={"b": {"parent_names": ["a"], "model": None}}), (KeyError,)),
        ("coef length", dict(changing_models={"b": {"parent_names": ["a"], "coef": [1.0, 2.0]}}), (ValueError,)),
        ("classifier for continuous", dict(changing_models={"b": {"parent_names": ["a"], "model": LogisticRegression()}}), (RuntimeError,)),
        ("cycle 2", dict(changing_models={"a": {"parent_names": ["b"], "coef": [1.0]}}), (ValueError,)),
        ("cycle 3", dict(changing_models={"a": {"parent_names": ["c"], "model": fitted}}), (ValueError,)),
        ("self", dict(changing_models={"a": {"parent_names": ["a"], "coef": [1.0]}}), (ValueError,)),
        ("exog too long", dict(changing_exog={"a": v + [0.5]}), (RuntimeError,)),
    ]
    badtrain = [
        ("unknown algorithm", (D, B, "NoSuch"), (ValueError,)),
        ("algorithm not str", (D, B, 3), (TypeError,)),
        ("cyclic graph", (D, B + B.T), (ValueError,)),
        ("graph shape", (D, B[:2, :2]), (ValueError,)),
        ("graph nan", (D, np.full((3, 3), np.nan)), (ValueError,)),
        ("models not dict", (D, B, None, [1]), (RuntimeError,)),
        ("models unknown", (D, B, None, {"z": LinearRegression()}), (RuntimeError,)),
        ("models classifier", (D, B, None, {"b": LogisticRegression()}), (RuntimeError,)),
        ("3d graph missing", (D, B, "VARLiNGAM"), (ValueError,)),
    ]
    sim = lingam.CausalBasedSimulator()
    for f in (lambda: sim.run(), lambda: sim.run(changing_exog={"a": v})):
        out = rec.call(f)
        if not out.raised(RuntimeError):
            rec.fail("running before training is not rejected with the documented error", got=repr(out))
    for name, a, types in badtrain:
        out = rec.call(sim.train, *a)
        if not out.raised(*types):
            rec.fail("invalid training request is not rejected with the documented error", case=name, got=repr(out)[:200])
        if not rec.call(sim.run).raised(RuntimeError):
            rec.fail("a failed training leaves a runnable simulator", case=name)
    ops = [("run", q) for q in ok] + [("bad", q) for q in bad[::4]] + [("train", 1), ("train", 2), ("badtrain", badtrain[2])]
    for seq in itertools.product(range(len(ops)), repeat=depth):
        sim = lingam.CausalBasedSimulator()
        sim.train(D, B)
        ref = ref1
        rec.state(("hist", seq))
        info = dict(history=[str(ops[s][1][0]) if isinstance(ops[s][1], tuple) else f"train {ops[s][1]}" for s in seq])
        for s in seq:
            kind, q = ops[s]
            if kind == "run":
                check_run(rec, sim, ref, q, info, M)
            elif kind == "bad":
                out = rec.call(sim.run, **q[1])
                if not out.raised(*q[2]):
                    rec.fail("invalid request is not rejected with the documented error", case=q[0], got=repr(out)[:200], **info)
            elif kind == "badtrain":
                rec.call(sim.train, *q[1])
            else:
                out = rec.call(sim.train, *((D, B) if q == 1 else (pd.DataFrame(X2, columns=names), B2)))
                ref = ref1 if q == 1 else ref2
        check_run(rec, sim, ref, ok[0], info, M)
    sim = lingam.CausalBasedSimulator()
    sim.train(D, B)
    for name, kw, types in bad:
        out = rec.call(sim.run, **kw)
        if not out.raised(*types):
            rec.fail("invalid request is not rejected with the documented error", case=name, got=repr(out)[:200])
        check_run(rec, sim, ref1, ok[0], dict(after=name), M)
    rec.must("training", sim.train, pd.DataFrame(X[:, :2], columns=["p", "q"]), B[:2, :2])
    if sorted(sim.train_result_) != ["p", "q"]:
        rec.fail("the training result mentions variables of an earlier training", got=sorted(sim.train_result_))
    check_run(rec, sim, Reference(["p", "q"], B[:2, :2], {"p": X[:, 0], "q": X[:, 1]}), ok[0], dict(after="training on other variables"), M)


def tasks(tier):
    th = tier == "thorough"
    dags(4)
    t = [("graphs", dict(n=2, lo=0, hi=3, pairs=True)), ("graphs", dict(n=2, lo=0, hi=3, pairs=True, form="array"))]
    for lo, hi in chunks(25, 13):
        t.append(("graphs", dict(n=3, lo=lo, hi=hi, pairs=True)))
    for lo, hi in chunks(25, 4):
        t.append(("graphs", dict(n=3, lo=lo, hi=hi, algo="BottomUpParceLiNGAM", pairs=th)))
        t.append(("graphs", dict(n=3, lo=lo, hi=hi, algo="ICALiNGAM", form="array", pairs=th)))
        t.append(("discrete", dict(n=3, lo=lo, hi=hi)))
    for lo, hi in chunks(543, 12):
        t.append(("graphs", dict(n=4, lo=lo, hi=hi, step=1 if th else 5)))
    for p, lags, form in itertools.product((2, 3), (1, 2), ("frame", "array", "int")):
        t.append(("series", dict(p=p, lags=lags, keys=list(range(6 if th else 2)), form=form)))
    t += [("graphs", dict(n=3, lo=lo, hi=lo + 5, form=f)) for f in ("numbered", "labelled") for lo in range(0, 25, 5)]
    t += [("graphs", dict(n=3, lo=4, hi=25, step=7, m=300)), ("graphs", dict(n=3, lo=4, hi=25, step=10, m=1200, form="array"))]
    t += [("graphs", dict(n=n, lo=k, hi=k + 1, m=40, form=f)) for n in (6, 7, 11) for k in range(4) for f in ("frame", "array")]
    t += [("composite", dict(n=2, lo=0, hi=3))] + [("composite", dict(n=3, lo=lo, hi=lo + 1)) for lo in (range(25) if th else (6, 13, 24))]
    t += [("series", dict(p=2, lags=lags, keys=[0, 1, 2], form=f)) for lags in (3, 5) for f in ("frame", "array")]
    t.append(("histories", dict(depth=3 if th else 2)))
    return t
