"""C08  Caller data is never modified.

Monitor: every array, frame, list and dictionary handed to the library (and every result handed out) is fingerprinted
byte for byte, and re-checked after every operation of every history: constructor, fit, bootstrap, queries for every
estimator, in every representation of the data (C / Fortran order, transposed view, data frame, nested list, integer),
plus every public utility on an enumerated set of matrices."""
import copy
import itertools

import numpy as np
import pandas as pd

from mc.catalog import catalog, linear
from mc.gen import dags, rng, weights

PROPERTY = "C08"
BOUNDS = "every estimator x 6 representations x histories of length <=2 (3 thorough); 12 estimators on 4 and 6 variables; utilities on all 3-node DAGs with/without unknown pairs"
ASSUMPTIONS = ["predictive models and plug-ins passed in are fitted in place by design; only data arguments are monitored"]


def fp(x):
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.strides, x.tolist() if x.dtype == object else x.tobytes())
    if isinstance(x, pd.DataFrame):
        return ("df", [str(c) for c in x.columns], x.index.tolist(), [str(t) for t in x.dtypes], [fp(x[c].to_numpy()) for c in x.columns])
    if isinstance(x, pd.Series):
        return ("se", str(x.name), x.index.tolist(), fp(x.to_numpy()))
    if isinstance(x, dict):
        return ("di", [(repr(k), fp(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [fp(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return ("s", repr(x))
    return ("o", type(x).__name__)


class Watch:
    def __init__(self):
        self.items = []

    def add(self, what, x):
        self.items.append((what, x, fp(x)))
        return x

    def check(self, rec, after, **info):
        for what, x, f in self.items:
            if fp(x) != f:
                rec.fail(f"{what} was modified", after=after, now=x if isinstance(x, (np.ndarray, list, dict)) else repr(x)[:300], **info)
                return False
        return True


def frames(X):
    return pd.DataFrame(X, columns=[f"v{i}" for i in range(X.shape[1])], index=np.arange(len(X))[::-1] * 2)


REPS = {
    "C": lambda X: np.ascontiguousarray(X.copy()),
    "F": lambda X: np.asfortranarray(X.copy()),
    "view": lambda X: np.repeat(np.c_[X, X + 1], 2, axis=0)[::2, :X.shape[1]],
    "frame": frames,
    "list": lambda X: X.tolist(),
    "int": lambda X: np.round(X * 10).astype(int),
}


def rerep(a, rep):
    if isinstance(a, np.ndarray) and a.ndim == 2 and a.dtype.kind == "f":
        return REPS[rep](a)
    if isinstance(a, list):
        return [rerep(x, rep) for x in a]
    return copy.deepcopy(a)


def handed_out(model):
    out = []
    for k in sorted(dir(type(model))):
        if k.endswith("_") and not k.startswith("_"):
            try:
                out.append((k, getattr(model, k)))
            except Exception:
                pass
    return out


def estimators(rec, name, rep, depth):
    e = catalog()[name]
    ops = [("fit", 0), ("fit", 1)] + ([("boot", 0)] if e.boot else []) + [("ask", q) for q in range(len(e.queries))]
    with e.env():
        for seq in itertools.product(ops, repeat=depth):
            if seq[0][0] == "ask":
                continue
            rec.state((name, rep, seq))
            w = Watch()
            data = [tuple(rerep(a, rep) for a in args) for args in e.data]
            w.add("data passed by the caller", data)
            m = e.make()
            last = 0
            for step, (op, k) in enumerate(seq):
                np.random.seed(7)
                if op == "fit":
                    o = rec.call(e.fit, m, data[k])
                    last = k
                elif op == "boot":
                    o = rec.call(e.boot, m, data[k])
                    if o.ok:
                        for r in (o.value if isinstance(o.value, list) else [o.value]):
                            w.add("an earlier bootstrap result", (r.adjacency_matrices_, r.total_effects_))
                else:
                    o = rec.call(e.queries[k][1], m, data[last])
                if not w.check(rec, after=[op, k], estimator=name, representation=rep, history=[list(s) for s in seq[:step + 1]]):
                    break
                if op == "fit" and o.ok:
                    for kk, v in handed_out(m):
                        w.add(f"an earlier result ({kk})", v)
            rec.trace()
    rec.sample({"estimator": name, "rep": rep, "history": [list(s) for s in seq]})


def settings(rec):
    """Arguments of constructors survive everything done with the object."""
    import lingam
    X = linear(3, 0)
    T = [linear(2, 5, m=40)]
    pk = np.array([[-1, 0, -1], [-1, -1, -1], [1, -1, -1]])
    for rep in ("int", "float", "list"):
        P = {"int": pk.copy(), "float": pk.astype(float), "list": pk.tolist()}[rep]
        cases = [
            ("DirectLiNGAM", lambda: lingam.DirectLiNGAM(prior_knowledge=P), lambda m: (m.fit(X), m.bootstrap(X, 1))),
            ("DirectLiNGAM kernel", lambda: lingam.DirectLiNGAM(prior_knowledge=P, measure="kernel"), lambda m: m.fit(X[:15])),
            ("DirectLiNGAM soft", lambda: lingam.DirectLiNGAM(prior_knowledge=P, apply_prior_knowledge_softly=True), lambda m: (m.fit(X), m.bootstrap(X, 1))),
            ("MultiGroupDirectLiNGAM", lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=P), lambda m: (m.fit([X, X[::-1] * 1.2]), m.bootstrap([X, X * 1.1], 1))),
            ("BottomUpParceLiNGAM", lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=P), lambda m: (m.fit(X), m.bootstrap(X, 1))),
        ]
        for name, mk, act in cases:
            rec.state(("settings", name, rep))
            w = Watch()
            w.add("the prior knowledge passed by the caller", P)
            m = rec.must(name, mk)
            if m is not None:
                rec.call(act, m)
                w.check(rec, after=name, estimator=name, representation=rep)
            rec.trace()
    lpk = np.full((3, 2, 2, 2), -1)
    lpk[1, 0, 0, 1] = 0
    lpk[2, 1, 1, 0] = 0
    for rep in ("int", "list"):
        P = lpk.copy() if rep == "int" else lpk.tolist()
        w = Watch()
        w.add("the prior knowledge passed by the caller", P)
        m = lingam.LongitudinalLiNGAM(prior_knowledge=P)
        rec.call(m.fit, [linear(2, k, m=30) for k in range(3)])
        w.check(rec, after="LongitudinalLiNGAM.fit", representation=rep)
        rec.state(("settings", "long", rep))
        rec.trace()
    for coefs in (np.array([[[0.4, -0.2], [0.1, 0.3]]]), [[[0.4, -0.2], [0.1, 0.3]]]):
        c2 = copy.deepcopy(coefs)
        w = Watch()
        w.add("the coefficients passed by the caller", (coefs, c2))
        m = lingam.VARLiNGAM(lags=1, ar_coefs=coefs)
        rec.call(m.fit, T[0])
        rec.call(m.bootstrap, T[0], 1)
        m2 = lingam.VARMALiNGAM(order=(1, 1), ar_coefs=coefs, ma_coefs=c2, random_state=0)
        rec.call(m2.fit, T[0])
        w.check(rec, after="VAR/VARMA fit", kind=type(coefs).__name__)
        rec.state(("settings", "coefs", type(coefs).__name__))
        rec.trace()
    cpk = [(0, 1), (2, 1)]
    w = Watch()
    w.add("the prior knowledge passed by the caller", cpk)
    from mc.oracle import exact_tests
    with exact_tests():
        m = lingam.CAMUV(prior_knowledge=cpk)
        rec.call(m.fit, X)
        m = lingam.MultiGroupCAMUV(prior_knowledge=cpk)
        rec.call(m.fit, [X, X * 1.1])
    w.check(rec, after="CAMUV fit")
    rec.trace()


def larger(rec, n, rep):
    """More variables than the histories above use: fitted once, replicated once and queried."""
    import lingam
    from sklearn.linear_model import LinearRegression
    from mc.oracle import exact_tests
    X = linear(n, 3, m=50)
    cases = [("direct", lambda: lingam.DirectLiNGAM(), 1), ("ica", lambda: lingam.ICALiNGAM(random_state=0), 1),
             ("highdim", lambda: lingam.HighDimDirectLiNGAM(), 1), ("rcd", lambda: lingam.RCD(), 1), ("parce", lambda: lingam.BottomUpParceLiNGAM(), 1),
             ("multi", lambda: lingam.MultiGroupDirectLiNGAM(), 2), ("mgrcd", lambda: lingam.MultiGroupRCD(), 2),
             ("camuv", lambda: lingam.CAMUV(), 1), ("mgcamuv", lambda: lingam.MultiGroupCAMUV(), 2), ("resit", lambda: lingam.RESIT(regressor=LinearRegression()), 1),
             ("var", lambda: lingam.VARLiNGAM(lags=2), 1), ("longitudinal", lambda: lingam.LongitudinalLiNGAM(), 2)]
    for name, mk, g in cases:
        Y = REPS[rep](X) if g == 1 else [REPS[rep](X), REPS[rep](X[::-1] * 1.1)]
        w = Watch()
        w.add("data passed by the caller", Y)
        m = mk()
        acts = [("fit", lambda: m.fit(Y))]
        if name not in ("camuv", "mgcamuv", "resit"):
            acts.append(("bootstrap", lambda: m.bootstrap(Y, 1)))
        if name in ("direct", "ica", "highdim", "rcd", "parce", "multi", "mgrcd"):
            acts += [("total effect", lambda: m.estimate_total_effect(Y, 0, n - 1)), ("p-values", lambda: m.get_error_independence_p_values(Y))]
        with exact_tests():
            for what, f in acts:
                rec.state(("larger", name, n, rep, what))
                rec.call(f)
                if not w.check(rec, after=what, estimator=name, representation=rep, variables=n):
                    break
        rec.trace()


def utilities(rec, lo, hi):
    import lingam
    from lingam import utils as U
    from lingam.bootstrap import BootstrapResult
    from sklearn.linear_model import LinearRegression
    X = linear(3, 0)
    for A in dags(3)[lo:hi]:
        for nan in (0, 1):
            B0 = weights(A, [0.8, -0.5, 0.3], 0)
            if nan:
                free = [(i, j) for i in range(3) for j in range(i) if B0[i, j] == 0 and B0[j, i] == 0]
                if not free:
                    continue
                i, j = free[0]
                B0[i, j] = B0[j, i] = np.nan
            for order in "CF":
                B = np.array(B0, order=order)
                labels, feats, coefs = ["a", "b", "c"], [0, 2], [0.4, -0.2]
                D = X.copy(order=order)
                DF = frames(X)
                idx, cont = [0, 1], [True, True, True]
                pk_args = dict(exogenous_variables=[0], sink_variables=[2], paths=[[0, 1]], no_paths=[[2, 1]])
                w = Watch()
                for nm, v in (("the adjacency matrix", B), ("labels", labels), ("feature indices", feats), ("coefficients", coefs),
                              ("the data", D), ("the data frame", DF), ("indices", idx), ("flags", cont), ("prior-knowledge arguments", pk_args)):
                    w.add(nm + " passed by the caller", v)
                reg = LinearRegression().fit(X[:, :2], X[:, 2])
                ms = np.stack([B, np.roll(B, 1)])
                te = np.stack([np.nan_to_num(B), np.nan_to_num(B)])
                w.add("replicates passed by the caller", (ms, te))
                R = BootstrapResult(ms, te)
                cdc = R.get_causal_direction_counts()
                dagc = R.get_directed_acyclic_graph_counts()
                w.add("count tables passed by the caller", (cdc, dagc))
                calls = [
                    ("find_all_paths", lambda: U.find_all_paths(B, 0, 2)),
                    ("calculate_total_effect", lambda: U.calculate_total_effect(B, 0, 2, cont)),
                    ("calculate_distance_from_root_nodes", lambda: U.calculate_distance_from_root_nodes(B)),
                    ("get_sink_variables", lambda: U.get_sink_variables(B)),
                    ("get_exo_variables", lambda: U.get_exo_variables(B)),
                    ("make_dot", lambda: U.make_dot(B, labels=labels, prediction_feature_indices=feats, prediction_coefs=coefs)),
                    ("make_dot importance", lambda: U.make_dot(B, labels=labels, prediction_feature_indices=feats, prediction_feature_importance=coefs, path=(0, 2), detect_cycle=True)),
                    ("make_dot_highlight", lambda: U.make_dot_highlight(B, 1, labels=labels, lower_limit=0.4, path=(0, 2), detect_cycle=True)),
                    ("evaluate_model_fit", lambda: U.evaluate_model_fit(B, D)),
                    ("evaluate_model_fit ordinal", lambda: U.evaluate_model_fit(B, DF, is_ordinal=[False, False, False])),
                    ("remove_effect", lambda: U.remove_effect(D, idx)),
                    ("remove_effect frame", lambda: U.remove_effect(DF, idx, return_coefs=True)),
                    ("predict_adaptive_lasso", lambda: U.predict_adaptive_lasso(D, idx, 2)),
                    ("make_prior_knowledge", lambda: U.make_prior_knowledge(3, **pk_args)),
                    ("print_causal_directions", lambda: U.print_causal_directions(cdc, 2, labels=labels)),
                    ("print_dagc", lambda: U.print_dagc(dagc, 2, labels=labels)),
                    ("counts", lambda: R.get_causal_direction_counts(min_causal_effect=0.4, split_by_causal_effect_sign=True)),
                    ("dag counts", lambda: R.get_directed_acyclic_graph_counts(min_causal_effect=0.4, split_by_causal_effect_sign=True)),
                    ("probabilities", lambda: R.get_probabilities(0.4)),
                    ("total effects", lambda: R.get_total_causal_effects(0.4)),
                    ("paths", lambda: R.get_paths(0, 2, 0.4)),
                    ("effects on prediction", lambda: lingam.CausalEffect(B).estimate_effects_on_prediction(D, 2, reg)),
                    ("optimal intervention", lambda: (np.random.seed(0), lingam.CausalEffect(B).estimate_optimal_intervention(D, 2, reg, 0, 1.0))),
                    ("hsic", lambda: lingam.hsic.hsic_test_gamma(D[:, [0]], D[:, [1]])),
                    ("f_correlation", lambda: U.f_correlation(D[:, 0], D[:, 1])),
                ]
                if np.isnan(B).any():
                    calls = [c for c in calls if "intervention" not in c[0] and "prediction" not in c[0] and "model_fit" not in c[0]]
                for what, f in calls:
                    rec.state((A.tobytes(), nan, order, what))
                    rec.call(f)
                    if not w.check(rec, after=what):
                        break
                rec.trace()
        # matrices with a diagonal and integer matrices (queries ignore the diagonal, they must not clear it)
        for M in (B0 + np.diag([0.7, -0.2, 1.0]), (np.nan_to_num(B0) != 0).astype(int) + np.eye(3, dtype=int)):
            w = Watch()
            w.add("the adjacency matrix passed by the caller", M)
            for what, f in (("get_sink_variables", U.get_sink_variables), ("get_exo_variables", U.get_exo_variables),
                            ("make_dot", U.make_dot), ("calculate_distance_from_root_nodes", U.calculate_distance_from_root_nodes)):
                rec.state((A.tobytes(), "diagonal", str(M.dtype), what))
                rec.call(f, M)
                if not w.check(rec, after=what + " (matrix with a diagonal)"):
                    break
            rec.trace()


def simulator(rec, lo, hi):
    import lingam
    from sklearn.linear_model import LinearRegression
    from lingam.tools import bootstrap_with_imputation
    names = ["v0", "v1", "v2"]
    for A in dags(3)[lo:hi]:
        B = weights(A, [0.8, -0.5, 0.3], 0)
        X = linear(3, 1)
        for frame in (False, True):
            for algo, nan in (("DirectLiNGAM", 0), ("BottomUpParceLiNGAM", 0), ("BottomUpParceLiNGAM", 1), ("VARLiNGAM", 0)):
                D = frames(X) if frame else X.copy()
                nm = (names if frame else ["0", "1", "2"])
                G = np.stack([B, np.diag([0.3, 0.2, 0.1])]) if algo == "VARLiNGAM" else B.copy()
                if algo == "VARLiNGAM":
                    nm = [x + "[t]" for x in nm]
                if nan:
                    free = [(i, j) for i in range(3) for j in range(i) if not A[i, j] and not A[j, i]]
                    if not free:
                        continue
                    G[free[0]] = G[free[0][::-1]] = np.nan
                endog = [nm[i] for i in range(3) if A[i].any()]
                models = {v: LinearRegression() for v in endog}
                n = len(X) - (1 if algo == "VARLiNGAM" else 0)
                exog = {nm[0]: np.arange(n) * 0.1, nm[2]: np.ones(n)}
                ch = {nm[1]: {"parent_names": [nm[0]], "coef": [0.5]}} if not A[0, 1] and not (A[0].any()) else {nm[1]: {"parent_names": []}}
                disc = [False, False, False]
                w = Watch()
                for t, v in (("data", D), ("causal graph", G), ("exogenous changes", exog), ("model changes", ch), ("flags", disc), ("models", models)):
                    w.add(f"the {t} passed by the caller", v)
                s = lingam.CausalBasedSimulator()
                for what, f in (("train", lambda: s.train(D, G, cd_algo_name=algo, models=models, is_discrete=disc)),
                                ("run", lambda: s.run()),
                                ("run exog", lambda: s.run(changing_exog=exog)),
                                ("run shuffle", lambda: s.run(changing_exog=exog, shuffle_residual=True, random_state=0)),
                                ("run models", lambda: s.run(changing_models=ch)),
                                ("run both", lambda: s.run(changing_exog=exog, changing_models=ch, shuffle_residual=True, random_state=1))):
                    rec.state((A.tobytes(), frame, algo, nan, what))
                    o = rec.call(f)
                    if what == "train" and not o.ok:
                        rec.note("train failed")
                        break
                    if what != "train" and o.ok:
                        w.add("an earlier simulation result", o.value)
                    if not w.check(rec, after=what, algo=algo, frame=frame):
                        break
                rec.trace()
    if lo == 0:
        for pat in range(1, 8):
            X = linear(3, 0)
            for c in range(3):
                if pat >> c & 1:
                    X[c::5, c] = np.nan
            for rep in ("C", "F", "frame"):
                D = REPS[rep](X)
                pk = np.array([[-1, 0, -1], [-1, -1, -1], [1, -1, -1]])
                w = Watch()
                w.add("the data passed by the caller", D)
                w.add("the prior knowledge passed by the caller", pk)
                rec.state(("imputation", pat, rep))
                rec.call(bootstrap_with_imputation, D, 2, n_repeats=2, prior_knowledge=pk, random_state=0)
                w.check(rec, after="bootstrap_with_imputation", missing=pat)
                rec.trace()


def experimental(rec):
    from lingam.experimental import CausalDataGenerator
    X = linear(3, 0)
    for adj in (["v2"], ["v2", "w"]):
        for cat in (False, True):
            D = frames(X)
            D["w"] = np.arange(len(X)) % 3
            if cat:
                D["w"] = D["w"].astype("category")
            adjs = list(adj)
            ie, ix = {"v0": np.arange(len(X)) * 0.1}, {"v1": np.ones(len(X))}
            w = Watch()
            for t, v in (("data", D), ("adjustments", adjs), ("endogenous interventions", ie), ("exogenous interventions", ix)):
                w.add(f"the {t} passed by the caller", v)
            g = CausalDataGenerator(random_state=0)
            for what, f in (("fit", lambda: g.fit(D, "v0", "v1", adjs)), ("generate", lambda: g.generate()),
                            ("generate endog", lambda: g.generate(interv_endog=ie)), ("generate exog", lambda: g.generate(interv_exog=ix)),
                            ("generate model", lambda: g.generate(interv_exog=ix, effect_model=lambda a, e, k: e * 2 + a.iloc[:, 0])),
                            ("generate again", lambda: g.generate())):
                rec.state((tuple(adj), cat, what))
                o = rec.call(f)
                if o.ok and what != "fit":
                    w.add("an earlier generated data set", o.value)
                if not w.check(rec, after=what, adjustments=adj):
                    break
            rec.trace()


def tasks(tier):
    th = tier != "quick"
    T = [("settings", {}), ("experimental", {})]
    for lo in range(0, 25, 5):
        T.append(("utilities", dict(lo=lo, hi=lo + 5)))
        T.append(("simulator", dict(lo=lo, hi=lo + 5)))
    T += [("larger", dict(n=n, rep=r)) for n in (4, 6) for r in ("C", "F", "frame", "view")]
    for name, e in catalog().items():
        reps = list(REPS)
        if e.kind == "mixed":
            reps = ["C", "F"]
        if e.cost >= 50:
            reps, d = (["C", "F", "frame"] if th else ["C"]), 1
        else:
            d = 3 if (th and e.cost < 2) else 2
        for r in reps:
            T.append(("estimators", dict(name=name, rep=r, depth=d)))
    return T
