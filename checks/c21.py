"""C21  Experimental data generation and out-of-sample tuning.

Generator: every combination of kinds (numeric, categorical) of cause, effect and up to two adjustments, default and
user-given models x every assignment of {nothing, new values, new errors} to the variables x user-given mechanisms, all
requests made on one instance (so that every request has a history), against a reference interpreter. Tuner: all graphs on
3 variables (strided on 4) as answers of the discovery plug-in, different ones per fold, with the forest replaced by least
squares, against a reference evaluation; the permutation test is driven by controlled permutations."""
import itertools

import numpy as np

from mc.env import replaced
from mc.gen import dags, rng, same, weights

PROPERTY = "C21"
BOUNDS = "generator: 5 adjustment lists x kinds of cause and effect x {default, user} models x all 3^(2+k) interventions x user mechanisms; tuner: all DAGs n=2,3 (n=4 strided) per fold, 2-3 configurations, 3 fold schemes, 4 controlled permutations; also 4 adjustments, 1100 rows; tuner 5-7 variables, 600 rows, 5-10 folds, 6 configurations"
ASSUMPTIONS = ["the random forest is replaced by least squares in the tuner's reference comparison"]


# ------------------------------------------------------------------ generator
def make_regressor():
    from sklearn.base import BaseEstimator, RegressorMixin

    class Quadratic(RegressorMixin, BaseEstimator):
        """Least squares on values and squares (codes for categories)."""

        def design(self, X):
            V = codes(X)
            return np.column_stack([np.ones(len(V)), V, V ** 2])

        def fit(self, X, y):
            self.w_ = np.linalg.lstsq(self.design(X), np.asarray(y, float), rcond=None)[0]
            return self

        def predict(self, X):
            return self.design(X) @ self.w_
    return Quadratic()


def make_classifier(sharp):
    from sklearn.base import BaseEstimator, ClassifierMixin

    class Threshold(ClassifierMixin, BaseEstimator):
        """Puts all mass on one or two classes, chosen by the sum of the codes."""

        def fit(self, X, y):
            self.classes_ = np.unique(np.asarray(y))
            self.sharp_ = sharp
            return self

        def predict_proba(self, X):
            s = codes(X).sum(axis=1)
            k = len(self.classes_)
            P = np.zeros((len(s), k))
            for r, v in enumerate(s):
                c = int(np.floor(3 * v)) % k
                P[r, c] = 1.0
                if not self.sharp_:
                    P[r, c], P[r, (c + 1) % k] = 0.5, 0.5
            return P

        def predict(self, X):
            return self.classes_[self.predict_proba(X).argmax(axis=1)]
    return Threshold()


def codes(X):
    import pandas as pd
    out = []
    for c in X.columns:
        v = X[c].to_numpy()
        if v.dtype.kind in "fi":
            out.append(v.astype(float))
        else:
            try:
                out.append(pd.Series(v).astype(str).map(lambda t: 0.37 * (sum(map(ord, t)) % 5)).to_numpy(float))
            except Exception:
                out.append(np.zeros(len(v)))
    return np.array(out).T.reshape(len(X), -1)


def frame(kinds, layout, m=18):
    """A frame with columns for cause 'c', effect 'e', adjustments 'a0', 'a1', in various layouts."""
    import pandas as pd
    r = rng("c21", kinds, m)
    cause, effect, adj = kinds
    D = {}
    tot = np.zeros(m)
    for k, kind in enumerate(adj):
        v = r.uniform(-1, 1, m)
        tot = tot + v
        D["a%d" % k] = v if kind == "n" else pd.Categorical(np.where(v > 0.3, "p", np.where(v > -0.4, "q", "r")))
    c = tot + r.exponential(1, m)
    D["c"] = c if cause == "n" else pd.Categorical(np.where(c > np.median(c), 2, 10)) if not adj or adj[0] == "n" else pd.Categorical(np.where(c > np.median(c), "y", "n"))
    e = tot - c + r.laplace(size=m)
    D["e"] = e if effect == "n" else pd.Categorical(np.where(e > np.quantile(e, 0.6), "hi" if layout % 2 else 10, np.where(e > np.quantile(e, 0.3), "mid" if layout % 2 else 9, "lo" if layout % 2 else 2)))
    X = pd.DataFrame(D)
    cols = list(X.columns)
    if layout % 3 == 1:
        cols = cols[::-1]
    elif layout % 3 == 2:
        X["extra"] = np.arange(m) * 1.5
        cols = ["extra"] + cols[1:] + cols[:1]
    X = X[cols]
    if layout % 4 == 1:
        X.index = ["r%d" % ((7 * k) % m) for k in range(m)]
    elif layout % 4 == 2:
        X.index = [k // 2 for k in range(m)]
    elif layout % 4 == 3:
        X.index = np.arange(m)[::-1] + 5
    return X


def new_values(X, name, kind, tag):
    r = rng("c21v", name, tag, len(X))
    if kind == "n":
        return r.uniform(-2, 2, len(X))
    lv = np.array(sorted(set(X[name].tolist())))
    return lv[r.randint(0, len(lv), len(X))]


class Ref:
    """Reference mechanisms."""

    def __init__(self, X, names, target, kind, user):
        self.names, self.kind, self.user, self.levels = names, kind, user, {}
        for n in names:
            if str(X[n].dtype) == "category":
                self.levels[n] = sorted(set(X[n].tolist()), key=str)
        if kind == "n" and user is None:
            self.w = np.linalg.lstsq(self.design(X), X[target].to_numpy(float), rcond=None)[0]
        elif user is not None:
            user.fit(X[names], X[target])
        else:
            from sklearn.linear_model import LogisticRegression
            self.lr = LogisticRegression().fit(self.design(X)[:, 1:], X[target].to_numpy())

    def design(self, X):
        cols = [np.ones(len(X))]
        for n in self.names:
            if n in self.levels:
                v = X[n].tolist()
                cols += [np.array([float(t == l) for t in v]) for l in self.levels[n]]
            else:
                cols.append(X[n].to_numpy(float))
        return np.array(cols).T

    def predict(self, X):
        return self.user.predict(X[self.names]) if self.user is not None else self.design(X) @ self.w

    def implausible(self, X, drawn):
        """Draws of the default classifier whose class frequencies, overall or where a class is likely, are six sigma off its probabilities."""
        P = self.lr.predict_proba(self.design(X)[:, 1:])
        for c, p in zip(self.lr.classes_, P.T):
            hit = np.array([d == c for d in drawn], float) - p
            for w in (np.ones(len(p)), p):
                if abs(hit @ w) > 6 * np.sqrt((w * w) @ (p * (1 - p))) + 1:
                    return True
        return False

    def support(self, X):
        P = self.user.predict_proba(X[self.names])
        return [set(self.user.classes_[p > 0].tolist()) for p in P]


def equal_col(got, want):
    if hasattr(want, "dtype") and want.dtype.kind == "f":
        try:
            return same(np.asarray(got, float), want, 1e-7)
        except Exception:
            return False
    return list(got) == list(want)


def generator(rec, cause, effect, adj, user, layout, rows=18):
    import pandas as pd
    from lingam.experimental import CausalDataGenerator
    kinds = (cause, effect, adj)
    X = frame(kinds, layout, rows)
    A = ["a%d" % k for k in range(len(adj))]
    V = A + ["c", "e"]
    kind = dict(zip(V, list(adj) + [cause, effect]))

    def models():
        if not user:
            return None, None
        return [make_regressor() if kind[v] == "n" else make_classifier(user == 1) for v in ("c", "e")]

    def fitted():
        g = CausalDataGenerator(random_state=3)
        mc, me = models()
        return rec.call(g.fit, X, "c", "e", A if A else None, model_cause=mc, model_effect=me), g
    out, g = fitted()
    info = dict(cause=cause, effect=effect, adjustments=adj, user_models=user, layout=layout)
    if not out.ok:
        rec.fail("fitting the generator failed", got=repr(out), **info)
        return
    uc, ue = models()
    R = {"c": Ref(X, A, "c", cause, uc) if A else None, "e": Ref(X, ["c"] + A, "e", effect, ue)}
    err = {v: None if kind[v] == "c" else X[v].to_numpy(float) - (R[v].predict(X) if R[v] else 0.0) for v in ("c", "e")}
    for v, attr in (("c", "error_cause_"), ("e", "error_effect_")):
        if err[v] is not None and not equal_col(np.asarray(getattr(g, attr)), err[v]):
            rec.fail("the recorded error is not what the model leaves unexplained", variable=v, **info)

    def request(what, mech):
        endog = {v: new_values(X, v, kind[v], "endog") for v, w in zip(V, what) if w in (1, 3)}
        exog = {v: new_values(X, v, kind[v], "exog") for v, w in zip(V, what) if w in (2, 3)}
        seen = {}

        def user_mech(v):
            def f(D, e, args):
                seen[v] = (list(D.columns), args, {c: list(D[c]) for c in D.columns}, list(e))
                base = codes(D).sum(axis=1) if D.shape[1] else np.zeros(len(e))
                if kind[v] == "n":
                    return 0.5 * base ** 2 - 1 + np.asarray(e, float)
                lv = sorted(set(X[v].tolist()))
                return [lv[int(np.floor(3 * b)) % len(lv)] for b in base]
            return f
        kw = {}
        if endog or sum(what) % 2:
            kw["interv_endog"] = endog
        if exog:
            kw["interv_exog"] = {k: list(v) if layout % 2 else v for k, v in exog.items()}
        for v, k in (("c", "cause"), ("e", "effect")):
            if v in mech:
                kw[k + "_model"], kw[k + "_model_args"] = user_mech(v), "args of " + v
        return endog, exog, seen, user_mech, kw

    def judge(D, endog, exog, seen, user_mech, mech, q):
        if list(D.index) != list(X.index) or list(D.columns) != list(X.columns):
            rec.fail("rows or columns of the data are not kept", got=[list(D.index), list(D.columns)], **q)
            return
        for v in X.columns:
            got = D[v].tolist()
            src = endog if v in endog else exog if v in exog and v in A else None
            if v not in ("c", "e"):
                if not equal_col(got, src[v] if src is not None else np.array(X[v].tolist())):
                    rec.fail("a variable that is not generated has other values than given", variable=v, **q)
                continue
            if v in endog:
                if not equal_col(got, endog[v]):
                    rec.fail("a replaced variable does not have the given values", variable=v, **q)
                continue
            e = np.asarray(exog[v]) if v in exog else err[v] if err[v] is not None else None
            par = A if v == "c" else ["c"] + A
            if v in mech:
                if v not in seen:
                    rec.fail("the given mechanism was not used", variable=v, **q)
                    continue
                cols, args, vals, es = seen[v]
                if cols != par or args != "args of " + v or any(not equal_col(vals[c], np.array(D[c].tolist())) for c in par):
                    rec.fail("the given mechanism did not get the generated inputs", variable=v, got=[cols, args], **q)
                    continue
                if e is not None and not (kind[v] == "n" or v in exog):
                    e = None
                if e is not None and not equal_col(es, e):
                    rec.fail("the given mechanism did not get the error series", variable=v, **q)
                want = user_mech(v)(D[par], e if e is not None else np.zeros(len(X)), None)
                if not equal_col(got, np.asarray(want)):
                    rec.fail("the variable is not what the given mechanism returned", variable=v, **q)
            elif R[v] is None:
                want = exog[v] if v in exog else np.array(X[v].tolist())
                if not equal_col(got, np.asarray(want)):
                    rec.fail("a cause without adjustments is not its error", variable=v, **q)
            elif kind[v] == "n":
                if not equal_col(got, R[v].predict(D) + e):
                    rec.fail("the variable is not its mechanism applied to the generated inputs plus its error", variable=v, **q)
            else:
                ok = set(X[v].tolist())
                sup = R[v].support(D) if R[v].user is not None else [ok] * len(X)
                if any(a not in s for a, s in zip(got, sup)):
                    rec.fail("a category of probability zero was drawn", variable=v, **q)
                if R[v].user is None and len(X) >= 300 and R[v].implausible(D, got):
                    rec.fail("categories are not drawn with the probabilities of the fitted mechanism", variable=v, **q)
                if str(D[v].dtype) != "category":
                    rec.fail("a generated categorical variable is no longer categorical", variable=v, **q)

    def run(g, what, mech):
        endog, exog, seen, um, kw = request(what, mech)
        q = dict(replaced=dict(zip(V, what)), mechanisms=mech, **info)
        rec.state((kinds, user, layout, what, mech))
        o = rec.call(g.generate, **kw)
        if not o.ok:
            rec.fail("generation failed", got=repr(o), **q)
            return None
        judge(o.value, endog, exog, seen, um, mech, q)
        return o.value
    first = run(g, (0,) * len(V), "")
    mechs = ["", "c", "e", "ce"]
    for n, what in enumerate(itertools.product((0, 1, 2), repeat=len(V))):
        if (len(V) > 4 or rows > 18) and n % 7:
            continue
        for k, mech in enumerate(mechs if len(V) < 4 else [mechs[0], mechs[1 + n % 3]]):
            run(g, what, mech)
    for what in ((3,) * len(V), (0,) * (len(V) - 2) + (3, 0)):
        run(g, what, "")
    last = run(g, (0,) * len(V), "")
    if first is not None and last is not None and (cause, effect) == ("n", "n") and not all(equal_col(last[v].tolist(), np.array(first[v].tolist())) for v in X.columns):
        rec.fail("earlier requests influence later ones", **info)
    # the generator keeps its own copy of what it was fitted to
    if kind["c"] == kind["e"] == "n":
        Y = X.copy()
        g0 = CausalDataGenerator(random_state=3)
        mc, me = models()
        if rec.call(g0.fit, Y, "c", "e", A if A else None, model_cause=mc, model_effect=me).ok:
            for v in V:
                Y[v] = Y[v].to_numpy()[::-1]
            run(g0, (0,) * len(V), "")
    # seeded: an equal history gives equal values
    (_, g1), (_, g2) = fitted(), fitted()
    np.random.seed(1)
    a = run(g1, (0,) * len(V), "")
    np.random.seed(2)
    b = run(g2, (0,) * len(V), "")
    if a is not None and b is not None and not all(equal_col(a[v].tolist(), np.array(b[v].tolist())) for v in X.columns):
        rec.fail("generation does not depend on the seed only", **info)
    # invalid requests
    for kw, what in (({"interv_endog": {"nope": np.zeros(len(X))}}, "unknown name"), ({"interv_exog": {"nope": np.zeros(len(X))}}, "unknown name"),
                     *(({w: {"c": np.zeros(n)}}, "wrong length") for w in ("interv_endog", "interv_exog") for n in (1, len(X) - 1, len(X) + 1)), ({"interv_exog": {"c": pd.Series(np.zeros(len(X) + 2))}}, "wrong length"), ({"interv_endog": [1]}, "no dictionary"), ({"cause_model": 3}, "no function"), ({"effect_model": 3}, "no function")):
        o = rec.call(g.generate, **kw)
        if not o.raised(ValueError, TypeError):
            rec.fail("an invalid request was accepted: " + what, request=list(kw), got=repr(o)[:80], **info)
    for a in (("x", "e", A), ("c", "x", A)):
        if not rec.call(CausalDataGenerator().fit, X, *a).raised(ValueError):
            rec.fail("an unknown variable name was accepted", **info)
    if not rec.call(CausalDataGenerator().fit, X.to_numpy(), "c", "e").raised(TypeError):
        rec.fail("data without names were accepted", **info)
    if A:
        wrong = make_classifier(True) if cause == "n" else make_regressor()
        if not rec.call(CausalDataGenerator().fit, X, "c", "e", A, model_cause=wrong).raised(TypeError):
            rec.fail("a model of the wrong kind was accepted", **info)
    rec.trace()


# ------------------------------------------------------------------ tuner
class Lsq:
    """Stand-in for the forest."""

    def __init__(self, *a, **k):
        pass

    def fit(self, X, y):
        D = np.column_stack([np.ones(len(X)), X, X ** 2])
        self.w = np.linalg.lstsq(D, y, rcond=None)[0]
        return self

    def predict(self, X):
        return np.column_stack([np.ones(len(X)), X, X ** 2]) @ self.w


def blanket(B, i):
    n = len(B)
    E = np.abs(B) > 1e-6
    out = set()
    for j in range(n):
        if j == i:
            continue
        if E[i, j] or E[j, i] or any(E[c, i] and E[c, j] for c in range(n)):
            out.add(j)
    return sorted(out)


def mi(x, y):
    x, y = x - x.mean(), y - y.mean()
    r2 = (x @ y) ** 2 / ((x @ x) * (y @ y))
    return -0.5 * np.log(1 - r2)


class Fixed(np.random.RandomState):
    """A generator whose permutations are one fixed arrangement."""

    def arrange(self, x):
        x = np.asarray(x)
        k = len(x)
        return [x[::-1], np.roll(x, 1), np.roll(x, 5), x[np.argsort((7 * np.arange(k)) % 11, kind="stable")]][self.how].copy()

    def permutation(self, x):
        return self.arrange(np.arange(x) if np.isscalar(x) else x)

    def shuffle(self, x):
        x[:] = self.arrange(x)


def fixed(how):
    r = Fixed(0)
    r.how = how
    return r


class Discovery:
    """Answers with the graph its table has for the training set."""

    def __init__(self, table, note):
        self.table, self.note = table, note

    def fit(self, X, **kw):
        self.note.append(kw)
        self.adjacency_matrix_ = self.table[np.ascontiguousarray(X).tobytes()]
        return self


def evaluate(data, folds, answers):
    """Reference score of a configuration: answers[k] is the graph of fold k (None: all others)."""
    n = data.shape[1]
    pred, sizes = {v: [] for v in range(n)}, []
    for (tr, te), B in zip(folds, answers):
        for v in range(n):
            ex = blanket(B, v) if B is not None else [j for j in range(n) if j != v]
            sizes.append(len(ex))
            p = Lsq().fit(data[tr][:, ex], data[tr, v]).predict(data[te][:, ex]) if ex else np.full(len(te), data[tr, v].mean())
            pred[v].append(p)
    pred = {v: np.concatenate(p) for v, p in pred.items()}
    te = np.concatenate([t for _, t in folds])
    return np.mean([mi(data[te, v], pred[v]) for v in range(n)]), np.mean(sizes), pred, te


def schemes(m):
    from sklearn.model_selection import KFold
    X = np.zeros((m, 1))
    if m > 26:
        kb = KFold(10, shuffle=True, random_state=2)
        cut = [(np.arange(m // 2), np.arange(m // 2, m)), (np.arange(m // 3, m), np.arange(m // 3)[::-1])]
        return [(5, list(KFold(5).split(X))), (kb, list(kb.split(X))), (cut, cut)]
    ks = KFold(3, shuffle=True, random_state=5)
    odd = [(np.arange(0, 14), np.arange(14, m)), (np.arange(8, m), np.arange(0, 8)[::-1])]
    return [(3, list(KFold(3).split(X))), (ks, list(ks.split(X))), (odd, odd)]


def many(n):
    """Twelve acyclic graphs on n variables."""
    out = []
    for k in range(12):
        r = rng("c21many", n, k)
        q = r.permutation(n)
        out.append(np.tril(r.uniform(size=(n, n)) < (0.25, 0.5)[k % 2], -1).astype(int)[np.ix_(q, q)])
    return out


def tuner(rec, n, lo, hi, step, how=None, m=26):
    from lingam.experimental import OutOfSampleCausalTuning
    from sklearn.ensemble import RandomForestRegressor
    G = dags(n) if n < 5 else many(n)
    with replaced((RandomForestRegressor, Lsq)):
        for k in range(lo, min(hi, len(G)), step):
            r = rng("c21t", n, k)
            B0 = weights(G[k], (1.3, -0.9, 0.7), k)
            data = r.laplace(size=(m, n)) @ np.linalg.inv(np.eye(n) - B0).T
            for s, (cv, folds) in enumerate(schemes(m)):
                if how is not None and s != k % 3:
                    continue
                others = [G[(k * 7 + 3 * f + 1) % len(G)] for f in range(len(folds))]
                configs_ref = [[B0] * len(folds), [weights(g, (0.4, -0.02, 5.0), f) for f, g in enumerate(others)], None]
                if (k + s) % 2:
                    configs_ref = configs_ref[1:] + configs_ref[:1]
                if n > 4 and how is None:
                    configs_ref = configs_ref + [[weights(G[(k + q) % len(G)], (0.9, -1.1), q)] * len(folds) for q in (1, 2, 3)]
                if how is not None and (k + how) % 4 == 3:  # two configurations of the same size
                    configs_ref = [[B0] * len(folds), [B0[::-1, ::-1]] * len(folds)][:: 1 if k % 3 else -1]
                elif how is not None:
                    configs_ref = [configs_ref[0], configs_ref[1]] if k % 2 else configs_ref
                note, configs = [], []
                for c, ans in enumerate(configs_ref):
                    if ans is None:
                        configs.append({"all_others": True})
                    else:
                        table = {np.ascontiguousarray(data[tr]).tobytes(): B for (tr, _), B in zip(folds, ans)}
                        configs.append({"model": Discovery, "init_kwargs": {"table": table, "note": note}, "fit_kwargs": {"tag": c}})
                ref = [evaluate(data, folds, ans if ans is not None else [None] * len(folds)) for ans in configs_ref]
                rec.state((n, k, s, how))
                info = dict(graph=B0, folds=s, arrangement=how)
                T = OutOfSampleCausalTuning(cv=cv, sparsity_penalty=how is not None, random_state=fixed(how) if how is not None else 0)
                o = rec.call(T.fit, data, configs)
                if not o.ok:
                    rec.fail("tuning failed", got=repr(o), **info)
                    continue
                perf, size = T.scores_["performance"], T.scores_["mb_size"]
                if not same(perf, [q[0] for q in ref], 1e-7):
                    rec.fail("scores are not those of predictions from the Markov blankets", got=perf, want=[q[0] for q in ref], **info)
                    continue
                if not same(size, [q[1] for q in ref], 1e-9):
                    rec.fail("blanket sizes differ", got=size, want=[q[1] for q in ref], **info)
                if sorted(str(x) for x in note) != sorted(str({"tag": c}) for c, a in enumerate(configs_ref) if a is not None for _ in folds):
                    rec.fail("the discovery plug-in was not called once per fold with its arguments", got=note, **info)
                perf = [q[0] for q in ref]
                srt = sorted(perf)
                if len(srt) > 1 and srt[-1] - srt[-2] < 1e-6:
                    continue
                best = int(np.argmax(perf))
                if how is None:
                    if T.best_config_index_ != best:
                        rec.fail("the best score is not selected", got=T.best_config_index_, want=best, **info)
                    continue
                P, sure = {}, True
                arr = fixed(how)
                for c in range(len(ref)):
                    if c == best:
                        continue
                    t = [np.mean([mi(data[ref[c][3], v], arr.permutation(ref[b][2][v])) for v in range(n)]) for b in (best, c)]
                    gap = (t[0] - t[1]) - (perf[best] - perf[c])
                    sure = sure and abs(gap) > 1e-7
                    P[c] = 1.0 if gap > 0 else 0.0
                if not sure:
                    continue
                if {int(a): float(b) for a, b in T.scores_["sp_score"].items()} != P:
                    rec.fail("the permutation test does not count the exceedances", got=T.scores_["sp_score"], want=P, **info)
                cand = [best] + [c for c in P if P[c] > 0.05]
                least = min(ref[c][1] for c in cand)
                if T.best_config_index_ not in [c for c in cand if abs(ref[c][1] - least) < 1e-12]:
                    rec.fail("the sparsest of the equally good configurations is not selected", got=T.best_config_index_, candidates=cand, **info)
                if abs(ref[best][1] - least) < 1e-12 and T.best_config_index_ != best:
                    rec.fail("a worse configuration is selected although it is not sparser", got=T.best_config_index_, best=best, **info)
    rec.trace()


def seeded(rec, seed):
    """The genuine forest: equal seeds, equal answers; selection follows the reported p-values."""
    import lingam
    from lingam.experimental import OutOfSampleCausalTuning
    r = rng("c21s", seed)
    x = r.uniform(-1, 1, 24)
    data = np.column_stack([x, x + 0.3 * r.uniform(-1, 1, 24)])
    configs = [{"model": lingam.DirectLiNGAM}, {"all_others": True}, {"model": lingam.ICALiNGAM, "init_kwargs": {"random_state": 0}}]
    out = []
    for k, thr in enumerate((0.05, 0.05, 0.4, 0.8)):
        np.random.seed(k)
        T = OutOfSampleCausalTuning(cv=2, random_state=seed, thr=thr)
        rec.state((seed, k, thr))
        o = rec.call(T.fit, data, configs)
        if not o.ok:
            rec.fail("tuning failed", got=repr(o), seed=seed)
            return
        S = T.scores_
        out.append((T.best_config_index_ if k < 2 else None, list(S["performance"]), sorted(S["sp_score"].items())))
        best = int(np.argmax(S["performance"]))
        cand = [best] + [c for c, p in S["sp_score"].items() if p > thr]
        least = min(S["mb_size"][c] for c in cand)
        if S["mb_size"][best] == least and T.best_config_index_ != best:
            rec.fail("a worse configuration is selected although it is not sparser", got=S, seed=seed)
        if S["mb_size"][T.best_config_index_] != least or T.best_config_index_ not in cand or not all(0 <= p <= 1 for p in S["sp_score"].values()):
            rec.fail("selection does not follow the reported scores", got=S, seed=seed)
    # one tuner, used again: seeded by its setting, not by what it did before
    T = OutOfSampleCausalTuning(cv=2, random_state=seed)
    for D in (data[:, ::-1], data, data):
        o = rec.call(T.fit, D, configs)
    if not o.ok or (T.best_config_index_, list(T.scores_["performance"]), sorted(T.scores_["sp_score"].items())) != out[0]:
        rec.fail("a tuner used before gives another result than a fresh one", seed=seed, got=repr(o))
    if out[0] != out[1] or any(o[1:] != out[0][1:] for o in out):
        rec.fail("equal seeds give different tuning results", got=out, seed=seed)
    for bad in ([], "x", [3], [{}], [{"model": 3}], [{"model": Discovery, "init_kwargs": 3}], [{"model": Discovery, "fit_kwargs": 3}], [{"what": 1}], [{"all_others": 1}]):
        if not rec.call(OutOfSampleCausalTuning(cv=2).fit, data, bad).raised(ValueError, TypeError):
            rec.fail("an invalid configuration list was accepted", configs=repr(bad))
    if not rec.call(OutOfSampleCausalTuning(cv=2).fit, data, [{}]).raised(ValueError):
        rec.fail("a configuration without model was not rejected as such")
    for thr in (0.0, 1.0, -1.0, 2.0):
        if not rec.call(OutOfSampleCausalTuning(cv=2, thr=thr).fit, data, [{"all_others": True}]).raised(ValueError):
            rec.fail("an invalid significance threshold was accepted", thr=thr)
    rec.trace()


def tasks(tier):
    th = tier == "thorough"
    t = []
    k = 0
    for adj in ("", "n", "c", "nn", "nc") + (("cn", "cc") if th else ()):
        for cause, effect in itertools.product("nc", "nc"):
            for user in (0, 1, 2):
                if user == 2 and cause == effect == "n":
                    continue
                for layout in range(12 if th else 1):
                    t.append(("generator", dict(cause=cause, effect=effect, adj=adj, user=user, layout=layout if th else k % 12)))
                k += 5
    t.append(("tuner", dict(n=2, lo=0, hi=3, step=1)))
    for lo in range(0, 25, 5):
        t.append(("tuner", dict(n=3, lo=lo, hi=lo + 5, step=1)))
    for lo in range(0, 543, 60):
        t.append(("tuner", dict(n=4, lo=lo, hi=lo + 60, step=1 if th else 6)))
    for how in range(4):
        t.append(("tuner", dict(n=2, lo=0, hi=3, step=1, how=how)))
        for lo in range(0, 25, 3):
            t.append(("tuner", dict(n=3, lo=lo + (0 if th else how % 3), hi=lo + 3, step=1 if th else 3, how=how)))
    for n, m, how in ((5, 40, None), (7, 60, None), (3, 150, None), (6, 40, 1), (4, 150, 2), (3, 600, 3)):
        t.append(("tuner", dict(n=n, lo=0, hi=12 if th else 6, step=1, how=how, m=m)))
    for cause, effect, adj, user, rows in (("n", "n", "nc", 0, 300), ("c", "n", "nn", 1, 300), ("n", "c", "cn", 1, 130), ("n", "n", "nncn", 0, 40), ("c", "c", "nnn", 1, 60), ("n", "n", "c", 0, 1100), ("n", "c", "nc", 0, 600), ("c", "n", "n", 0, 600), ("c", "c", "cn", 0, 400)):
        t.append(("generator", dict(cause=cause, effect=effect, adj=adj, user=user, layout=k % 12, rows=rows)))
        k += 5
    for s in range(4 if th else 1):
        t.append(("seeded", dict(seed=s)))
    return t
