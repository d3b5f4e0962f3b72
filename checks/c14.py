"""C14  Intervention effects follow the do-semantics of the model.

Every labelled DAG on 2..4 variables x coefficient assignment (cancelling parents included) x intervened variable x target
x prediction model is compared with the closed form of the mutilated model: incoming edges of the intervened variable
removed, every other mechanism and mean error unchanged."""
import itertools

import numpy as np

from checks.c15 import large_dag
from mc.gen import chunks, dags, lingam_data, rng, same, weights

PROPERTY = "C14"
BOUNDS = "6-12 variables; all labelled DAGs n=2,3,4 x 4 weight alphabets (with cancelling sums) x all interventions x targets x linear/nonlinear/classifying predictors x desired outputs; nonlinear effect plots for all DAGs n=3 x cause/effect x row labels x replicates"
ASSUMPTIONS = ["prediction models are explicit functions"]
ALPH = {"cancel": [1.0, -1.0], "mixed": [0.8, -1.3, 0.6], "pos": [0.5, 2.0], "tiny": [1e-3, -2e-3, 1.5], "minute": [3e-7, 40.0, -2e-6]}


class Lin:
    def __init__(self, coef, b):
        self.coef_, self.intercept_ = np.asarray(coef, float), float(b)

    def predict(self, X):
        return np.asarray(X) @ self.coef_ + self.intercept_


class Quad:
    """Not monotone, not symmetric: direction and size of every argument matter."""

    def __init__(self, c):
        self.c = np.asarray(c, float)

    def predict(self, X):
        X = np.asarray(X)
        return X @ self.c + 0.3 * (X ** 2) @ (self.c[::-1] + 0.1)


class Prob(Quad):
    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-super().predict(X) / 5))
        return np.c_[1 - p, p]


def do(B, Ex, i, v):
    """Means of the mutilated model with mean errors unchanged."""
    n = len(B)
    e = Ex - B @ Ex
    M = B.copy()
    M[i] = 0
    e[i] = v
    return np.linalg.solve(np.eye(n) - M, e)


def run(rec, ce, B, X, info, targets=None):
    n = len(B)
    Ex, sd = X.mean(0), X.std(0)
    for target in range(n) if targets is None else targets:
        rest = [k for k in range(n) if k != target]
        c = np.array([1.3, -0.7, 0.4, 2.0, -1.1, 0.6, 0.9, -0.5, 1.7, 0.3, -0.8])[: n - 1]
        lin = Lin(c, 0.7)
        for pname, pm in (("linear", lin), ("quadratic", Quad(c)), ("classifier", Prob(c))):
            if pname == "classifier":
                f = lambda m: (lambda pr: pr[0] - pr[1])(pm.predict_proba(m[rest].reshape(1, -1))[0])
            else:
                f = lambda m: pm.predict(m[rest].reshape(1, -1))[0]
            want = np.array([[abs(f(do(B, Ex, i, Ex[i])) - f(do(B, Ex, i, Ex[i] + s * sd[i]))) for s in (1, -1)] for i in range(n)])
            out = rec.call(ce.estimate_effects_on_prediction, X, target, pm)
            if not out.ok or not same(np.asarray(out.value), want, 1e-7):
                rec.fail("intervention effects on the prediction are not those of the mutilated model", target=target, predictor=pname,
                         got=repr(out), want=want, **info)
        for i, y in itertools.product(range(n), (0.0, -3.5, 10.0)):
            if i == target:
                continue  # intervening on the predicted variable itself is not a feature intervention
            base, unit = do(B, Ex, i, 0.0), do(B, Ex, i, 1.0)
            if abs(c @ (unit - base)[rest]) < 1e-6:
                continue
            out = rec.call(ce.estimate_optimal_intervention, X, target, lin, i, y)
            if not out.ok or not np.isscalar(out.value) and np.size(out.value) != 1:
                rec.fail("optimal intervention failed", target=target, intervention=i, desired=y, got=repr(out), **info)
                continue
            v = float(np.ravel(out.value)[0])
            attained = lin.predict(do(B, Ex, i, v)[rest].reshape(1, -1))[0]
            if not same(attained, y, 1e-6 * max(1.0, abs(v))):
                rec.fail("intervening with the returned value does not attain the desired prediction", target=target, intervention=i,
                         desired=y, value=v, attained=attained, **info)
    rec.trace()


def matrices(rec, n, lo, hi, alph, step=1):
    from lingam import CausalEffect
    for k in range(lo, hi, step):
        B = weights(dags(n)[k] if n < 6 else large_dag(n, k), ALPH[alph], k)
        r = rng("c14", n, k, alph)
        X = r.uniform(-1, 1, (15 if n > 4 or k % 4 else (2, 130, 1200)[k // 4 % 3], n)) @ np.linalg.inv(np.eye(n) - B).T + r.uniform(-2, 2, n)
        for form in ("array", "list") if n < 4 else ("array",):
            rec.state((n, k, alph, form))
            ce = CausalEffect(B.copy() if form == "array" else B.tolist())
            run(rec, ce, B, X, dict(B=B, form=form), None if n < 4 else [k % 4, (k + 1) % 4])


def models(rec, n, lo, hi, L):
    """Fitted estimators as causal model."""
    import lingam
    for k in range(lo, hi):
        X = lingam_data(weights(dags(n)[k], ALPH["mixed"], k), L)
        for name, mk in (("direct", lingam.DirectLiNGAM), ("ica", lambda: lingam.ICALiNGAM(random_state=0))):
            m = mk()
            if not rec.call(m.fit, X).ok:
                continue
            rec.state((n, k, name))
            run(rec, lingam.CausalEffect(m), np.asarray(m.adjacency_matrix_), X[::7], dict(model=name, B=m.adjacency_matrix_))


def rejected(rec):
    from lingam import CausalEffect
    X = rng("c14r").uniform(-1, 1, (12, 3))
    good = np.array([[0, 0, 0], [1.0, 0, 0], [0, -1.0, 0]])
    lin = Lin([1.0, 2.0], 0)

    class NoPredict:
        pass

    cyc = [A for A in _cyclic3()]
    bad = [("cyclic", A) for A in cyc] + [("not square", np.zeros((3, 2))), ("not a matrix", np.zeros(3)), ("other", "model"), ("none", None)]
    for name, B in bad:
        rec.state((name, repr(B)))
        out = rec.call(lambda: CausalEffect(B).estimate_effects_on_prediction(X, 0, lin))
        if not out.raised(ValueError):
            rec.fail("an unusable causal model is not rejected", case=name, model=B, got=repr(out))
        out = rec.call(lambda: CausalEffect(B).estimate_optimal_intervention(X, 0, lin, 1, 0.0))
        if not out.raised(ValueError):
            rec.fail("an unusable causal model is not rejected", case=name, model=B, got=repr(out))
    out = rec.call(lambda: CausalEffect(good).estimate_effects_on_prediction(X, 0, NoPredict()))
    if not out.raised(ValueError):
        rec.fail("a model that cannot predict is not rejected", got=repr(out))
    for pm in (NoPredict(), Quad([1.0, 2.0])):
        out = rec.call(lambda: CausalEffect(good).estimate_optimal_intervention(X, 0, pm, 1, 0.0))
        if not out.raised(ValueError):
            rec.fail("a non-linear prediction model is accepted for the optimal intervention", got=repr(out))
    cl = Prob([1.0, 2.0])
    cl.coef_, cl.intercept_ = np.array([[1.0, 2.0]]), 0.0
    out = rec.call(lambda: CausalEffect(good).estimate_optimal_intervention(X, 0, cl, 1, 0.0))
    if not out.raised(ValueError):
        rec.fail("a classifier is accepted for the optimal intervention", got=repr(out))
    rec.trace()


def plots(rec, lo, hi, step=1):
    """Nonlinear effect plot: at every position the average prediction under intervention, adjusted for the cause's parents."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import pandas as pd
    from lingam.bootstrap import BootstrapResult
    from lingam.utils import visualize_nonlinear_causal_effect as vis
    from sklearn.linear_model import LinearRegression, LogisticRegression
    n, m = 3, 16
    names = ["a", "b", "c"]
    D3 = dags(3)
    for k in range(lo, hi, step):
        r = rng("c14plot", k)
        Bs = [weights(D3[(k + 7 * q) % 25], ALPH["mixed"] if k % 2 else [1.0], k) for q in range(3)]
        if k % 3 == 0:  # unknown pairs of a method with latent confounders
            Bs[1] = np.where((Bs[1] == 0) & (Bs[1].T == 0) & ~np.eye(n, dtype=bool), np.nan, Bs[1])
        V = r.laplace(size=(m, n)) @ np.linalg.inv(np.eye(n) - weights(D3[k], ALPH["mixed"], k)).T + 0.4 * r.uniform(-1, 1, (m, n)) ** 2
        idx = [r.randint(0, m, m) for _ in Bs]
        for ci, ei in itertools.permutations(range(n), 2):
            for index, disc, mode in itertools.product(("range", "shifted", "text"), (False, True), ("matrix", "boot", "boot-noindex")):
                if (hash((k, ci, ei)) + len(index) + disc) % 3 and index != "shifted":
                    continue
                X = pd.DataFrame(V, columns=names, index={"range": None, "shifted": np.arange(m)[::-1] + 3, "text": [f"r{i}" for i in range(m)]}[index])
                if disc:
                    lab = np.where(V[:, ei] > np.median(V[:, ei]), "hi", "lo")
                    if (k + ci) % 2:  # a class found in some replicates only
                        lab[np.argmin(V[:, ei])] = "a"
                    X[names[ei]] = pd.Series(lab, index=X.index).astype("category")
                est = LogisticRegression() if disc else LinearRegression()
                ref = LogisticRegression() if disc else LinearRegression()
                pos = np.array([-1.0, 0.25, 2.0])
                reps = [(Bs[0], np.arange(m))] if mode == "matrix" else [(B, i if mode == "boot" else np.arange(m)) for B, i in zip(Bs, idx)]
                cd = Bs[0] if mode == "matrix" else BootstrapResult(np.array(Bs), np.zeros((3, n, n)), [list(i) for i in idx] if mode == "boot" else None)
                if any(X[names[ei]].iloc[i].nunique() < 2 for _, i in reps):
                    continue
                if disc and len(set().union(*(set(X[names[ei]].iloc[i]) for _, i in reps))) < len(set(lab)):
                    continue  # a class in no replicate at all: nothing to draw
                want = {}
                for B, rows in reps:
                    cov = [j for j in range(n) if j != ci and j != ei and not np.isnan(B[ci, j]) and B[ci, j] != 0]
                    if disc and any(j == ei for j in cov):
                        continue
                    use = sorted([ci] + cov)
                    y = X[names[ei]].iloc[rows]
                    ref.fit(V[rows][:, use], y.astype(str) if disc else y)
                    for v in pos:
                        Z = V[rows].copy()
                        Z[:, ci] = v
                        if disc:
                            for c, pr in zip(ref.classes_, ref.predict_proba(Z[:, use]).mean(0)):
                                want.setdefault(c, {}).setdefault(v, []).append(pr)
                        else:
                            want.setdefault(None, {}).setdefault(v, []).append(ref.predict(Z[:, use]).mean())
                info = dict(replicates=[B for B, _ in reps], cause=ci, effect=ei, index=index, discrete=disc, mode=mode)
                rec.state(("plot", k, ci, ei, index, disc, mode))
                qs = [[95, 50, 5], [10, 90, 40], [0, 100, 50], [25.5, 75, 3]][(k + ei + disc) % 4]
                kw = {} if qs[0] == 95 else dict(percentile=list(qs))
                out = rec.call(vis, X, cd, est, names[ci], names[ei], cause_positions=list(pos), **kw)
                if not out.ok:
                    rec.fail("plotting a nonlinear effect failed", got=repr(out), **info)
                    continue
                axes = out.value.get_axes()
                if len(axes) != len(want):
                    rec.fail("the plot does not have one panel per class", got=len(axes), **info)
                else:
                    for ax, c in zip(axes, sorted(want, key=str)):
                        got = sorted((round(float(x), 6), float(y)) for col in ax.collections for x, y in np.asarray(col.get_offsets()))
                        exp = sorted((v, y) for v in pos for y in want[c][v])
                        if len(got) != len(exp) or not np.allclose(np.array(got), np.array(exp), rtol=1e-6, atol=1e-6):
                            rec.fail("plotted effects are not the average predictions under intervention", panel=str(c), got=got, want=exp, **info)
                            break
                        if mode == "matrix":
                            qs = [50]
                        if c is not None and str(c) not in ax.get_title():
                            rec.fail("the panel is titled with another class", panel=str(c), got=ax.get_title(), **info)
                        named = {l.get_label(): np.asarray(l.get_ydata(), float) for l in ax.lines}
                        for q in qs if mode != "matrix" else []:
                            line = [y for name, y in named.items() if name.startswith(f"{q}%")]
                            if len(line) == 1 and not np.allclose(line[0], [np.percentile(want[c][v], q) for v in pos], rtol=1e-6, atol=1e-6):
                                rec.fail("a plotted line is not the percentile it is labelled with", panel=str(c), percentile=q, got=line[0], **info)
                        lines = [np.asarray(l.get_ydata(), float) for l in ax.lines]
                        exp = [[np.percentile(want[c][v], q) for v in pos] for q in qs]
                        if len(lines) != len(exp) or not np.allclose(sorted(map(tuple, lines)), sorted(map(tuple, exp)), rtol=1e-6, atol=1e-6):
                            rec.fail("plotted lines are not the percentiles over the replicates", panel=str(c), got=lines, want=exp, **info)
                            break
                plt.close(out.value)
                rec.trace()


def _cyclic3():
    from mc.gen import all_graphs, is_dag
    for A in all_graphs(3):
        if not is_dag(A):
            yield A.astype(float) * 0.7


def tasks(tier):
    th = tier == "thorough"
    dags(4)
    t = []
    for a in ALPH:
        t.append(("matrices", dict(n=2, lo=0, hi=3, alph=a)))
        t.append(("matrices", dict(n=3, lo=0, hi=25, alph=a)))
        for lo, hi in chunks(543, 8):
            t.append(("matrices", dict(n=4, lo=lo, hi=hi, alph=a, step=1 if th or a == "cancel" else 3)))
        t += [("matrices", dict(n=n, lo=k, hi=k + 1, alph=a)) for n in (6, 9, 12) for k in range(3) if a in ("cancel", "mixed")]
    t.append(("models", dict(n=2, lo=0, hi=3, L=9)))
    for lo, hi in chunks(25, 3):
        t.append(("models", dict(n=3, lo=lo, hi=hi, L=6)))
    t.append(("rejected", {}))
    for lo, hi in chunks(25, 8):
        t.append(("plots", dict(lo=lo, hi=hi)))
    return t
