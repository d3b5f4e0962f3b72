"""C22  Mixed-data model search returns a valid acyclic weighted graph.

The continuous optimiser of the first phase is replaced by an oracle whose answers are enumerated: every DAG on 2 and 3
variables (strided on 4) with weights on both sides of the threshold and with noise below it. The genuine second phase runs
on data of every mixture of discrete and continuous variables and is compared with a reference search over an independent
implementation of the score (decisions closer than the rounding error are not judged)."""
import itertools

import numpy as np

from mc.env import replaced
from mc.gen import dags, is_dag, rng, same

PROPERTY = "C22"
BOUNDS = "all DAGs n=2,3 (n=4: strided) as answers of the optimiser x all mixtures of discrete and continuous variables x data generated by different graphs x logistic and Poisson scores x thresholds; eight sparse graphs on 5-7 variables, up to 1100 rows"
ASSUMPTIONS = ["scikit-learn's regressions are trusted", "the answers of the optimiser are acyclic above the threshold", "score differences below 1e-6 are ties"]


class Score:
    """Penalised log-likelihood of a graph E[from, to], node by node."""

    def __init__(self, X, cont, poisson):
        self.X, self.cont, self.poisson, self.cache = X, cont, poisson, {}

    def local(self, i, pa):
        from scipy.special import gammaln
        from sklearn.linear_model import LogisticRegression, PoissonRegressor
        key = (i, pa)
        if key in self.cache:
            return self.cache[key]
        y, P = self.X[:, i], self.X[:, list(pa)]
        if self.cont[i]:
            D = np.column_stack([np.ones(len(y)), P])
            e = y - D @ np.linalg.lstsq(D, y, rcond=None)[0]
            s = e.std()
            v = np.sum(-np.sqrt(2) * np.abs(e / s) - 0.35) - len(y) * np.log(s)
        elif not pa:
            _, c = np.unique(y, return_counts=True)
            v = float(np.sum(c * np.log(c / c.sum())))
        elif self.poisson:
            rate = PoissonRegressor().fit(P, y).predict(P)
            v = float(np.sum(y * np.log(rate) - rate - gammaln(y + 1)))
        else:
            m = LogisticRegression(solver="lbfgs").fit(P, y)
            pr = m.predict_proba(P)
            v = float(np.sum(np.log(pr[np.arange(len(y)), np.searchsorted(m.classes_, y)])))
        self.cache[key] = v
        return v

    def __call__(self, E):
        n = len(E)
        k = E.sum() + n
        return sum(self.local(i, tuple(int(j) for j in np.where(E[:, i])[0])) for i in range(n)) - np.log(len(self.X)) / 2 * k


def search(score, S):
    """Reference second phase from the support S[from, to]. Returns (support, certain)."""
    n, m = len(S), int(S.sum())
    best, val, sure = S, score(S), True

    def offer(E):
        nonlocal best, val, sure
        if not is_dag(E):
            return
        v = score(E)
        if abs(v - val) < 1e-6:
            sure = sure and (E == best).all()
        elif v > val:
            best, val = E, v
    edges = list(zip(*np.where(S)))
    for flip in itertools.product((0, 1), repeat=m):
        E = S.copy()
        for f, (i, j) in zip(flip, edges):
            if f:
                E[i, j], E[j, i] = False, True
        offer(E)

    def neighbours(base, add):
        out = []
        for i, j in itertools.permutations(range(n), 2):
            if (not add and base[i, j]) or (add and not base[i, j] and not base[j, i]):
                E = base.copy()
                E[i, j] = add
                out.append(E)
        return out
    if n > 2:
        for add, go in ((False, m > n - 1), (True, m < n * (n - 1) / 2)):
            if go:
                for E in neighbours(best, add):
                    offer(E)
                if (best != S).any():
                    for E in neighbours(S, add):
                        offer(E)
    return best, sure


def graphs(n):
    """All DAGs; on more than four variables eight sparse and four dense ones."""
    if n < 5:
        return dags(n)
    out = []
    for k in range(8):
        r = rng("c22many", n, k)
        q = r.permutation(n)
        A = np.zeros((n, n), int)
        for _ in range((4, 5, 6, 3)[k % 4]):
            i, j = sorted(r.choice(n, 2, replace=False))
            A[j, i] = 1
        out.append(A[np.ix_(q, q)])
    for k in range(4):  # and four dense ones
        r = rng("c22dense", n, k)
        q = r.permutation(n)
        A = np.tril(np.ones((n, n), int), -1)
        pairs = np.argwhere(A)
        for i, j in pairs[r.choice(len(pairs), len(pairs) - (7, 8, 9, 7)[k], replace=False)]:
            A[i, j] = 0
        out.append(A[np.ix_(q, q)])
    return out


def data(n, cont, k, poisson, m=60):
    """Mixed data from the k-th DAG."""
    r = rng("c22", n, cont, k, poisson)
    G = graphs(n)[k % len(graphs(n))]
    X = np.zeros((m, n))
    left = list(range(n))
    done = []
    while left:
        i = next(v for v in left if all(j in done for j in np.where(G[v])[0]))
        left.remove(i)
        done.append(i)
        eta = X @ (G[i] * np.where(np.arange(n) % 2, 1.1, -0.8))
        if cont[i]:
            X[:, i] = eta + r.laplace(size=m)
        elif poisson:
            X[:, i] = r.poisson(np.exp(np.clip(0.4 * eta, -2, 1.5)))
        else:
            X[:, i] = (r.uniform(size=m) < 1 / (1 + np.exp(-2 * eta))).astype(float)
        if not cont[i] and len(set(X[:, i])) < 2:
            X[:2, i] = [0, 1]
    return X


def optimum(W):
    """Stand-in for the optimiser: always answers W."""
    import sys

    import scipy.optimize
    from scipy.optimize import OptimizeResult
    x = np.concatenate([np.maximum(W, 0).ravel(), np.maximum(-W, 0).ravel()])

    genuine = scipy.optimize.minimize

    def minimize(fun, x0, *a, **k):
        if not sys._getframe(1).f_globals.get("__name__", "").startswith("lingam"):
            return genuine(fun, x0, *a, **k)  # scikit-learn's own use
        return OptimizeResult(x=x.copy(), fun=0.0, success=True)
    return minimize


def second(rec, n, cont, lo, hi, step, poisson, sets, rows=60):
    import scipy.optimize

    import lingam
    G = graphs(n)
    dis_con = np.array([[float(c) for c in cont]])
    for k in range(lo, min(hi, len(G)), step):
        for d in sets:
            X = data(n, cont, 5 * k + d, poisson, rows)
            score = Score(X, cont, poisson)
            thr = (0.1, 0.3)[(k + d) % 2]
            W = np.zeros((n, n))
            e = 0
            for i in range(n):
                for j in range(n):
                    if i != j:
                        if G[k][j, i]:  # i -> j
                            W[i, j] = (0.7, -1.4, 0.35, -0.31, 0.11, -0.24)[(e + d + k) % 6]
                            e += 1
                        elif (i + j + d) % 2:
                            W[i, j] = ((0.05, -0.09, 0.02) if thr < 0.2 else (0.25, -0.29, 0.15))[(i + d) % 3] if d % 2 else 0.0
            S = np.abs(W) >= thr
            info = dict(answer=W, continuous=cont, poisson=poisson, threshold=thr, dataset=5 * k + d)
            for only in (True, False):
                rec.state((n, cont, k, d, poisson, only))
                m = lingam.LiM(w_threshold=thr)
                Xc = X.copy()
                with replaced((scipy.optimize.minimize, optimum(W))):
                    o = rec.call(m.fit, Xc, dis_con.copy(), only_global=only, is_poisson=poisson)
                if not o.ok:
                    rec.fail("the search failed", got=repr(o), only_global=only, **info)
                    continue
                B = np.asarray(m.adjacency_matrix_, float)
                if B.shape != (n, n) or not np.isfinite(B).all() or np.diag(B).any() or not is_dag(B):
                    rec.fail("the result is not an acyclic weighted graph", got=B, only_global=only, **info)
                    continue
                if (np.abs(B[B != 0]) < thr).any():
                    rec.fail("an edge below the threshold is reported", got=B, only_global=only, **info)
                kept = (B != 0) & S
                if only:
                    if not same(B, np.where(S, W, 0.0), 1e-12):
                        rec.fail("without local search the result is not the thresholded optimum", got=B, **info)
                    continue
                if not np.allclose(B[kept], W[kept]):
                    rec.fail("an edge found by the optimiser changed its coefficient", got=B, **info)
                best, sure = search(score, S)
                E = B != 0
                if sure and (E != best).any():
                    rec.fail("the local search does not end in the best graph it compares", got=B, score=score(E), want=best.astype(int), best_score=score(best), **info)
                elif score(E) < score(best) - 1e-5:
                    rec.fail("the result is worse than a graph the search compares", got=B, score=score(E), best_score=score(best), **info)
    rec.trace()


def pieces(rec):
    """The published likelihood helpers."""
    from lingam import utils as ut
    r = rng("c22p")
    for n, i, k in itertools.product((2, 3), range(3), range(6)):
        if i >= n:
            continue
        X = r.laplace(size=(n, 17)) + r.normal()
        b = np.where(np.arange(n) == i, 0, r.uniform(-1, 1, n))
        c = r.normal()
        rec.state((n, i, k))
        e = X[i] - b @ X
        v = np.mean((e - e.mean()) ** 2)
        if not same(ut.variance_i(X, i, b), v, 1e-9):
            rec.fail("variance of the disturbance differs", got=ut.variance_i(X, i, b), want=v)
        ll = np.sum(-np.sqrt(2) * np.abs((e - c) / np.sqrt(v)) - 0.35) - X.shape[1] * np.log(np.sqrt(v))
        if not same(ut.likelihood_i(X, i, b, c), ll, 1e-8):
            rec.fail("the likelihood of a variable differs from its definition", got=ut.likelihood_i(X, i, b, c), want=ll)
        s = r.normal(size=5)
        if not same(ut.log_p_super_gaussian(s), -np.sqrt(2) * np.abs(s) - 0.35, 1e-12):
            rec.fail("the log-density differs")
    rec.trace()


def tasks(tier):
    th = tier == "thorough"
    dags(4)
    t = [("pieces", {})]
    for poisson in (False, True):
        for cont in itertools.product((0, 1), repeat=2):
            t.append(("second", dict(n=2, cont=cont, lo=0, hi=3, step=1, poisson=poisson, sets=[0, 1, 2, 3])))
        for c, cont in enumerate(itertools.product((0, 1), repeat=3)):
            for lo in (0, 9, 17):
                t.append(("second", dict(n=3, cont=cont, lo=lo, hi=lo + 9 if lo == 0 else lo + 8, step=1, poisson=poisson, sets=list(range(6)) if th else [c % 2, 2 + c % 2])))
        for c, cont in enumerate(itertools.product((0, 1), repeat=4)):
            for lo in range(0, 543, 181):
                t.append(("second", dict(n=4, cont=cont, lo=lo + 5 * c, hi=lo + 181, step=8 if th else 50, poisson=poisson, sets=[c % 4])))
        for c, (cont, rows) in enumerate((((0, 1, 0, 1, 1), 80), ((1, 1, 0, 1, 1), 300), ((0, 0, 1, 0, 1, 0), 120), ((1, 0, 1, 1, 0, 1, 1), 200))):
            for lo in (0, 4, 8) if c < 2 or th else (0, 4):
                t.append(("second", dict(n=len(cont), cont=cont, lo=lo, hi=lo + 4, step=1, poisson=poisson, sets=[0, 1, 2, 3] if th else [c % 4], rows=rows)))
        t.append(("second", dict(n=3, cont=(1, 0, 1), lo=c % 5, hi=25, step=6, poisson=poisson, sets=[1], rows=1100)))
    return t
