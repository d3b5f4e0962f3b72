"""C23  Latent-factor models report the thresholded solution of the stated problem.

The continuous optimiser and the factor analysis are the environment: every sequence of answers of the optimiser over an
alphabet of acyclic, slightly cyclic and strongly cyclic weight matrices (on both sides of the threshold and of the
tolerance) is explored on the real estimators. At every call the function handed to the optimiser is evaluated at probe
points and compared with the penalised objective written down independently, for the multipliers the history so far
implies; the reported graph is compared with the last solution."""
import contextlib
import io
import itertools
import sys

import numpy as np

from mc.env import explore, replaced
from mc.gen import dags, rng, same, weights

PROPERTY = "C23"
BOUNDS = ("2-4 (strided: 5-9) latent factors, 2-3 measurement variables each; all sequences of <= 4 optimiser answers over 5 matrices (then acyclic) "
          "x losses x penalties x thresholds x tolerances x limits; multi-domain: all signed factor matchings of 2-3 factors, 2-3 domains, x DAGs (strided: 4 factors, 4 domains)")
ASSUMPTIONS = ["the optimiser and the confirmatory factor analysis are trusted (their answers are enumerated)",
               "multi-domain: the matching of factors to concepts is judged for clear-cut matchings only"]


def logcosh(x):
    x = np.abs(x)
    return x + np.log1p(np.exp(-2 * x)) - np.log(2)


def loss(f, W, kind):
    """Value and gradient of the data term, W[from, to]."""
    M = f @ W
    n = len(f)
    if kind == "l2":
        return ((f - M) ** 2).sum() / 2 / n, -f.T @ (f - M) / n
    if kind == "laplace":
        return logcosh(f - M).sum(), -f.T @ np.tanh(f - M)
    if kind == "logistic":
        return (np.log1p(np.exp(M)) - f * M).sum() / n, f.T @ (1 / (1 + np.exp(-M)) - f) / n
    return (np.exp(M) - f * M).sum() / n, f.T @ (np.exp(M) - f) / n


def cyclicity(W):
    """trace of (I + W o W / d)^d minus d, and its gradient."""
    d = len(W)
    M = np.eye(d) + W * W / d
    P = np.eye(d)
    for _ in range(d - 1):
        P = P @ M
    return np.trace(P @ M) - d, 2 * P.T * W


def split(W):
    return np.concatenate([np.maximum(W, 0).ravel(), np.maximum(-W, 0).ravel()])


def alphabet(d, thr, tol):
    """Acyclic, within the tolerance, a little cyclic, cyclic, strongly cyclic."""
    r = rng("c23", d)
    A = np.triu(r.choice([0.5, -0.8, 1.3, -0.2], size=(d, d)), 1)
    if d > 2 or thr > 0:
        A[0, d - 1] = -thr * 1.01
    if d > 2:
        A[0, 1] = thr * 0.99
        A[1, 2] = 0.9
    p = r.permutation(d)
    A = A[np.ix_(p, p)]
    out = [A]
    i, j = next((i, j) for i, j in itertools.permutations(range(d), 2) if abs(A[i, j]) > thr)
    for target in (tol * 0.5, max(tol * 20, 1e-6), 0.02, 0.9):
        B = A.copy()
        B[j, i] = np.sqrt(target) / abs(A[i, j]) * [1, -1][len(out) % 2]
        out.append(B)
    return out


class Optimiser:
    """Stand-in for the numerical optimiser: answers are choices; remembers what it was asked."""

    def __init__(self, answer):
        self.answer, self.calls = answer, []

    def installed(self):
        import scipy.optimize
        from scipy.optimize import OptimizeResult
        genuine = scipy.optimize.minimize

        def minimize(fun, x0, *a, **k):
            if not sys._getframe(1).f_globals.get("__name__", "").startswith("lingam"):
                return genuine(fun, x0, *a, **k)
            x, val = self.answer(fun, np.array(x0, float), k)
            return OptimizeResult(x=x, fun=val, success=True)
        return replaced((genuine, minimize))


def asked(fun, x):
    v = fun(np.array(x, float))
    return (float(v[0]), np.asarray(v[1], float)) if isinstance(v, tuple) else (float(v), None)


def probes(d, k):
    r = rng("c23probe", d, k)
    W = r.uniform(-0.7, 0.7, (d, d)) * (1 - np.eye(d))
    both = split(W) + np.tile((0.1 * (1 - np.eye(d))).ravel(), 2)
    return [split(W), both, np.zeros(2 * d * d)]


def objective(f, x, kind, lam, rho, alpha):
    d = f.shape[1]
    W = (x[:d * d] - x[d * d:]).reshape(d, d)
    l, D = loss(f, W, kind)
    h, H = cyclicity(W)
    G = D + (rho * h + alpha) * H
    return l + rho / 2 * h * h + alpha * h + lam * x.sum(), np.concatenate([(G + lam).ravel(), (lam - G).ravel()])


class Ascent:
    """Reference dual ascent: tells the multipliers of the next question and the final solution."""

    def __init__(self, max_iter, tol, rho_max):
        self.left, self.tol, self.rho_max = max_iter, tol, rho_max
        self.rho, self.alpha, self.h, self.W, self.done = 1.0, 0.0, np.inf, None, False

    def told(self, W):
        h = cyclicity(W)[0]
        if h > 0.25 * self.h:
            self.rho *= 10
            if self.rho < self.rho_max:
                return
        self.W, self.h = W, h
        self.alpha += self.rho * h
        self.left -= 1
        self.done = h <= self.tol or self.rho >= self.rho_max or self.left == 0


def loadings(p, d, k):
    r = rng("c23g", p, d, k)
    G = np.zeros((p, d))
    for i in range(p):
        G[i, i % d if k % 2 else i * d // p] = r.choice([-1, 1]) * r.uniform(0.3, 0.9)
    return G


def follow(rec, fun, x0, kw, d, f, kind, lam, ref, k, info):
    """Compare one question with the reference; False when it cannot be understood."""
    if len(x0) != 2 * d * d:
        rec.note("another parametrisation of the weights: only the results are judged")
        return False
    b = kw.get("bounds")
    if b is not None:
        b = list(b) if not hasattr(b, "lb") else list(zip(np.broadcast_to(b.lb, len(x0)), np.broadcast_to(b.ub, len(x0))))
        free = np.array([not (lo == 0 and hi == 0) for lo, hi in b]).reshape(2, d, d)
        if any(lo is None or lo < 0 for lo, _ in b) or (free != (1 - np.eye(d)).astype(bool)).any():
            rec.fail("the optimiser is not asked for weights without self-loops", **info)
    for x in probes(d, k):
        got, grad = asked(fun, x)
        want, wgrad = objective(f, x, kind, lam, ref.rho, ref.alpha)
        if abs(got - want) > 1e-7 * (1 + abs(want)) or grad is not None and not np.allclose(grad, wgrad, rtol=1e-7, atol=1e-7 * (1 + np.abs(wgrad).max())):
            rec.fail("the optimiser is given another objective than the penalised one", call=k, got=got, want=want, rho=ref.rho, alpha=ref.alpha, **info)
            break
    return True


def single(rec, d, per, kind, lam, thr, tol, max_iter, rho_max, depth, k=0):
    import lingam
    from psy import cfa
    p = per * d
    r = rng("c23x", d, per, k)
    G = loadings(p, d, k)
    F = r.laplace(size=(17, d))
    if kind in ("logistic", "poisson"):
        F = np.abs(np.round(F))
    X = F @ G.T + 0.1 * r.uniform(-1, 1, (17, p))
    sign = np.sign(G)
    scale = r.uniform(0.5, 3, (1, d))
    f = np.linalg.lstsq(G, X.T, rcond=None)[0].T * scale
    words = alphabet(d, thr, tol)
    info = dict(factors=d, loss=kind, threshold=thr, lambda1=lam, h_tol=tol, max_iter=max_iter, rho_max=rho_max)
    for how in ("array", "again"):
        model = lingam.LiNA(w_threshold=thr, lambda1=lam, loss_type=kind, max_iter=max_iter, h_tol=tol, rho_max=rho_max)

        def run(ch):
            ref = Ascent(max_iter, tol, rho_max)
            hist, state = [], {"ok": True}

            def answer(fun, x0, kw):
                n = len(hist)
                if n > 200:
                    raise RuntimeError("endless")
                q = dict(info, answers=list(hist))
                if ref.done:
                    if state["ok"]:
                        rec.fail("the search goes on after its stopping rule", **q)
                    state["ok"] = False
                elif state["ok"]:
                    state["ok"] = follow(rec, fun, x0, kw, d, f, kind, lam, ref, n, q)
                c = ch.choose(len(words)) if n < depth else 0
                hist.append(c)
                if not ref.done:
                    ref.told(words[c])
                return split(words[c]), 1.0
            seen = []

            def factors(data, s):
                seen.append((np.array(data), np.array(s)))
                return G.copy(), np.eye(d), np.full(p, 0.1)
            with Optimiser(answer).installed(), replaced((cfa, factors)):
                given = X.copy(), sign.copy(), scale.copy()
                out = rec.call(model.fit, *given)
            if not all(same(a, b, 0) for a, b in zip(given, (X, sign, scale))):
                rec.fail("fitting changed the data it was given", **info)
            return out, hist, ref, seen, state

        for taken, (out, hist, ref, seen, state), cut in explore(run, max_depth=depth, max_dev=None if how == "array" else 1):
            rec.state((d, per, kind, lam, thr, tol, max_iter, rho_max, k, how, taken))
            q = dict(info, answers=list(hist))
            rec.trace()
            if not out.ok:
                rec.fail("fit failed", got=repr(out), **q)
                continue
            if not hist:
                rec.note("optimiser not observable")
                return
            if len(seen) != 1 or not (same(seen[0][0], X, 0) and same(seen[0][1], sign, 0)):
                rec.fail("the factor analysis is not given the data and the measurement structure", **q)
            if not same(np.asarray(model.measurement_matrix_), G, 1e-12):
                rec.fail("the measurement matrix is not the one of the factor analysis", got=model.measurement_matrix_, want=G, **q)
            A = np.asarray(model.adjacency_matrix_, float)
            last = words[hist[-1]]
            if not ref.done:
                if state["ok"]:
                    rec.fail("the search ends before its stopping rule", **q)
                    continue
            else:
                last = ref.W
            want = np.where(np.abs(last) < thr, 0.0, last)
            if A.shape != (d, d) or not same(A, want, 1e-12):
                rec.fail("the reported graph is not the thresholded last solution", got=A, want=want, **q)


def genuine(rec, d, lo, hi, kind, k):
    """The genuine optimiser: the result has no self-loop, no weight below the threshold and, when asked to converge, no cycle."""
    import lingam
    from mc.gen import is_dag
    from psy import cfa
    D = dags(d)
    for g in range(lo, min(hi, len(D))):
        B = weights(D[g], [1.2, -0.9, 0.7], g)
        r = rng("c23o", d, g, k)
        F = r.laplace(size=(60, d)) @ np.linalg.inv(np.eye(d) - B).T
        G = loadings(2 * d, d, k)
        X = F @ G.T
        thr = [0.3, 0.1][g % 2]
        rec.state(("opt", d, g, kind, k))
        model = lingam.LiNA(loss_type=kind, w_threshold=thr)
        with replaced((cfa, lambda a, b: (G.copy(), np.eye(d), np.ones(2 * d)))):
            out = rec.call(model.fit, X, np.sign(G), np.ones((1, d)))
        info = dict(graph=B, loss=kind, family=k)
        if not out.ok:
            rec.fail("fit failed", got=repr(out), **info)
            continue
        A = np.asarray(model.adjacency_matrix_, float)
        if A.shape != (d, d) or not np.isfinite(A).all() or np.diag(A).any() or ((A != 0) & (np.abs(A) < thr)).any():
            rec.fail("result with self-loop, unbounded weight or weight below the threshold", got=A, **info)
        elif not is_dag(A != 0):
            rec.fail("result with a cycle", got=A, **info)
        rec.trace()


# ------------------------------------------------------------------ several domains
def multi(rec, d, domains, lo, hi, step, thr=0.3, kind="laplace"):
    import lingam
    from psy import cfa
    per, m = 2, 12
    p, q = per * d * domains, d * domains
    D = dags(d)
    space = list(itertools.product(range(len(D)), itertools.permutations(range(d)), range(4)))
    for g, perm, v in space[lo:hi:step]:
        r = rng("c23m", d, domains, g, perm, v)
        blocks = [loadings(per * d, d, k) for k in range(domains)]
        G = np.zeros((p, q))
        X = np.zeros((m * domains, p))
        scale = np.zeros((domains, q))
        for k in range(domains):
            G[k * per * d:(k + 1) * per * d, k * d:(k + 1) * d] = blocks[k]
            X[k * m:(k + 1) * m, k * per * d:(k + 1) * per * d] = r.laplace(size=(m, d)) @ blocks[k].T
            scale[k, k * d:(k + 1) * d] = r.uniform(0.5, 2.5, d)
        F = np.linalg.lstsq(G, X.T, rcond=None)[0].T * scale.sum(0)
        W = weights(D[g], [1.2, -0.9, 0.31], g + v)
        W = W + np.where(W == 0, 0.02, 0.0) * (1 - np.eye(d))  # what the optimiser leaves below the threshold
        H = np.zeros((q, d))
        for c in range(d):  # column c measures concept perm[c]
            for k in range(domains):
                big = [2.0, 0.4, 1.1][(k + v) % 3] * (1 + 0.1 * c * (v % 2))  # equal ones as well
                H[k * d + perm[c], c] = big * [-1, (-1) ** (k + c), (-1) ** c, -1 if c else 1][v]
            H[(perm[c] + 1) % d + d * (v % domains), c] += [0.0, 0.2, 0.35, -0.35][v]
        rec.state((d, domains, g, perm, v, thr, kind))
        info = dict(factors=d, domains=domains, weights=W, matching=H, threshold=thr)
        hx = split(H)
        He = np.where(np.abs(H) < thr, 0.0, H)
        fs = np.linalg.lstsq(He, F.T, rcond=None)[0].T
        ref, state = [Ascent(100, 1e-8, 1e16)], {"ok": True, "n": 0}

        def answer(fun, x0, kw):
            state["n"] += 1
            if state["n"] > 4000:
                raise RuntimeError("endless")
            if len(x0) == len(hx):
                return hx.copy(), 1.0
            if ref[0].done:
                ref[0] = Ascent(100, 1e-8, 1e16)
            if state["ok"]:
                state["ok"] = follow(rec, fun, x0, kw, d, fs, kind, 0.1, ref[0], state["n"], info)
            ref[0].told(W)
            return split(W), 1.0
        model = lingam.MDLiNA(w_threshold=thr, loss_type=kind, no_of_domain=domains, no_of_latent_1domain=d)
        with Optimiser(answer).installed(), replaced((cfa, lambda a, b: (G.copy(), np.eye(q), np.ones(p)))), contextlib.redirect_stdout(io.StringIO()):
            np.random.seed(1)
            out = rec.call(model.fit, X.copy(), np.sign(G), scale.copy())
        rec.trace()
        if not out.ok:
            rec.fail("fit failed", got=repr(out), **info)
            continue
        if not state["n"]:
            rec.note("optimiser not observable")
            return
        Wt = np.where(np.abs(W) < thr, 0.0, W)
        col = [perm.index(i) for i in range(d)]
        want = Wt[np.ix_(col, col)]
        A = np.asarray(model.adjacency_matrix_, float)
        if A.shape != (d, d) or not same(A, want, 1e-12):
            rec.fail("the shared graph is not reported in the order of the factors of the first domain", got=A, want=want, **info)
        if not same(np.asarray(model.measurement_matrix_), G, 1e-12):
            rec.fail("the measurement matrix is not the one of the factor analysis", **info)


def tasks(tier):
    th = tier == "thorough"
    dags(3)
    t = []
    base = dict(per=2, kind="laplace", lam=0.1, thr=0.3, tol=1e-8, max_iter=100, rho_max=1e16)
    for d in (2, 3, 4):
        t.append(("single", dict(base, d=d, depth=4 if th else 3)))
        for kind in ("l2", "logistic", "poisson", "laplace"):
            t.append(("single", dict(base, d=d, kind=kind, lam=0.03, thr=0.15, depth=3 if th else 2, k=1)))
    for kw in (dict(tol=1e-4), dict(max_iter=1), dict(max_iter=2), dict(max_iter=4, tol=1e-5), dict(rho_max=100.0), dict(rho_max=1e3, max_iter=3), dict(per=3, lam=0.0), dict(thr=0.0), dict(thr=0.45, lam=2.0)):
        for d in (2, 3):
            t.append(("single", dict(base, d=d, depth=4 if th else 3, **{}) | kw))
    for d, kw in ((5, {}), (6, dict(kind="l2")), (5, dict(per=3, lam=0.03)), (9, {})):
        t.append(("single", dict(base, d=d, depth=2) | kw))
    for d, kind, k in itertools.product((2, 3), ("laplace", "l2"), (0, 1)):
        n = len(dags(d))
        for lo in range(0, n, 5):
            t.append(("genuine", dict(d=d, lo=lo, hi=lo + 5, kind=kind, k=k)))
    for d, domains in ((2, 2), (3, 2), (2, 3), (3, 3)):
        n = len(dags(d)) * [1, 1, 2, 6][d] * 4
        step = 1 if d == 2 or th else 7
        for lo in range(0, n, 100):
            t.append(("multi", dict(d=d, domains=domains, lo=lo, hi=lo + 100, step=step)))
    for domains in (2, 4):
        for lo in range(0, 543 * 96, 13032):
            t.append(("multi", dict(d=4, domains=domains, lo=lo + 7 * domains, hi=lo + 13032, step=101 if th else 1009)))
    return t
