"""C11  Autoregressive models reproduce the series they were fitted to.

Every instantaneous DAG on 2-3 variables x lag pattern is turned into a series with a known reduced form whose
innovations are exactly (in the sample) independent. The real estimators are run on it with given and with estimated
reduced forms and compared with a reference built from the textbook equations on the time-unrolled model."""
import itertools

import numpy as np

from mc.gen import chunks, dags, exact_noise, rng, same, topo_ok, weights

from .c05 import descending, ref_paths
from .c06 import unrolled_effects

PROPERTY = "C11"
BOUNDS = ("all labelled DAGs n=2,3 x lag patterns, lags 1-2 (3 for queries), orders (1,1),(2,1),(1,2),(2,2); criteria x series; "
          "bootstrap path tables over matrix alphabets x all (from,to,from_lag,to_lag); strided: 4-6 variables, up to 8 lags and 1100 time points")
ASSUMPTIONS = ["statsmodels' VAR/VARMAX fits are trusted", "the adaptive lasso itself is decided by C02"]
W = [0.8, -1.2, 0.6]


def lag_mats(p, lags, v):
    """Structural lagged matrices: diagonal, cross, single-entry and full patterns."""
    out = []
    for k in range(lags):
        M = np.zeros((p, p))
        s = [0.4, -0.3][(v + k) % 2] / (k + 1)
        kind = (v + k) % 4
        if kind == 0:
            M += s * np.eye(p)
        elif kind == 1:
            M[0, p - 1] = s
            M[p - 1, 0] = -0.5 * s
        elif kind == 2:
            M[1, 0] = s
            M[1, 1] = 0.5 * s
        else:
            M += s * np.triu(np.ones((p, p))) * 0.5
        out.append(M)
    return out


def exact_series(p, k, lags, v, L):
    """Series with instantaneous matrix B0, structural lag matrices and innovations exactly a product measure."""
    A = dags(p)[k]
    B0 = weights(A, W, k + v)
    E = exact_noise(p, L)
    E = E[rng("c11", p, L).permutation(len(E))]
    S = np.linalg.inv(np.eye(p) - B0)
    Bk = lag_mats(p, lags, v)
    M = [S @ b for b in Bk]
    X = np.zeros((lags + len(E), p))
    X[:lags] = rng("c11-start", p, lags).uniform(-1, 1, (lags, p))
    for t in range(lags, len(X)):
        X[t] = S @ E[t - lags] + sum(M[q] @ X[t - q - 1] for q in range(lags))
    return A, B0, Bk, M, E @ S.T, X


def design(blocks, start):
    return np.concatenate([b[start:] for b in blocks], axis=1)


def shift(X, k):
    """X delayed by k (rows before the start are NaN and must not be used)."""
    out = np.full(X.shape, np.nan)
    out[k:] = X[: len(X) - k]
    return out


def ref_prune(Z, order, p):
    """Adaptive lasso of every variable on its predecessors at t and on everything lagged."""
    from lingam.utils import predict_adaptive_lasso
    out = np.zeros((p, Z.shape[1]))
    for i in range(p):
        pred = [int(v) for v in order[: list(order).index(i)]] + list(range(p, Z.shape[1]))
        out[i, pred] = predict_adaptive_lasso(np.c_[Z[:, pred], Z[:, i]], list(range(len(pred))), len(pred))
    return out


def ols(X, y):
    Z = np.c_[np.ones(len(X)), X]
    return np.linalg.lstsq(Z, y, rcond=None)[0][1:]


def queries(rec, m, X, p, maxlag, info):
    """Total effects for every pair and source lag, from the model and from the data."""
    A = [np.asarray(a) for a in m.adjacency_matrices_]
    lags = len(A) - 1
    T = unrolled_effects(A, p, maxlag)
    am = np.concatenate(A, axis=1)
    pos = {int(v): k for k, v in enumerate(m.causal_order_)}
    for f, t, lag in itertools.product(range(p), range(p), range(maxlag + 1)):
        if lag == 0 and f == t:
            continue
        out, warned = rec.heard(m.estimate_total_effect2, p, f, t, from_lag=lag)
        if not out.ok or not same(out.value, T[t, lag * p + f], 1e-7):
            rec.fail("model total effect is not the sum over the paths of the unrolled graph", source=f, target=t, lag=lag,
                     got=repr(out), want=T[t, lag * p + f], **info)
        if warned != (lag == 0 and pos[f] > pos[t]):
            rec.fail("warning about a query against the causal order is wrong", source=f, target=t, lag=lag, warned=warned, **info)
        if X is None:
            continue
        # regression of the target on the source at t-lag and the source's own parents
        par = [int(c) for c in np.where(np.abs(am[f]) > 0)[0]]
        cols = [shift(X, lag)[:, [f]]] + [shift(X, lag + c // p)[:, [c % p]] for c in par]
        if not (lag == 0 and any(c == t for c in par)):
            want = ols(design(cols, lag + lags), X[lag + lags:, t])[0]
            out = rec.call(m.estimate_total_effect, X, f, t, from_lag=lag)
            if not out.ok or not same(out.value, want, 1e-6):
                rec.fail("estimated total effect does not refer to the source at the requested lag", source=f, target=t, lag=lag,
                         got=repr(out), want=want, **info)


def pvals(rec, m, B0, info):
    from lingam.hsic import hsic_test_gamma
    R = np.asarray(m.residuals_)
    E = R @ (np.eye(len(B0)) - B0).T
    out = rec.call(m.get_error_independence_p_values)
    p = len(B0)
    want = np.zeros((p, p))
    for i, j in itertools.combinations(range(p), 2):
        want[i, j] = want[j, i] = hsic_test_gamma(E[:, [i]], E[:, [j]])[1]
    if not out.ok or not same(np.asarray(out.value), want, 1e-6):
        rec.fail("error p-values are not those of the structural errors", got=repr(out), want=want, **info)


def var_given(rec, p, L, lags, lo, hi, vs, model="direct", step=1):
    import lingam
    for k in range(lo, hi, step):
        for v in vs:
            A, B0, Bk, M, R, X = exact_series(p, k, lags, v, L)
            info = dict(B0=B0, lags=lags, lagged=Bk)
            for prune in (False, True):
                rec.state(("var_given", p, L, lags, k, v, prune, model))
                inner = None if model == "direct" else lingam.ICALiNGAM(random_state=0)
                m = lingam.VARLiNGAM(lags=lags, ar_coefs=np.array(M), prune=prune, lingam_model=inner)
                if not rec.call(m.fit, X).ok:
                    rec.fail("fit with given autoregressive coefficients failed", prune=prune, **info)
                    continue
                if not same(np.asarray(m.residuals_), R, 1e-8):
                    rec.fail("residuals are not the reduced-form residuals aligned in time", prune=prune, **info)
                    continue
                o = list(m.causal_order_)
                if not topo_ok(o, A):
                    rec.fail("causal order of the innovations contradicts the true instantaneous graph", order=o, **info)
                    continue
                got = [np.asarray(a) for a in m.adjacency_matrices_]
                if prune:
                    Z = design([shift(X, q) for q in range(lags + 1)], lags)
                    full = ref_prune(Z, o, p)
                    want = [full[:, q * p:(q + 1) * p] for q in range(lags + 1)]
                else:
                    want = [B0] + Bk
                if len(got) != lags + 1 or not all(same(a, b, 1e-5) for a, b in zip(got, want)):
                    rec.fail("coefficient matrices are not those of the generating equations" if not prune else
                             "pruned coefficient matrices are not the sparse regression on the right lags",
                             got=np.array(got), want=np.array(want), **info)
                    continue
                queries(rec, m, X, p, lags + 1, dict(info, prune=prune))
                pvals(rec, m, got[0], info)
                rec.trace()


def ar_series(p, key, lag, m):
    """Series whose strongest own lag is `lag`."""
    r = rng("c11-ar", p, key, lag)
    E = r.uniform(-1, 1, (m, p)) ** 3
    B0 = np.tril(r.choice([0.9, -0.7, 0.0], size=(p, p)), -1)
    pm = r.permutation(p)
    S = np.linalg.inv(np.eye(p) - B0)[np.ix_(pm, pm)]
    X = np.zeros((m, p))
    for t in range(m):
        X[t] = S @ E[t]
        if t:
            X[t] += 0.3 * X[t - 1]
        if t >= lag:
            X[t] += (0.5 if lag > 1 else 0.2) * X[t - lag][::-1]
    return X + r.uniform(-2, 2, p) * (key % 2)


def var_estimated(rec, p, keys, lags, model="direct", rows=(18, 40), maxlag=2):
    import lingam
    from statsmodels.tsa.vector_ar.var_model import VAR
    for key, true, m_ in itertools.product(keys, (1, 2, 3), rows):
        X = ar_series(p, key, true, m_)
        fits = {}
        for q in range(1, lags + 1):  # least squares without intercept
            Z = design([shift(X, j) for j in range(1, q + 1)], q)
            C = np.linalg.lstsq(Z, X[q:], rcond=None)[0]
            res = VAR(X).fit(maxlags=q, ic=None, trend="n")
            fits[q] = ([C[j * p:(j + 1) * p].T for j in range(q)], X[q:] - Z @ C,
                       {c: getattr(res, c) for c in ("aic", "bic", "hqic", "fpe")})
        for crit, prune in itertools.product(("aic", "bic", "hqic", "fpe", None), (False, True)):
            rec.state(("var_est", p, key, true, m_, crit, prune, lags, model))
            info = dict(p=p, series=(key, true, m_), criterion=crit, prune=prune, lags=lags)
            best = lags if crit is None else min(fits, key=lambda q: fits[q][2][crit])
            mk = (lambda: lingam.DirectLiNGAM()) if model == "direct" else (lambda: lingam.ICALiNGAM(random_state=2))
            m = lingam.VARLiNGAM(lags=lags, criterion=crit, prune=prune, lingam_model=None if model == "direct" else mk())
            if not rec.call(m.fit, X).ok:
                rec.fail("fit failed", **info)
                continue
            got = [np.asarray(a) for a in m.adjacency_matrices_]
            if len(got) - 1 != best:
                rec.fail("the number of lags is not the one the criterion prefers", got=len(got) - 1, want=best, **info)
                continue
            M, R, _ = fits[best]
            if not same(np.asarray(m.residuals_), R, 1e-6):
                rec.fail("residuals are not those of the least-squares autoregression", **info)
                continue
            inner = mk()
            inner.fit(np.asarray(m.residuals_))
            o = [int(v) for v in m.causal_order_]
            if o != [int(v) for v in inner.causal_order_]:
                rec.fail("instantaneous order is not that of the residuals", got=o, want=list(inner.causal_order_), **info)
                continue
            B0 = np.asarray(inner.adjacency_matrix_)
            if prune:
                full = ref_prune(design([shift(X, q) for q in range(best + 1)], best), o, p)
                want = [full[:, q * p:(q + 1) * p] for q in range(best + 1)]
            else:
                want = [B0] + [(np.eye(p) - B0) @ A for A in M]
            if not all(same(a, b, 1e-5) for a, b in zip(got, want)):
                rec.fail("coefficient matrices do not follow from the reduced form", got=np.array(got), want=np.array(want), **info)
                continue
            queries(rec, m, X, p, maxlag, info)
            rec.trace()


# ------------------------------------------------------------------ VARMA
def varma_checks(rec, m, X, p, ar, ma, R, prune, order, info, tol=1e-6):
    """Everything a fitted VARMA model reports, given its reduced form and residuals R (last len(R) time points)."""
    import lingam
    P, Q = order
    inner = lingam.DirectLiNGAM()
    inner.fit(R)
    o = [int(v) for v in m.causal_order_]
    if o != [int(v) for v in inner.causal_order_]:
        rec.fail("instantaneous order is not that of the residuals", got=o, want=list(inner.causal_order_), **info)
        return
    B0 = np.asarray(inner.adjacency_matrix_)
    I = np.eye(p)
    psi, omega = m.adjacency_matrices_
    psi, omega = [np.asarray(a) for a in psi], [np.asarray(a) for a in omega]
    if prune:
        Xc = X[len(X) - len(R):]
        ee = R @ (I - B0).T
        full = ref_prune(design([shift(Xc, q) for q in range(P + 1)] + [shift(ee, q + 1) for q in range(Q)], max(P, Q)), o, p)
        wp = [full[:, q * p:(q + 1) * p] for q in range(P + 1)]
        wo = [full[:, (P + 1 + q) * p:(P + 2 + q) * p] for q in range(Q)]
    else:
        wp = [B0] + [(I - B0) @ a for a in ar]
        wo = [(I - B0) @ a @ np.linalg.inv(I - B0) for a in ma]
    if len(psi) != P + 1 or len(omega) != Q or not all(same(a, b, 10 * tol) for a, b in zip(psi + omega, wp + wo)):
        rec.fail("coefficient matrices do not follow from the reduced form" if not prune else
                 "pruned coefficient matrices are not the sparse regression on the right lags",
                 got=[psi, omega], want=[wp, wo], **info)
        return
    # total effects
    T = unrolled_effects(psi, p, P + 1)
    am = np.concatenate(psi + omega, axis=1)
    pos = {v: k for k, v in enumerate(o)}
    E = R if len(R) == len(X) else np.r_[rng("pad").uniform(-1, 1, (len(X) - len(R), p)), R]
    for f, t, lag in itertools.product(range(p), range(p), range(P + 2)):
        if lag == 0 and f == t:
            continue
        out, warned = rec.heard(m.estimate_total_effect2, p, f, t, from_lag=lag)
        if not out.ok or not same(out.value, T[t, lag * p + f], 1e-7):
            rec.fail("model total effect is not the sum over the paths of the unrolled graph", source=f, target=t, lag=lag,
                     got=repr(out), want=T[t, lag * p + f], **info)
        if warned != (lag == 0 and pos[f] > pos[t]):
            rec.fail("warning about a query against the causal order is wrong", source=f, target=t, lag=lag, **info)
        par = [int(c) for c in np.where(np.abs(am[f]) > 0)[0]]
        cols = [shift(X, lag)[:, [f]]]
        for c in par:
            b, v = divmod(c, p)
            cols.append(shift(X, lag + b)[:, [v]] if b <= P else shift(E, lag + b - P)[:, [v]])
        if lag == 0 and t in par:
            continue
        start = lag + max(P, Q)
        want = ols(design(cols, start), X[start:, t])[0]
        out = rec.call(m.estimate_total_effect, X, E, f, t, from_lag=lag)
        if not out.ok or not same(out.value, want, 1e-6):
            rec.fail("estimated total effect does not refer to the source at the requested lag", source=f, target=t, lag=lag,
                     got=repr(out), want=want, **info)
    pvals(rec, m, psi[0], info)
    rec.trace()


def arma_coefs(p, P, Q, v):
    ar = [a / (k + 1) for k, a in enumerate(lag_mats(p, P, v))]
    ma = [0.7 * a[::-1] for a in lag_mats(p, Q, v + 1)]
    return np.array(ar), np.array(ma)


def varma_given(rec, p, P, Q, lo, hi, vs, m_=60, step=1):
    import lingam
    for k in range(lo, hi, step):
        for v in vs:
            A = dags(p)[k]
            B0 = weights(A, W, k + v)
            ar, ma = arma_coefs(p, P, Q, v)
            S = np.linalg.inv(np.eye(p) - B0)
            e = rng("c11-arma", p, k, v).uniform(-1, 1, (m_, p)) ** 3 @ S.T
            X = np.zeros((m_, p))
            for t in range(m_):
                X[t] = e[t] + sum(ar[q] @ X[t - q - 1] for q in range(P) if t > q) + sum(ma[q] @ e[t - q - 1] for q in range(Q) if t > q)
            for prune in (False, True):
                rec.state(("varma_given", p, P, Q, k, v, prune))
                info = dict(order=(P, Q), B0=B0, ar=ar, ma=ma, prune=prune)
                m = lingam.VARMALiNGAM(order=(P, Q), ar_coefs=ar, ma_coefs=ma, prune=prune, random_state=k)
                if not rec.call(m.fit, X).ok:
                    rec.fail("fit with given coefficients failed", **info)
                    continue
                R = np.asarray(m.residuals_)
                s = len(X) - len(R)
                if s != max(P, Q):
                    rec.fail("residuals do not start where the past is complete", got=len(R), **info)
                    continue
                bad = [t for t in range(s + Q, len(X)) if not same(
                    R[t - s], X[t] - sum(ar[q] @ X[t - q - 1] for q in range(P)) - sum(ma[q] @ R[t - q - 1 - s] for q in range(Q)), 1e-8)]
                if bad:
                    rec.fail("residuals do not satisfy the model equation", time=bad[0], **info)
                    continue
                varma_checks(rec, m, X, p, ar, ma, R, prune, (P, Q), info)


def varma_estimated(rec, key, order, crit, prune, maxiter=6, p=2):
    import lingam
    from statsmodels.tsa.statespace.varmax import VARMAX
    X = ar_series(p, key, 1, 40)
    rec.state(("varma_est", key, order, crit, prune))
    info = dict(series=key, order=order, criterion=crit, prune=prune)
    orders = [order] if crit is None else [(a, b) for a in range(order[0] + 1) for b in range(order[1] + 1) if a + b]
    fits = {q: VARMAX(X, order=q, trend="c").fit(maxiter=maxiter, disp=False) for q in orders}
    best = order if crit is None else min(orders, key=lambda q: getattr(fits[q], crit))
    m = lingam.VARMALiNGAM(order=order, criterion=crit, prune=prune, max_iter=maxiter)
    out = rec.call(m.fit, X)
    if not out.ok:
        rec.fail(f"fit failed: {out!r}"[:200], **info)
        return
    psi, omega = m.adjacency_matrices_
    if (len(psi) - 1, len(omega)) != best:
        rec.fail("the order is not the one the criterion prefers", got=(len(psi) - 1, len(omega)), want=best, **info)
        return
    r = fits[best]
    ar = [] if not best[0] else list(np.asarray(r.coefficient_matrices_var))
    ma = [] if not best[1] else list(np.asarray(r.coefficient_matrices_vma))
    R = np.asarray(m.residuals_)
    if not same(R, np.asarray(r.resid), 1e-5):
        rec.fail("residuals are not those of the fitted reduced form", **info)
        return
    varma_checks(rec, m, X, p, ar, ma, R, prune, best, info, tol=1e-4)


# ------------------------------------------------------------------ bootstrap results of time-series models
def pool(p, lags, extra):
    """Alphabet of replicate matrices (p x p*(1+lags) [+ extra moving-average blocks])."""
    out = []
    for k in range(6):
        A = dags(p)[[0, 1, len(dags(p)) - 1, len(dags(p)) // 2, 2, len(dags(p)) // 3][k] % len(dags(p))]
        blocks = [weights(A, [0.5, -0.3, 0.05], k)]
        for q in range(lags):
            M = np.zeros((p, p))
            if k % 3 == 0:
                M += np.diag([0.4, -0.02, 0.3, 0.2, -0.5][:p]) / (q + 1)
            if k % 3 == 1:
                M[0, p - 1], M[p - 1, 0] = 0.6 + q, -0.2
            if k % 3 == 2:
                M += np.triu(np.full((p, p), 0.1 + 0.2 * q)) * (1 if q % 2 else -1)
            blocks.append(M)
        blocks += [np.full((p, p), 9.0 + k)] * extra
        out.append(np.concatenate(blocks, axis=1))
    return out


def boot_paths(rec, p, lags, kind, depth):
    from lingam.var_lingam import VARBootstrapResult
    from lingam.varma_lingam import VARMABootstrapResult
    extra = {"var": 0, "varma1": 1, "varma2": 2}[kind]
    ms = pool(p, lags, extra)
    K = lags + 1
    ref = {}

    def paths(k, s, t, thr):
        key = (k, s, t, thr)
        if key not in ref:
            U = np.zeros((p * K, p * K))
            for a in range(K):
                for b in range(a, K):
                    U[a * p:(a + 1) * p, b * p:(b + 1) * p] = ms[k][:, (b - a) * p:(b - a + 1) * p]
            ref[key] = ref_paths(U, s, t, thr)
        return ref[key]

    for d in range(1, depth + 1):
        for seq in itertools.product(range(len(ms)), repeat=d):
            if d == 3 and (seq[0] > seq[1] or len(set(seq)) == 3 and sum(seq) % 2):
                continue
            ams = [ms[k] for k in seq]
            tes = [np.zeros((p, p * K)) for _ in seq]
            res = VARBootstrapResult(ams, tes) if kind == "var" else VARMABootstrapResult(ams, tes, (lags, extra))
            rec.state((p, lags, kind, seq))
            for f, t, fl, tl, thr in itertools.product(range(p), range(p), range(K), range(K), (None, 0.06)):
                info = dict(kind=kind, replicates=ams, source=(f, fl), target=(t, tl), threshold=thr)
                out = rec.call(res.get_paths, f, t, fl, tl, thr)
                if tl > fl or (tl == fl and f == t):
                    if not out.raised(ValueError):
                        rec.fail("a query backwards in time or of a variable onto itself is not rejected", got=repr(out), **info)
                    continue
                if not out.ok:
                    rec.fail("path query failed", got=repr(out), **info)
                    continue
                want = {}
                for k in seq:
                    for pth, eff in paths(k, fl * p + f, tl * p + t, thr or 0.0):
                        want.setdefault(pth, []).append(eff)
                g = out.value
                gp = [tuple(x) for x in g["path"]]
                okay = len(gp) == len(set(gp)) == len(g["effect"]) == len(g["probability"]) and set(gp) == set(want)
                okay = okay and descending(g["probability"]) and all(
                    same(pr, len(want[x]) / d) and same(e, np.median(want[x])) for x, e, pr in zip(gp, g["effect"], g["probability"]))
                if not okay:
                    rec.fail("bootstrap path table is not a recount on the unrolled graph", got=g, want={str(k): v for k, v in want.items()}, **info)
            rec.trace()
    out = rec.call(res.get_paths, 0, 1, 1, 0, -0.5)
    if not out.raised(ValueError):
        rec.fail("a non-positive threshold is not rejected", got=repr(out))


def bad_inner(rec):
    import lingam
    from sklearn.linear_model import LinearRegression
    X = ar_series(2, 0, 1, 20)
    for bad in ("direct", LinearRegression(), lingam.DirectLiNGAM, 3):
        for cls in (lingam.VARLiNGAM, lingam.VARMALiNGAM):
            rec.state((cls.__name__, repr(bad)))
            out = rec.call(lambda: cls(lingam_model=bad).fit(X))
            if not out.raised(ValueError):
                rec.fail("an object that is not a LiNGAM model is accepted as inner model", cls=cls.__name__, got=repr(out)[:200])
            rec.trace()


def tasks(tier):
    th = tier == "thorough"
    dags(3)
    t = []
    for lags in (1, 2):
        t.append(("var_given", dict(p=2, L=7, lags=lags, lo=0, hi=3, vs=list(range(8 if th else 4)))))
        for lo, hi in chunks(25, 8):
            t.append(("var_given", dict(p=3, L=5, lags=lags, lo=lo, hi=hi, vs=list(range(8 if th else 3)))))
    t.append(("var_given", dict(p=2, L=9, lags=3, lo=0, hi=3, vs=[0, 1])))
    for p in (2, 3):
        for key in range(6 if th else 3):
            t.append(("var_estimated", dict(p=p, keys=[key], lags=3)))
    t.append(("var_estimated", dict(p=2, keys=[5], lags=2, model="ica")))
    for P, Q in ((1, 1), (2, 1), (1, 2)) + (((2, 2), (3, 1)) if th else ()):
        t.append(("varma_given", dict(p=2, P=P, Q=Q, lo=0, hi=3, vs=[0, 1, 2, 3])))
        for lo, hi in chunks(25, 5):
            t.append(("varma_given", dict(p=3, P=P, Q=Q, lo=lo, hi=hi, vs=[0, 1, 2, 3] if th else [1])))
    for key, order, crit, prune in [(0, (1, 1), None, False), (1, (1, 1), "bic", False), (0, (1, 0), None, True), (2, (0, 1), None, False),
                                    (0, (1, 1), "aic", True), (1, (2, 1), None, True), (0, (1, 1), "hqic", False), (3, (1, 2), None, False)]:
        t.append(("varma_estimated", dict(key=key, order=order, crit=crit, prune=prune)))
    if th:
        for key, crit in itertools.product(range(4), ("aic", "bic", "hqic")):
            t.append(("varma_estimated", dict(key=key, order=(1, 1), crit=crit, prune=bool(key % 2))))
        t.append(("varma_estimated", dict(key=5, order=(2, 1), crit="bic", prune=False)))
    for p, lags, kind in itertools.product((2, 3), (1, 2), ("var", "varma1", "varma2")):
        t.append(("boot_paths", dict(p=p, lags=lags, kind=kind, depth=3 if (p == 2 or th) and kind != "varma2" else 2)))
    for kind in ("var", "varma1"):
        t.append(("boot_paths", dict(p=2, lags=3, kind=kind, depth=2 if th else 1)))
    # more variables, more lags, longer series
    for lags, off in ((1, 0), (2, 5), (3, 11)):
        t.append(("var_given", dict(p=4, L=4, lags=lags, lo=off, hi=543, vs=[lags], step=45 if th else 180)))
    t.append(("var_given", dict(p=2, L=9, lags=4, lo=0, hi=3, vs=[0, 3])))
    t.append(("var_given", dict(p=2, L=11, lags=6, lo=0, hi=3, vs=[1])))
    t.append(("var_given", dict(p=2, L=34, lags=2, lo=0, hi=3, vs=[2])))
    for p, lags, rows, q in ((4, 2, (60, 150), 3), (5, 1, (60,), 3), (6, 2 if th else 1, (400,), 2 if th else 1), (2, 5, (120,), 3), (2, 8, (1100,), 3)):
        t.append(("var_estimated", dict(p=p, keys=[1], lags=lags, rows=rows, maxlag=q)))
    t.append(("varma_given", dict(p=4, P=1, Q=1, lo=7, hi=543, vs=[1], m_=90, step=90 if th else 260)))
    t.append(("varma_given", dict(p=2, P=3, Q=2, lo=0, hi=3, vs=[0, 1], m_=150)))
    t.append(("varma_given", dict(p=2, P=1, Q=4, lo=0, hi=3, vs=[0, 1], m_=400)))
    for p, lags, kind in ((4, 1, "var"), (4, 1, "varma1"), (2, 4, "var"), (2, 4, "varma2"), (5, 1, "var")):
        t.append(("boot_paths", dict(p=p, lags=lags, kind=kind, depth=2 if th else 1)))
    t.append(("bad_inner", {}))
    return t
