"""C12  Longitudinal models address the right time points.

Panels are generated from enumerated contemporaneous DAGs and lag matrices, different at every time point, with errors
that are exactly independent across variables and time in the sample; the fitted model must be the generating one, time
point by time point. On arbitrary panels the report is compared with the textbook two-step procedure, and effects and
bootstrap tables with the graph unrolled over time."""
import itertools

import numpy as np

from mc.gen import chunks, dags, exact_noise, rng, same, topo_ok, weights

from .c05 import descending, ref_paths, topn_ok
from .c06 import path_sums
from .c11 import ols

PROPERTY = "C12"
BOUNDS = ("p=2: all sequences of contemporaneous DAGs for T=2..4, n_lags 1-2; p=3: all labelled DAGs; every (from time, from "
          "variable, to time, to variable); bootstrap tables over sequences of <=3 replicate tensors; strided: p<=8, T<=10, 1100 samples")
ASSUMPTIONS = ["the contemporaneous order search and sparse regression themselves are decided by C02"]
W = [0.8, -1.1, 0.6]
TOL = 1e-5


def lagmat(p, t, tau, v):
    M = np.zeros((p, p))
    s = [0.5, -0.4, 0.7][(t + tau + v) % 3] / tau
    kind = (t + 2 * tau + v) % 3
    if kind == 0:
        M += s * np.eye(p)
    elif kind == 1:
        M[0, p - 1], M[p - 1, 0] = s, 0.3
    else:
        M[p - 1] = s
    return M


def exact_panel(p, T, L, n_lags, ids, v):
    """ids: one DAG index per time point >= n_lags."""
    F = exact_noise(T * p, L, kinds=[(k % p) % 3 for k in range(T * p)])
    truth = np.full((T, n_lags + 1, p, p), np.nan)
    Xs, E = [], []
    for t in range(T):
        e = F[:, t * p:(t + 1) * p]
        E.append(e)
        if t < n_lags:
            Xs.append(e @ np.array([[1.0, 0.4, 0.2], [0, 1, 0.5], [0, 0, 1]])[:p, :p] + t)
            continue
        B0 = weights(dags(p)[ids[t - n_lags]], W, t + v)
        truth[t, 0] = B0
        rhs = e.copy()
        for tau in range(1, n_lags + 1):
            truth[t, tau] = lagmat(p, t, tau, v)
            rhs = rhs + Xs[t - tau] @ truth[t, tau].T
        Xs.append(rhs @ np.linalg.inv(np.eye(p) - B0).T + [0.0, 3.0][t % 2])
    return Xs, E, truth


def unroll(adj):
    """(T, lags+1, p, p) -> (T*p, T*p); unavailable (NaN) equations contribute no edge."""
    T, K, p, _ = np.shape(adj)
    U = np.zeros((T * p, T * p))
    for t in range(T):
        for tau in range(K):
            if t - tau >= 0:
                U[t * p:(t + 1) * p, (t - tau) * p:(t - tau + 1) * p] = np.nan_to_num(adj[t][tau])
    return U


def queries(rec, m, Xs, info, estimate=True):
    A = np.asarray(m.adjacency_matrices_)
    T, K, p, _ = A.shape
    n_lags = K - 1
    S = path_sums(unroll(A))
    for ft, f, tt, t in itertools.product(range(n_lags, T), range(p), range(n_lags, T), range(p)):
        if tt < ft:  # backwards in time: answered under protest at most
            for op, a in ((m.estimate_total_effect, (Xs,)), (m.estimate_total_effect2, ())):
                if (ft + f + tt + t) % 3 == 0:
                    out, warned = rec.heard(op, *a, ft, f, tt, t)
                    if out.ok and not warned:
                        rec.fail("a query backwards in time is answered without a warning", source=(ft, f), target=(tt, t), **info)
            continue
        if tt == ft and f == t:
            continue
        q = dict(source=(ft, f), target=(tt, t), **info)
        against = False
        if ft == tt:
            o = [int(x) for x in m.causal_orders_[ft]]
            against = o.index(f) > o.index(t)
        out, warned = rec.heard(m.estimate_total_effect2, ft, f, tt, t)
        if not out.ok or not same(out.value, S[tt * p + t, ft * p + f], 1e-7):
            rec.fail("model total effect is not the path sum of the time-unrolled graph", got=repr(out), want=S[tt * p + t, ft * p + f], **q)
        if warned != against:
            rec.fail("warning about a query against the causal order is wrong", warned=warned, **q)
        if estimate and against and not rec.heard(m.estimate_total_effect, Xs, ft, f, tt, t)[1]:
            rec.fail("an estimate against the causal order is given without a warning", **q)
        if not estimate or against:
            continue
        cols = [Xs[ft][:, [f]]]
        for tau in range(K):
            cols += [Xs[ft - tau][:, [j]] for j in range(p) if abs(A[ft, tau, f, j]) > 0]
        want = ols(np.concatenate(cols, axis=1), Xs[tt][:, t])[0]
        out, warned = rec.heard(m.estimate_total_effect, Xs, ft, f, tt, t)
        if warned:
            rec.fail("an estimate along the causal order is given with a warning about the order", **q)
        if not out.ok or not same(out.value, want, 1e-6):
            rec.fail("estimated total effect does not refer to the requested times and variables", got=repr(out), want=want, **q)


def pvals(rec, m, info):
    from lingam.hsic import hsic_test_gamma
    A = np.asarray(m.adjacency_matrices_)
    T, K, p, _ = A.shape
    out = rec.call(m.get_error_independence_p_values)
    if not out.ok or np.shape(out.value) != (T, p, p):
        rec.fail("error p-values are not one matrix per time point", got=repr(out)[:300], **info)
        return
    for t in range(T):
        got = np.asarray(out.value[t])
        if t < K - 1:
            if not np.isnan(got[~np.eye(p, dtype=bool)]).all():
                rec.fail("error p-values reported for a time point without a model", time=t, got=got, **info)
            continue
        E = np.asarray(m.residuals_[t]) @ (np.eye(p) - A[t, 0]).T
        want = np.zeros((p, p))
        for i, j in itertools.combinations(range(p), 2):
            want[i, j] = want[j, i] = hsic_test_gamma(E[:, [i]], E[:, [j]])[1]
        if not same(got, want, 1e-6):
            rec.fail("error p-values do not belong to the errors of that time point", time=t, got=got, want=want, **info)


def shape_ok(rec, m, T, n_lags, p, info):
    A = np.asarray(m.adjacency_matrices_, float)
    if A.shape != (T, n_lags + 1, p, p) or len(m.causal_orders_) != T or np.shape(m.residuals_)[0] != T:
        rec.fail("results are not indexed by time point", shape=A.shape, **info)
        return False
    if not np.isnan(A[:n_lags]).all() or np.isnan(A[n_lags:]).any():
        rec.fail("unavailable time points are not exactly the ones without enough past", got=np.isnan(A).any((1, 2, 3)), **info)
        return False
    return True


def exact(rec, p, T, L, n_lags, lo, hi, vs, measure="pwling", step=1, pk=False):
    import lingam
    space = list(itertools.product(range(len(dags(p))), repeat=T - n_lags))
    for ids in space[lo:hi:step]:
        for v in vs:
            Xs, E, truth = exact_panel(p, T, L, n_lags, ids, v)
            rec.state((p, T, L, n_lags, ids, v, measure, pk))
            info = dict(T=T, n_lags=n_lags, truth=truth[n_lags:])
            kw = {}
            if pk:  # correct statements: every true contemporaneous or lagged non-edge
                K = np.where(np.nan_to_num(truth) != 0, -1, 0)
                if v % 2:
                    K[:, 1:] = -1
                kw["prior_knowledge"] = K
            m = lingam.LongitudinalLiNGAM(n_lags=n_lags, measure=measure, **kw)
            if not rec.call(m.fit, Xs).ok:
                rec.fail("fit failed", **info)
                continue
            if not shape_ok(rec, m, T, n_lags, p, info):
                continue
            A = np.asarray(m.adjacency_matrices_)
            for t in range(n_lags, T):
                o = [int(x) for x in m.causal_orders_[t]]
                if not topo_ok(o, truth[t, 0]):
                    rec.fail("causal order of a time point contradicts its contemporaneous graph", time=t, order=o, **info)
                    break
                if not same(A[t], truth[t], TOL):
                    rec.fail("coefficients of a time point are not those of its equation", time=t, got=A[t], want=truth[t], **info)
                    break
                R = np.asarray(m.residuals_[t])
                want = E[t] @ np.linalg.inv(np.eye(p) - truth[t, 0]).T
                if not same(R - R.mean(0), want - want.mean(0), 1e-4):
                    rec.fail("residuals do not belong to the equation of their time point", time=t, **info)
                    break
            if len(Xs[0]) <= 1500:
                queries(rec, m, Xs, info)
            else:
                queries(rec, m, Xs, info, estimate=False)
            rec.trace()


def arbitrary_panel(p, T, key, m):
    r = rng("c12", p, T, key)
    Xs = []
    for t in range(T):
        X = r.uniform(-1, 1, (m, p)) ** 3
        for k in range(1, min(t, 2) + 1):
            X = X + Xs[t - k] @ r.uniform(-0.6, 0.6, (p, p)) / k
        B = np.tril(r.choice([0.9, -0.6, 0.0], size=(p, p)), -1)
        pm = r.permutation(p)
        Xs.append((X @ np.linalg.inv(np.eye(p) - B).T)[:, pm] + r.uniform(-3, 3, p))
    return Xs


def arbitrary(rec, p, T, n_lags, keys, m_=26, measure="pwling"):
    import lingam
    for key in keys:
        Xs = arbitrary_panel(p, T, key, m_)
        rec.state(("arb", p, T, n_lags, key, m_, measure))
        info = dict(p=p, T=T, n_lags=n_lags, panel=key, measure=measure)
        m = lingam.LongitudinalLiNGAM(n_lags=n_lags, measure=measure)
        if not rec.call(m.fit, Xs).ok:
            rec.fail("fit failed", **info)
            continue
        if not shape_ok(rec, m, T, n_lags, p, info):
            continue
        A = np.asarray(m.adjacency_matrices_)
        for t in range(n_lags, T):
            Z = np.concatenate([Xs[t - tau] for tau in range(1, n_lags + 1)], axis=1)
            C = np.array([ols(Z, Xs[t][:, i]) for i in range(p)])
            R = Xs[t] - Z @ C.T
            got = np.asarray(m.residuals_[t])
            if not same(got - got.mean(0), R - R.mean(0), 1e-7):
                rec.fail("residuals are not those of the regression on the preceding time points", time=t, **info)
                break
            inner = lingam.DirectLiNGAM(measure=measure)
            inner.fit(got)
            if [int(x) for x in inner.causal_order_] != [int(x) for x in m.causal_orders_[t]]:
                rec.fail("causal order of a time point is not that of its residuals", time=t, **info)
                break
            B0 = np.asarray(inner.adjacency_matrix_)
            want = [B0] + [(np.eye(p) - B0) @ C[:, tau * p:(tau + 1) * p] for tau in range(n_lags)]
            if not same(A[t], np.array(want), 1e-6):
                rec.fail("coefficients of a time point are not those of its equation", time=t, got=A[t], want=np.array(want), **info)
                break
        queries(rec, m, Xs, info)
        pvals(rec, m, info)
        rec.trace()


def informed(rec, p, T, n_lags, keys, m_=30):
    """With prior knowledge: one model over the unrolled variables, only lags within n_lags allowed."""
    import lingam
    for key in keys:
        Xs = arbitrary_panel(p, T, key, m_)
        r = rng("c12pk", p, T, n_lags, key)
        K = r.choice([-1, -1, 0], size=(T, n_lags + 1, p, p))
        K[:, 0][:, np.arange(p), np.arange(p)] = -1
        if key % 3 == 1 and n_lags >= 1:
            K[n_lags:, 1, 0, p - 1] = 1
        rec.state(("pk", p, T, n_lags, key))
        info = dict(p=p, T=T, n_lags=n_lags, panel=key, prior_knowledge=K)
        pk = np.zeros((T * p, T * p))
        for t in range(T):
            for tau in range(n_lags + 1):
                if t >= tau:
                    pk[t * p:(t + 1) * p, (t - tau) * p:(t - tau + 1) * p] = K[t, tau]
        inner = lingam.DirectLiNGAM(prior_knowledge=pk)
        joint = rec.call(inner.fit, np.concatenate(Xs, axis=1))
        m = lingam.LongitudinalLiNGAM(n_lags=n_lags, prior_knowledge=K)
        out = rec.call(m.fit, Xs)
        if out.ok != joint.ok:
            rec.fail("acceptance of the prior knowledge differs from that of the joint model", got=repr(out), want=repr(joint), **info)
            continue
        if not out.ok:
            rec.note("contradictory prior knowledge rejected")
            continue
        if not shape_ok(rec, m, T, n_lags, p, info):
            continue
        B = np.asarray(inner.adjacency_matrix_)
        A = np.asarray(m.adjacency_matrices_)
        for t in range(n_lags, T):
            want = np.array([B[t * p:(t + 1) * p, (t - tau) * p:(t - tau + 1) * p] for tau in range(n_lags + 1)])
            if not same(A[t], want, 1e-7):
                rec.fail("coefficients of a time point are not those of the joint model", time=t, got=A[t], want=want, **info)
                break
            order = [int(x) - t * p for x in inner.causal_order_ if t * p <= x < (t + 1) * p]
            if [int(x) for x in m.causal_orders_[t]] != order:
                rec.fail("causal order of a time point is not the joint order restricted to it", time=t, **info)
                break
            R = np.asarray(m.residuals_[t])
            e = Xs[t] - sum(Xs[t - tau] @ want[tau].T for tau in range(n_lags + 1))
            got = R @ (np.eye(p) - want[0]).T
            if not same(got - got.mean(0), e - e.mean(0), 1e-7):
                rec.fail("residuals do not belong to the equation of their time point", time=t, **info)
                break
        queries(rec, m, Xs, info)
        pvals(rec, m, info)
        rec.trace()


# ------------------------------------------------------------------ bootstrap tables
def tensors(p, T, n_lags):
    out = []
    for k in range(5):
        A = np.full((T, n_lags + 1, p, p), np.nan)
        for t in range(n_lags, T):
            D = dags(p)
            A[t, 0] = weights(D[(k * (t + 1) + t) % len(D)], [0.5, -0.3, 0.05], k + t)
            for tau in range(1, n_lags + 1):
                A[t, tau] = [0, 1, 1, -1, 0.1][k] * lagmat(p, t, tau, k)
        out.append(A)
    return out


def tables(rec, p, T, n_lags, depth, lo, hi):
    from lingam.longitudinal_lingam import LongitudinalBootstrapResult
    ms = tensors(p, T, n_lags)
    eff = [path_sums(unroll(A)) for A in ms]
    for E in eff:
        E[:, : n_lags * p] = 0
    cat = [[np.concatenate(list(A[t]), axis=1) for t in range(T)] for A in ms]
    space = [s for d in range(1, depth + 1) for s in itertools.product(range(len(ms)), repeat=d)]
    pcache = {}

    def paths(k, ft, tt, s, t, thr):
        key = (k, ft, tt, s, t, thr)
        if key not in pcache:
            U = unroll(ms[k])[ft * p:(tt + 1) * p, ft * p:(tt + 1) * p]
            pcache[key] = ref_paths(U, s, (tt - ft) * p + t, thr)
        return pcache[key]

    for seq in space[lo:hi]:
        d = len(seq)
        rec.state((p, T, n_lags, seq))
        R = np.array([ms[k] for k in seq])
        TE = np.array([eff[k] for k in seq])
        keepR, keepT = R.copy(), TE.copy()
        res = LongitudinalBootstrapResult(T, R, TE)
        info = dict(p=p, T=T, n_lags=n_lags, replicates=seq)
        for thr in (None, 0.06):
            h = thr or 0.0
            want = np.mean([np.where(np.abs(np.nan_to_num(ms[k])) > h, 1.0, 0.0) for k in seq], axis=0)
            out = rec.call(res.get_probabilities, thr)
            if not out.ok or not same(np.asarray(out.value), want):
                rec.fail("bootstrap probabilities are not a recount per time point and lag", threshold=thr, got=repr(out)[:300], want=want, **info)
            for top, sign in itertools.product((None, 1, 2), (False, True)):
                out = rec.call(res.get_causal_direction_counts, top, thr, sign)
                dag = rec.call(res.get_directed_acyclic_graph_counts, top, thr, sign)
                if not out.ok or not dag.ok or len(out.value) != T or len(dag.value) != T:
                    rec.fail("counts are not one table per time point", got=repr(out)[:200] + repr(dag)[:200], **info)
                    continue
                for t in range(T):
                    cnt, dc = {}, {}
                    for k in seq:
                        M = np.nan_to_num(cat[k][t])
                        ed = [(j, i) + ((int(np.sign(M[i, j])),) if sign else ()) for i in range(p) for j in range(M.shape[1]) if abs(M[i, j]) > h]
                        for e in ed:
                            cnt[e] = cnt.get(e, 0) + 1
                        dc[frozenset(ed)] = dc.get(frozenset(ed), 0) + 1
                    g = out.value[t]
                    cols = [g["from"], g["to"]] + ([g["sign"]] if sign else [])
                    got = [(tuple(int(x) for x in r), int(c)) for *r, c in zip(*cols, g["count"])]
                    if not topn_ok(got, cnt, top):
                        rec.fail("direction counts of a time point are not a recount", time=t, top=top, threshold=thr, sign=sign, got=g,
                                 want={str(k): v for k, v in cnt.items()}, **info)
                    g = dag.value[t]
                    got = []
                    for D, c in zip(g["dag"], g["count"]):
                        cols = [D["from"], D["to"]] + ([D["sign"]] if sign else [])
                        got.append((frozenset(tuple(int(x) for x in r) for r in zip(*cols)), int(c)))
                    if not topn_ok(got, dc, top):
                        rec.fail("graph counts of a time point are not a recount", time=t, top=top, threshold=thr, sign=sign, got=g, **info)
            out = rec.call(res.get_total_causal_effects, thr)
            want = {}
            for i, j in itertools.product(range(T * p), repeat=2):
                vals = [eff[k][i, j] for k in seq]
                n = sum(abs(x) > h for x in vals)
                if n:
                    want[(j, i)] = (n / d, np.median([x for x in vals if x != 0]))
            if not out.ok:
                rec.fail("total effects failed", got=repr(out), **info)
            else:
                g = out.value
                keys = [(int(a), int(b)) for a, b in zip(g["from"], g["to"])]
                if len(set(keys)) != len(keys) or set(keys) != set(want) or not descending(g["probability"]) or not all(
                        same(pr, want[k][0]) and same(e, want[k][1]) for k, pr, e in zip(keys, g["probability"], g["effect"])):
                    rec.fail("total effect table is not a recount", threshold=thr, got=g, want={str(k): v for k, v in want.items()}, **info)
            for ft, tt, s, t in itertools.product(range(T), range(T), range(p), range(p)):
                out = rec.call(res.get_paths, s, t, ft, tt, thr)
                q = dict(source=(ft, s), target=(tt, t), threshold=thr, **info)
                if tt < ft or (tt == ft and s == t):
                    if not out.raised(ValueError):
                        rec.fail("a query backwards in time or of a variable onto itself is not rejected", got=repr(out), **q)
                    continue
                want = {}
                for k in seq:
                    for pth, e in paths(k, ft, tt, s, t, h):
                        want.setdefault(pth, []).append(e)
                if not out.ok:
                    rec.fail("path query failed", got=repr(out), **q)
                    continue
                g = out.value
                gp = [tuple(x) for x in g["path"]]
                if not (len(gp) == len(set(gp)) == len(g["effect"]) == len(g["probability"]) and set(gp) == set(want)) or not descending(
                        g["probability"]) or not all(same(pr, len(want[x]) / d) and same(e, np.median(want[x]))
                                                     for x, e, pr in zip(gp, g["effect"], g["probability"])):
                    rec.fail("bootstrap path table is not a recount on the unrolled graph", got=g, want={str(k): v for k, v in want.items()}, **q)
        if not (same(np.asarray(res.adjacency_matrices_), keepR, 0) and same(np.asarray(res.total_effects_), keepT, 0)):
            rec.fail("queries changed the recorded replicates", **info)
        rec.trace()


def rejected(rec):
    import lingam
    X = arbitrary_panel(2, 3, 0, 20)
    Z = arbitrary_panel(3, 3, 0, 20)
    bad = {
        "one time point": [X[0]], "not a list": "data", "different variables": [X[0], Z[1]], "different samples": [X[0], X[1][:-1]],
        "number": 3, "missing value": [X[0], np.where(X[1] == X[1][0, 0], np.nan, X[1])],
    }
    for name, D in bad.items():
        for op in ("fit", "bootstrap"):
            rec.state((name, op))
            m = lingam.LongitudinalLiNGAM()
            out = rec.call(lambda: m.fit(D) if op == "fit" else m.bootstrap(D, 1))
            if out.ok or not out.raised(ValueError, TypeError):
                rec.fail("invalid panel is not rejected", case=name, operation=op, got=repr(out)[:200])
            rec.trace()
    for pk in (np.zeros((2, 2)), np.full((2, 2, 2, 2), -1), np.full((3, 1, 2, 2), -1), np.full((3, 2, 3, 3), -1)):
        rec.state(("pk", pk.shape))
        out = rec.call(lambda: lingam.LongitudinalLiNGAM(prior_knowledge=pk).fit(X))
        if not out.raised(ValueError):
            rec.fail("prior knowledge of the wrong shape is not rejected", shape=pk.shape, got=repr(out)[:200])


def tasks(tier):
    th = tier == "thorough"
    dags(3)
    t = []
    for T, n_lags, L, parts in ((2, 1, 5, 1), (3, 1, 4, 3), (3, 2, 4, 1), (4, 1, 3, 6), (4, 2, 3, 3)):
        n = 3 ** (T - n_lags)
        for lo, hi in chunks(n, parts):
            t.append(("exact", dict(p=2, T=T, L=L, n_lags=n_lags, lo=lo, hi=hi, vs=[0, 1, 2] if th or T < 4 else [0])))
    for lo, hi in chunks(25, 8):
        t.append(("exact", dict(p=3, T=2, L=4, n_lags=1, lo=lo, hi=hi, vs=[0, 1] if th else [1])))
    for lo, hi in chunks(625, 16):
        t.append(("exact", dict(p=3, T=3, L=3, n_lags=1, lo=lo, hi=hi, vs=[0], step=1 if th else 13)))
    for T, n_lags in ((2, 1), (3, 1), (3, 2)):
        t.append(("exact", dict(p=2, T=T, L=4, n_lags=n_lags, lo=0, hi=3 ** (T - n_lags), vs=[0, 1], pk=True)))
    for p, T, n_lags in itertools.product((2, 3), (2, 3, 4), (1, 2, 3)):
        if n_lags < T:
            t.append(("arbitrary", dict(p=p, T=T, n_lags=n_lags, keys=list(range(12 if th else 4)))))
            t.append(("informed", dict(p=p, T=T, n_lags=n_lags, keys=list(range(9 if th else 3)))))
    for T, n_lags in ((5, 1), (5, 2), (6, 2), (6, 3), (7, 3)):
        t.append(("arbitrary", dict(p=2, T=T, n_lags=n_lags, keys=list(range(6 if th else 2)))))
        t.append(("informed", dict(p=2, T=T, n_lags=n_lags, keys=list(range(4 if th else 1)))))
    t.append(("arbitrary", dict(p=2, T=3, n_lags=1, keys=[7], m_=14, measure="kernel")))
    for p, T, n_lags in ((2, 2, 1), (2, 3, 1), (2, 3, 2), (3, 3, 1), (2, 4, 2), (2, 4, 3), (2, 5, 1), (2, 5, 2), (2, 6, 3)):
        depth = 3 if (p, T) in ((2, 2), (2, 3)) or (th and T < 5) else 2 if T < 5 or th else 1
        n = sum(5 ** d for d in range(1, depth + 1))
        for lo, hi in chunks(n, 4 if depth == 3 else 2):
            t.append(("tables", dict(p=p, T=T, n_lags=n_lags, depth=depth, lo=lo, hi=hi)))
    # more variables, samples and time points
    for p, T, n_lags, m_ in ((5, 3, 1, 60), (6, 3, 2, 120), (4, 4, 2, 300), (2, 10, 4, 60), (3, 3, 1, 1100), (8, 2, 1, 40)):
        t.append(("arbitrary", dict(p=p, T=T, n_lags=n_lags, keys=list(range(3 if th else 1)), m_=m_)))
    for p, T, n_lags, m_ in ((4, 3, 1, 60), (5, 2, 1, 120), (2, 8, 2, 80), (3, 3, 2, 600)):
        t.append(("informed", dict(p=p, T=T, n_lags=n_lags, keys=list(range(3)), m_=m_)))
    for p, T, n_lags in ((4, 3, 1), (4, 2, 1), (2, 8, 2)):
        t.append(("tables", dict(p=p, T=T, n_lags=n_lags, depth=2, lo=0, hi=30 if th else 3)))
    t.append(("rejected", {}))
    return t
