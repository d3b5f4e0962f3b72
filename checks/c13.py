"""C13  Estimated total effects and error diagnostics match the fitted model.

(A) every labelled DAG on 2..4 variables with exactly independent errors: for every ordered pair the data-based and the
model-based total effect equal the true one. (B) every estimator of the catalog on a family of datasets and under
arbitrary test verdicts (so that confounded pairs and unresolved blocks occur), queried on the training data and on other
data: every answer is recomputed from the reported model."""
import itertools

import numpy as np

from mc.catalog import catalog, linear
from mc.gen import chunks, dags, is_dag, rng, same, weights
from mc.oracle import exact_tests

from .c02 import _groups, dataset, maker
from .c06 import path_sums
from .c11 import ols

PROPERTY = "C13"
BOUNDS = "all labelled DAGs n=2,3,4 (exact data) x all pairs x estimators; catalog estimators x datasets x arbitrary verdicts x all pairs (also 5-9 variables, 340 rows)"
ASSUMPTIONS = ["the independence test itself is decided by C20"]


def before(model, f, t):
    """Does the fitted model place t strictly before f?"""
    if hasattr(model, "ancestors_list_"):
        return t in model.ancestors_list_[f]
    pos = {}
    for k, v in enumerate(model.causal_order_):
        for x in (v if hasattr(v, "__iter__") else [v]):
            pos[int(x)] = k
    return pos[f] > pos[t]


def mats(m):
    return [np.asarray(a, float) for a in (m.adjacency_matrices_ if hasattr(m, "adjacency_matrices_") else [m.adjacency_matrix_])]


def pair(rec, m, Ds, f, t, multi, has2, info):
    """One query answered from data and from the model."""
    As = mats(m)
    q = dict(source=f, target=t, model=As[0], **info)
    against = before(m, f, t)
    latent = any(np.isnan(A[f]).any() for A in As)
    data = Ds if multi else Ds[0]
    out, warned = rec.heard(m.estimate_total_effect, data, f, t)
    if warned != (against or latent):
        rec.fail("a warning is issued exactly when the query contradicts the order or the source is confounded: not so", warned=warned, **q)
    if not out.ok:
        rec.fail("total effect query failed", got=repr(out), **q)
        return
    got = out.value if multi else [out.value]
    want = []
    for A, D in zip(As, Ds):
        if np.isnan(A[f]).any():
            want.append(np.nan)
            continue
        par = [int(j) for j in np.where(np.abs(A[f]) > 0)[0]]
        want.append(None if t in par else ols(D[:, [f] + par], D[:, t])[0])
    if len(got) != len(want) or not all(w is None or same(g, w, 1e-6) for g, w in zip(got, want)):
        rec.fail("the total effect is not the source's coefficient given the source and its parents", got=got, want=want, **q)
    if has2 and all(is_dag(A) for A in As):
        out, warned = rec.heard(m.estimate_total_effect2, f, t)
        want = [np.nan if np.isnan(A[f]).any() else path_sums(A)[t, f] for A in As]
        got = None if not out.ok else out.value if multi else [out.value]
        if got is None or len(got) != len(want) or not same(list(got), want, 1e-7):
            rec.fail("the model-based total effect is not the sum over directed paths", got=repr(out), want=want, **q)
        if warned != (against or latent):
            rec.fail("a warning is issued exactly when the query contradicts the order or the source is confounded: not so", warned=warned, **q)


def pvalues(rec, m, Ds, multi, info):
    from lingam.hsic import hsic_test_gamma
    out = rec.call(m.get_error_independence_p_values, Ds if multi else Ds[0])
    if not out.ok:
        rec.fail("error p-values failed", got=repr(out), **info)
        return
    got = out.value if multi else [out.value]
    As = mats(m)
    if len(got) != len(As):
        rec.fail("error p-values are not one matrix per group", **info)
        return
    for g, A, D in zip(got, As, Ds):
        n = len(A)
        latent = np.isnan(A).any(0) | np.isnan(A).any(1)
        E = D - D @ np.nan_to_num(A).T
        want = np.zeros((n, n))
        for i, j in itertools.combinations(range(n), 2):
            want[i, j] = want[j, i] = np.nan if latent[i] or latent[j] else hsic_test_gamma(E[:, [i]], E[:, [j]])[1]
        if not same(np.asarray(g), want, 1e-6):
            rec.fail("error p-values are not the tests of the fitted model's residuals", got=g, want=want, model=A, **info)


def exact(rec, name, n, L, lo, hi, step=1, tests=False):
    multi = name in ("multigroup", "mg_rcd")
    has2 = name in ("multigroup", "mg_rcd", "rcd", "parce")
    for k in range(lo, hi, step):
        A, B, X = dataset(n, k, L, "a", 10, False)
        Bs, Ds = [B], [X]
        if multi:
            Bs, Ds = _groups(A, B, n, L, k)
        m = maker(name, n)()
        rec.state((name, n, k, L))
        with exact_tests():
            out = rec.call(m.fit, Ds if multi else X)
        if not out.ok or not all(same(a, b, 1e-4) for a, b in zip(mats(m), Bs)):
            rec.note("model not recovered (see C02)")
            continue
        T = [path_sums(b) for b in Bs]
        info = dict(estimator=name, B=B)
        for f, t in itertools.permutations(range(n), 2):
            pair(rec, m, Ds, f, t, multi, has2, info)
            if before(m, f, t):
                continue
            out = rec.call(m.estimate_total_effect, Ds if multi else X, f, t)
            got = None if not out.ok else out.value if multi else [out.value]
            if got is None or not same(list(got), [x[t, f] for x in T], 1e-4):
                rec.fail("the estimated total effect is not the true one on exactly generated data", source=f, target=t,
                         got=repr(out), want=[x[t, f] for x in T], **info)
        rec.trace()


def anydata(rec, name, keys, sizes=(2, 3, 4), rows=22):
    e = catalog(salts=(1, 2, 3, 4))[name]
    multi = e.kind == "multi"
    has2 = any("model total" in q[0] for q in e.queries)
    for key, n in itertools.product(keys, sizes):
        if ("pk" in name or "soft" in name) and n != 3:
            continue
        if multi:
            train = [linear(n, ("c13", key, g), m=rows - 2 + 3 * g) for g in range(2)]
            other = [linear(n, ("c13b", key, g), m=rows - 5 + g) for g in range(2)]
        else:
            train, other = [linear(n, ("c13", key), m=rows)], [linear(n, ("c13b", key), m=rows - 5)]
        m = e.make()
        rec.state((name, key, n))
        with e.env():
            out = rec.call(m.fit, train if multi else train[0])
        if not out.ok:
            rec.note("fit raised")
            continue
        for which, Ds in (("training", train), ("other", other)):
            info = dict(estimator=name, dataset=(key, n), data=which)
            for f, t in itertools.permutations(range(n), 2):
                pair(rec, m, Ds, f, t, multi, has2, info)
            pvalues(rec, m, Ds, multi, info)
        rec.trace()


def tasks(tier):
    th = tier == "thorough"
    dags(4)
    t = []
    for name in ("direct", "ica", "highdim", "multigroup", "parce", "rcd", "mg_rcd"):
        t.append(("exact", dict(name=name, n=2, L=9, lo=0, hi=3)))
        for lo, hi in chunks(25, 3):
            t.append(("exact", dict(name=name, n=3, L=6, lo=lo, hi=hi)))
        for lo, hi in chunks(543, 12):
            t.append(("exact", dict(name=name, n=4, L=5, lo=lo, hi=hi, step=1 if th else 6)))
    # time series and panels: the explorers of C11 and C12 answer every query at every lag and time point
    from .c11 import tasks as lagged
    from .c12 import tasks as panel
    t += [("c11." + f, kw) for f, kw in lagged(tier) if f in ("var_given", "varma_given")]
    t += [("c12." + f, kw) for f, kw in panel(tier) if f in ("exact", "arbitrary")][::1 if th else 4]
    for name, e in catalog(salts=(1, 2, 3, 4)).items():
        if e.kind in ("single", "multi") and e.queries and "resit" not in name:
            slow = any(x in name for x in ("rcd", "parce", "kernel"))
            if not ("pk" in name or "soft" in name):
                t.append(("anydata", dict(name=name, keys=[0, 1], sizes=(5,) if slow else (6, 9), rows=40)))
            t.append(("anydata", dict(name=name, keys=[2], sizes=(3,), rows=60 if slow else 340)))
            K = 24 if th else 6 if "arb" in name else 3
            for ks in np.array_split(np.arange(K), 3 if K > 3 else 1):
                t.append(("anydata", dict(name=name, keys=[int(k) for k in ks])))
    return t
