"""C02  Exact recovery of identifiable linear non-Gaussian models.

Every labelled DAG on 2..4 variables x weights x error laws x scales is turned into a dataset whose empirical error
law is *exactly* a product measure (full-factorial design), so that the population statement of identifiability
applies to the sample itself and the estimators have to return the generating model.
Estimators whose statistics are consistent on such data run with their real statistics; the ones that threshold
p-values are additionally run with the exact verdict of every independence/correlation/normality question."""
import contextlib
import itertools

import numpy as np

from checks.c01 import ica_true  # noqa: F401  (exact unmixing matrices, cancelling coefficients included)
from mc.gen import chunks, dags, lingam_data, rng, topo_ok, weights
from mc.oracle import exact_tests

PROPERTY = "C02"
BOUNDS = "all labelled DAGs n=2,3,4 (every 307th of n=5, graphs of in-degree 3 on 6 variables under every 7th relabelling) x weight alphabets x error laws x scales/means; full-factorial exact errors (4-9 levels)"
ASSUMPTIONS = ["errors exactly independent in the sample, one common non-Gaussian family per configuration",
               "population verdicts for threshold-based tests (CAM-UV, RCD) are supplied exactly"]
WALPH = {"a": [0.8, -1.3, 0.6], "b": [-0.7, 1.1], "c": [1.5, 0.5, -0.9, -2.0], "d": [3.0, -0.4], "e": [0.9, 1.4, 0.7]}
TOL = 1e-5


def dataset(n, k, L, walph, kinds, scaled):
    A = dags(n)[k]
    B = weights(A, WALPH[walph], k)
    scales = [1.0] * n if not scaled else [[100.0, 150.0, 80.0, 120.0], [0.013, 0.008, 0.01, 0.011]][k % 2][:n]
    kk = [(kinds + (i if kinds >= 10 else 0)) % 10 % 4 for i in range(n)]
    mean = None if not scaled else [5.0, -3.0, 0.0, 100.0][:n]
    return A, B, lingam_data(B, L, kk, scales, mean)


def _groups(A, B, n, L, k):
    B2 = weights(A, [1.2, 0.6, 0.8], k + 1)
    return [B, B2], [lingam_data(B, L), lingam_data(B2, L, kinds=[(i + 1) % 3 for i in range(n)], mean=[1.0] * n)]


def maker(name, n):
    import lingam
    from sklearn.linear_model import LinearRegression

    return {
        "direct": lambda: lingam.DirectLiNGAM(),
        "kernel": lambda: lingam.DirectLiNGAM(measure="kernel"),
        "ica": lambda: lingam.ICALiNGAM(random_state=0),
        "highdim": lambda: lingam.HighDimDirectLiNGAM(alpha=0.0),
        "multigroup": lambda: lingam.MultiGroupDirectLiNGAM(),
        "parce": lambda: lingam.BottomUpParceLiNGAM(),
        "resit": lambda: lingam.RESIT(regressor=LinearRegression()),
        "rcd": lambda: lingam.RCD(max_explanatory_num=n - 1, MLHSICR=False),
        "rcd_mlhsicr": lambda: lingam.RCD(max_explanatory_num=n - 1, MLHSICR=True),
        "rcd_fcorr": lambda: lingam.RCD(max_explanatory_num=n - 1, independence="fcorr", ind_corr=0.001),
        "camuv": lambda: lingam.CAMUV(num_explanatory_vals=n),
        "camuv_fcorr": lambda: lingam.CAMUV(num_explanatory_vals=n, independence="fcorr", ind_corr=0.01),
        "mg_rcd": lambda: lingam.MultiGroupRCD(max_explanatory_num=n - 1, MLHSICR=False),
        "mg_rcd_fcorr": lambda: lingam.MultiGroupRCD(max_explanatory_num=n - 1, independence="fcorr", ind_corr=0.001),
        "mg_camuv": lambda: lingam.MultiGroupCAMUV(num_explanatory_vals=n),
    }[name]


def explore(rec, name, n, L, lo, hi, walph="a", kinds=10, scaled=False, exact=False, step=1):
    multi = name in ("multigroup", "mg_rcd", "mg_rcd_fcorr", "mg_camuv")
    structure_only = name in ("camuv", "camuv_fcorr", "mg_camuv")
    order = name in ("direct", "kernel", "ica", "highdim", "multigroup", "resit", "parce")
    for k in range(lo, hi, step):
        A, B, X = dataset(n, k, L, walph, kinds, scaled)
        Bs, data = [B], X
        if multi:
            Bs, data = _groups(A, B, n, L, k)
            if name == "mg_camuv":  # one structure common to the groups
                Bs = Bs[:1]
        m = maker(name, n)()
        with (exact_tests() if exact else contextlib.nullcontext()):
            out = rec.call(m.fit, data)
        rec.state((name, n, k, L, walph, kinds, scaled, exact))
        info = dict(estimator=name, B=B, L=L, weights=walph, law=kinds, scaled=scaled)
        if not out.ok:
            rec.fail(f"{name}: fit failed on exact model data: {out!r}"[:250], **info)
            continue
        got = m.adjacency_matrices_ if multi and name != "mg_camuv" else [m.adjacency_matrix_]
        if order:
            o = list(m.causal_order_)
            if any(isinstance(v, (list, tuple, np.ndarray)) for v in o):
                rec.fail(f"{name}: unresolved block although there is no hidden confounder", order=repr(o), **info)
                continue
            if not topo_ok(o, A):
                rec.fail(f"{name}: causal order contradicts the true graph", order=[int(v) for v in o], **info)
                continue
        if name == "resit":
            rec.trace()
            continue
        if len(got) != len(Bs):
            rec.fail(f"{name}: number of coefficient matrices is not the number of groups", **info)
            continue
        for g, t in zip(got, Bs):
            g = np.asarray(g, float)
            if g.shape != t.shape or np.isnan(g).any():
                rec.fail(f"{name}: pairs marked as confounded although there is no hidden confounder", got=g, **info)
            elif not np.array_equal(np.abs(g) > TOL, t != 0):
                rec.fail(f"{name}: recovered parents are not the true parents", got=g, true=t, **info)
            elif not structure_only and not np.allclose(g, t, atol=TOL, rtol=TOL):
                rec.fail(f"{name}: recovered coefficients are not the true coefficients", got=g, true=t, **info)
        rec.trace()
    rec.sample(dict(info, got=got[0]))


SHAPES6 = [((2, 4), (3, 4), (4, 5), (2, 5)), ((2, 4), (3, 4), (4, 5), (2, 5), (3, 5)),
           ((0, 4), (1, 4), (2, 4), (4, 5), (0, 5), (1, 5), (2, 5)), ((1, 4), (2, 4), (3, 4), (4, 5), (1, 5), (2, 5), (3, 5)),
           ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 5), (1, 5))]


def six(rec, name, shape, lo, hi, step):
    """Graphs on 6 variables whose in-degree reaches the size of the conditioning sets, under relabellings."""
    from lingam import DirectLiNGAM, HighDimDirectLiNGAM
    for perm in list(itertools.permutations(range(6)))[lo:hi:step]:
        B = np.zeros((6, 6))
        for k, (a, b) in enumerate(SHAPES6[shape]):
            B[perm[b], perm[a]] = [0.9, -1.2, 0.7, 1.4][k % 4]
        m = HighDimDirectLiNGAM(alpha=0.0, estimate_adj_mat=False) if name == "highdim" else DirectLiNGAM()
        X = lingam_data(B, 4)
        rec.state(("six", name, shape, perm))
        out = rec.call(m.fit, X)
        if not out.ok or not topo_ok(m.causal_order_, (B != 0).astype(int)):
            rec.fail(f"{name}: causal order contradicts the true graph", B=B, got=repr(out) if not out.ok else m.causal_order_)
        rec.trace()


def true_statements(B, mode):
    """Prior-knowledge matrices that say only true things about the model."""
    n = len(B)
    R = np.abs(np.linalg.inv(np.eye(n) - B)) > 1e-9
    full = np.where(R, 1, 0)
    np.fill_diagonal(full, -1)
    if mode in ("single", "both"):
        for i in range(n):
            for j in range(n):
                if i != j:
                    pk = -np.ones((n, n), int)
                    pk[i, j] = full[i, j]
                    yield pk
    if mode in ("full", "both"):
        yield full
        yield np.where(full == 0, 0, -1)
        yield np.where(full == 1, 1, -1)


def informed(rec, n, L, lo, hi, mode, step=1):
    """Correct prior knowledge never spoils the recovery."""
    import lingam
    makers = {
        "direct": lambda pk: lingam.DirectLiNGAM(prior_knowledge=pk),
        "direct softly": lambda pk: lingam.DirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=True),
        "multi-group": lambda pk: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk),
        "bottom-up": lambda pk: lingam.BottomUpParceLiNGAM(prior_knowledge=pk),
        "bottom-up fcorr": lambda pk: lingam.BottomUpParceLiNGAM(prior_knowledge=pk, independence="fcorr", ind_corr=0.001),
    }
    for k in range(lo, hi, step):
        A, B, X = dataset(n, k, L, "a", 10, False)
        for pk in true_statements(B, mode):
            for name, mk in makers.items():
                rec.state(("informed", n, k, pk.tobytes(), name))
                m = mk(pk)
                with exact_tests():
                    out = rec.call(m.fit, [X, X * 1.5] if name == "multi-group" else X)
                info = dict(estimator=name, B=B, prior_knowledge=pk)
                if not out.ok:
                    rec.fail(f"{name}: fit with correct prior knowledge failed: {out!r}"[:250], **info)
                    continue
                got = m.adjacency_matrices_[1] if name == "multi-group" else m.adjacency_matrix_
                rec.trace()
                if not np.allclose(got, B, atol=TOL, rtol=TOL):
                    rec.fail(f"{name}: correct prior knowledge leads to a wrong model", got=got, **info)


def tasks(tier):
    th = tier == "thorough"
    dags(4)
    t = []

    def add(name, n, L, parts=1, **kw):
        N = {2: 3, 3: 25, 4: 543, 5: 29281}[n]
        for lo, hi in chunks(N, parts):
            t.append(("explore", dict(name=name, n=n, L=L, lo=lo, hi=hi, **kw)))

    for name in ("direct", "ica", "highdim"):
        for w in WALPH:
            for kinds in (0, 3, 10, 11):
                for sc in (False, True):
                    add(name, 2, 9, walph=w, kinds=kinds, scaled=sc)
        for w in ("a", "e", "b"):
            for kinds in (10, 0)[1 if w == "b" else 0:]:
                for sc in (False, True):
                    add(name, 3, 7, walph=w, kinds=kinds, scaled=sc)
        add(name, 4, 5, parts=24, walph="a", kinds=10, step=1)
        if th:
            if name != "ica":
                add(name, 4, 5, parts=24, walph="e", kinds=10)
            if name != "ica":
                add(name, 4, 6, parts=24, walph="a", kinds=0)
                add(name, 4, 5, parts=24, walph="a", kinds=10, scaled=True)
    add("kernel", 2, 9, kinds=0)
    add("kernel", 2, 9, kinds=1)
    add("kernel", 3, 5, parts=12, kinds=1, walph="e")
    if th:
        add("kernel", 3, 6, parts=25, kinds=1, walph="e")
    for name in ("multigroup", "parce"):
        add(name, 2, 9)
        add(name, 3, 6, parts=6)
    add("multigroup", 4, 5, parts=24, walph="e")
    for name in ("parce", "resit", "rcd", "rcd_mlhsicr", "rcd_fcorr", "camuv", "camuv_fcorr", "mg_rcd", "mg_rcd_fcorr", "mg_camuv"):
        add(name, 2, 7, exact=True)
        add(name, 3, 6, parts=4, exact=True)
        if name != "rcd_mlhsicr":
            add(name, 4, 4, parts=24, exact=True, step=1 if th else 7)
    for sh in range(len(SHAPES6)):
        for lo, hi in chunks(720, 4):
            t.append(("six", dict(name="highdim", shape=sh, lo=lo, hi=hi, step=1 if th else 7)))
            t.append(("six", dict(name="direct", shape=sh, lo=lo, hi=hi, step=5 if th else 61)))
    for name, st in (("direct", 307), ("highdim", 307), ("multigroup", 1201)):
        add(name, 5, 4, parts=4, step=st if not th else st // 6, walph="e")
    t.append(("ica_true", dict(n=3, lo=0, hi=25)))
    for lo, hi in chunks(543, 8):
        t.append(("ica_true", dict(n=4, lo=lo, hi=hi)))
    for lo, hi in chunks(25, 8):
        t.append(("informed", dict(n=3, L=5, lo=lo, hi=hi, mode="both")))
    for lo, hi in chunks(543, 24):
        t.append(("informed", dict(n=4, L=4, lo=lo, hi=hi, mode="both" if th else "full", step=1 if th else 5)))
    return t
