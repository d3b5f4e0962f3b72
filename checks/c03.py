"""C03  Hard prior knowledge is always obeyed.

All prior-knowledge matrices over {-1 unknown, 0 no path, 1 path} on 3 variables, and all with at most 3 known entries
on 4 variables, x data generated by opposing causal orders, on every estimator that takes prior knowledge. The
regression is run for real and, adversarially, as an oracle that declares every offered predictor a parent, so that
any forbidden predictor that is offered becomes visible."""
import contextlib
import itertools

import numpy as np

from mc.env import explore, replaced
from mc.gen import chunks, dags, lingam_data, rng, weights
from mc.oracle import exact_tests
from mc.ref import direct_order
from checks.c01 import all_parents

PROPERTY = "C03"
BOUNDS = "all 3^6 matrices n=3; all with <=3 known entries n=4; all forbidden-pair sets n=3 (CAM-UV); all single-time-point matrices T=3,p=2 (longitudinal); 39 shapes of knowledge n=5,6,8"
ASSUMPTIONS = ["ties of the search statistic (1e-9) are not resolved by the order comparison"]


def pairs(n):
    return [(i, j) for i in range(n) for j in range(n) if i != j]


def matrix(n, vals, diag=-1):
    pk = np.full((n, n), diag)
    for v, (i, j) in zip(vals, pairs(n)):
        pk[i, j] = v
    return pk


def cyclic(n, rel):
    """rel: set of (before, after)."""
    left = set(range(n))
    while left:
        free = [v for v in left if not any(b == v and a in left for a, b in rel)]
        if not free:
            return True
        left -= set(free)
    return False


def relations(pk):
    n = len(pk)
    paths = {(j, i) for i in range(n) for j in range(n) if i != j and pk[i, j] == 1}
    rel = set(paths)
    for i in range(n):
        for j in range(n):
            if i != j and pk[i, j] == 0 and pk[j, i] != 0:
                rel.add((i, j))
    return paths, rel


def position(order):
    pos = {}
    for k, v in enumerate(order):
        for w in (v if hasattr(v, "__iter__") else [v]):
            pos[int(w)] = k
    return pos


def judge(rec, pk, order, mats, info, blocks=False):
    n = len(pk)
    pos = position(order)
    if sorted(pos) != list(range(n)):
        rec.fail("order is not a permutation of the variables", order=repr(order), **info)
        return
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            if pk[i, j] == 1 and not (pos[j] < pos[i] or (blocks and pos[j] == pos[i])):
                rec.fail("the source of a required path is placed after its target", order=repr(order), src=j, dst=i, **info)
                return
            if pk[i, j] == 0 and pk[j, i] == 1 and pos[i] > pos[j]:
                rec.fail("order contradicts the prior knowledge", order=repr(order), **info)
                return
            if pk[i, j] == 0:
                for B in mats:
                    if not np.isnan(B[i, j]) and B[i, j] != 0:
                        rec.fail("a coefficient is reported where prior knowledge excludes any path", B=B, src=j, dst=i, **info)
                        return


def rot_data(n, v, m=60):
    """Dense model with causal order = v-th permutation."""
    p = list(itertools.permutations(range(n)))[v]
    B = np.zeros((n, n))
    for a in range(n):
        for b in range(a):
            B[p[a], p[b]] = [0.9, -0.7, 0.6][(a + b) % 3]
    E = rng("c03", n).uniform(-1, 1, size=(m, n)) ** 3
    return E @ np.linalg.inv(np.eye(n) - B).T


def estimator(name, pk):
    import lingam

    return {
        "direct": lambda: lingam.DirectLiNGAM(prior_knowledge=pk),
        "kernel": lambda: lingam.DirectLiNGAM(prior_knowledge=pk, measure="kernel"),
        "multigroup": lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk),
        "parce": lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk),
        "parce_fcorr": lambda: lingam.BottomUpParceLiNGAM(prior_knowledge=pk, independence="fcorr"),
    }[name]()


@contextlib.contextmanager
def verdict(kind):
    """Answer of the independence test for bottom-up search."""
    if kind is None:
        yield
        return
    from lingam.hsic import hsic_test_gamma
    from lingam.utils import f_correlation

    cnt = itertools.count()

    def hs(*a, **k):
        i = next(cnt)
        ind = {"ind": True, "dep": False, "mix": i % 5 != 4}[kind]
        return (0.1, 0.9) if ind else (50.0, 1e-12)

    def fc(*a, **k):
        i = next(cnt)
        return {"ind": 0.01, "dep": 0.99, "mix": 0.99 if i % 5 == 4 else 0.05}[kind]

    with replaced((hsic_test_gamma, hs), (f_correlation, fc)):
        yield


def one(rec, name, pk, X, info, kind=None, stub=True):
    n = len(pk)
    paths, rel = relations(pk)
    m = estimator(name, pk)
    with (all_parents() if stub else contextlib.nullcontext()), verdict(kind):
        out = rec.call(m.fit, [X, X[::-1] * 2.0 + 1] if name == "multigroup" else X)
    rec.trace()
    if cyclic(n, paths):
        if out.ok:
            rec.fail("contradictory required paths were accepted", order=repr(m.causal_order_), **info)
        elif not out.raised(ValueError):
            rec.fail(f"contradictory prior knowledge must give a ValueError, got {out!r}"[:200], **info)
        return
    if not out.ok:
        if not cyclic(n, rel):
            rec.fail(f"satisfiable prior knowledge rejected: {out!r}"[:200], **info)
        else:
            rec.note("no-path declarations not orderable: refused")
        return
    mats = m.adjacency_matrices_ if name == "multigroup" else [m.adjacency_matrix_]
    judge(rec, pk, m.causal_order_, mats, dict(info, estimator=name), blocks=name.startswith("parce"))


def three(rec, name, lo, hi, datasets, kinds=(None,), real=False):
    n = 3
    for k, vals in enumerate(itertools.product([-1, 0, 1], repeat=6)):
        if not lo <= k < hi:
            continue
        pk = matrix(n, vals, diag=[-1, 0][k % 2])
        for v in datasets:
            for kind in kinds:
                rec.state((name, vals, v, kind))
                info = {"pk": pk, "data_order": v, "verdict": kind}
                X = rot_data(n, v, 24 if name == "kernel" else 60)
                one(rec, name, pk, X, info, kind)
                if real:
                    one(rec, name, pk, X, info, kind, stub=False)
    rec.sample({"estimator": name, "pk": pk})


def four(rec, name, lo, hi, datasets, kinds=(None,)):
    n = 4
    k = 0
    for r in (1, 2, 3):
        for cells in itertools.combinations(range(12), r):
            for vals in itertools.product([0, 1], repeat=r):
                k += 1
                if not lo <= k < hi:
                    continue
                v12 = [-1] * 12
                for c, v in zip(cells, vals):
                    v12[c] = v
                pk = matrix(n, v12)
                for v in datasets:
                    for kind in kinds:
                        rec.state((name, tuple(v12), v, kind))
                        one(rec, name, pk, rot_data(n, v), {"pk": pk, "data_order": v, "verdict": kind}, kind)


def roles(rec, n):
    """Every assignment of roles (free, exogenous, sink) and optional path, through the helper, on real data."""
    import lingam
    from lingam.utils import make_prior_knowledge

    nperm = len(list(itertools.permutations(range(n))))
    for role in itertools.product([0, 1, 2], repeat=n):
        exo = [i for i in range(n) if role[i] == 1]
        snk = [i for i in range(n) if role[i] == 2]
        pk = make_prior_knowledge(n, exogenous_variables=exo or None, sink_variables=snk or None)
        for v in range(0, nperm, 1 if n == 3 else 5):
            X = rot_data(n, v)
            for name, stub in (("direct", True), ("direct", False), ("multigroup", True), ("parce", True)):
                rec.state(("roles", role, v, name, stub))
                m = estimator(name, pk)
                with (all_parents() if stub else contextlib.nullcontext()), verdict("ind" if name == "parce" else None):
                    out = rec.call(m.fit, [X, X * 2] if name == "multigroup" else X)
                rec.trace()
                info = dict(exogenous=exo, sink=snk, estimator=name, data=v)
                if not out.ok:
                    rec.fail(f"role prior knowledge rejected: {out!r}"[:200], **info)
                    continue
                for B in (m.adjacency_matrices_ if name == "multigroup" else [m.adjacency_matrix_]):
                    if any(np.any(np.nan_to_num(B)[i]) for i in exo):
                        rec.fail("an exogenous variable got an incoming edge", B=B, **info)
                    if any(np.any(np.nan_to_num(B)[:, j]) for j in snk):
                        rec.fail("a sink variable got an outgoing edge", B=B, **info)


def helper(rec, lo, hi):
    """make_prior_knowledge encodes exactly what was asked (non-contradictory requests)."""
    from lingam.utils import make_prior_knowledge

    n = 3
    P = pairs(n)
    small = [c for r in (0, 1, 2) for c in itertools.combinations(P, r)]
    subsets = [c for r in range(n + 1) for c in itertools.combinations(range(n), r)]
    k = 0
    for exo in subsets:
        for snk in subsets:
            for paths in small:
                for nop in small:
                    k += 1
                    if not lo <= k < hi:
                        continue
                    zero = {(t, f) for f, t in nop} | {(e, j) for e in exo for j in range(n)} | {(i, s) for s in snk for i in range(n)}
                    one_ = {(t, f) for f, t in paths}
                    if one_ & zero:
                        continue
                    want = np.full((n, n), -1)
                    for i in range(n):
                        for j in range(n):
                            if i != j:
                                want[i, j] = 0 if (i, j) in zero else 1 if (i, j) in one_ else -1
                    forms = [lambda c: list(c), lambda c: tuple(c)]
                    if k % 3 == 0:
                        forms.append(lambda c: np.array(c) if len(c) else None)
                    for f in forms[k % 2:]:
                        out = rec.call(make_prior_knowledge, n, exogenous_variables=f(exo), sink_variables=f(snk),
                                       paths=f(paths), no_paths=f(nop))
                        rec.state(("helper", exo, snk, paths, nop))
                        rec.trace()
                        if not out.ok or not np.array_equal(np.asarray(out.value), want):
                            rec.fail("prior-knowledge matrix does not encode the request", exogenous=exo, sink=snk, paths=paths,
                                     no_paths=nop, got=repr(out), want=want)
    for n in (1, 2, 5):
        out = rec.call(make_prior_knowledge, n)
        if not out.ok or not np.array_equal(out.value, np.full((n, n), -1)):
            rec.fail("empty request must give an all-unknown matrix", n=n, got=repr(out))


def shapes(rec):
    import lingam

    X = rot_data(3, 0)
    for name in ("direct", "kernel", "multigroup", "parce"):
        for shape in ((2, 2), (4, 4), (3, 2), (2, 3), (3, 4)):
            m = estimator(name, np.full(shape, -1))
            out = rec.call(m.fit, [X, X * 2] if name == "multigroup" else X)
            rec.state((name, shape))
            rec.trace()
            if not out.raised(ValueError):
                rec.fail("prior knowledge of the wrong shape accepted", estimator=name, shape=shape, got=repr(out))
        # representation of the matrix must not matter
        pk = matrix(3, (0, -1, 1, -1, 0, 0))
        import pandas as pd

        res = []
        for form in (pk, pk.astype(float), pk.tolist(), pd.DataFrame(pk), np.asfortranarray(pk), np.where(pk < 0, -7, pk)):
            m = estimator(name, form)
            with verdict("ind" if name == "parce" else None):
                out = rec.call(m.fit, [X, X * 2] if name == "multigroup" else X)
            if not out.ok:
                rec.fail("prior knowledge form rejected", estimator=name, got=repr(out))
                break
            res.append([int(v) for v in m.causal_order_])
        if any(r != res[0] for r in res):
            rec.fail("representation of the prior knowledge changes the order", estimator=name, orders=res)
    T = [rot_data(2, 0, 40), rot_data(2, 1, 40), rot_data(2, 0, 40) + 1]
    for shape in ((3, 2, 2), (2, 2, 2, 2), (3, 1, 2, 2), (3, 2, 3, 3), (3, 3, 2, 2), (4, 2, 2, 2)):
        out = rec.call(lambda: lingam.LongitudinalLiNGAM(prior_knowledge=np.full(shape, -1)).fit(T))
        rec.state(("long", shape))
        if not out.raised(ValueError):
            rec.fail("longitudinal prior knowledge of the wrong shape accepted", shape=shape, got=repr(out))


# ------------------------------------------------------------------ CAM-UV
def camuv(rec, name, lo, hi):
    import lingam

    P = pairs(3)
    for k in range(lo, hi):
        forb = [P[b] for b in range(6) if k >> b & 1]
        for d in range(0, 25, 3):
            X = lingam_data(weights(dags(3)[d], [0.8, -1.3, 0.6], d), 4)
            for form in (list, np.array):
                f = form(forb) if forb else None
                if name == "camuv":
                    m, arg = lingam.CAMUV(num_explanatory_vals=3, prior_knowledge=f), X
                else:
                    m, arg = lingam.MultiGroupCAMUV(num_explanatory_vals=3, prior_knowledge=f), [X, 2 * X]
                rec.state((name, k, d, form.__name__))
                with exact_tests():
                    out = rec.call(m.fit, arg)
                rec.trace()
                if not out.ok:
                    rec.fail(f"{name} with prior knowledge failed: {out!r}"[:200], forbidden=forb, dag=dags(3)[d])
                    continue
                B = m.adjacency_matrix_
                bad = [(i, j) for i, j in forb if B[j, i] == 1 or (B[j, i] != 0 and not np.isnan(B[j, i]))]
                if bad:
                    rec.fail("a variable declared not to be a cause is reported as a parent", forbidden=forb, B=B, dag=dags(3)[d])


def camuv_tree(rec, name, forb, max_dev):
    """All sequences of independence verdicts (deviation bounded) with a set of forbidden causes."""
    import lingam
    from lingam.hsic import hsic_test_gamma
    from pygam import LinearGAM
    from mc.oracle import LinGam

    X = rot_data(3, 0, 20)
    forb = [tuple(f) for f in forb]

    def run(ch):
        def stub(a, b, *r, **k):
            return (0.0, [0.0, 0.5, 0.9][ch.choose(3)])

        with replaced((hsic_test_gamma, stub), (LinearGAM, LinGam)):
            if name == "camuv":
                m = lingam.CAMUV(num_explanatory_vals=3, prior_knowledge=forb)
                return m, rec.call(m.fit, X)
            m = lingam.MultiGroupCAMUV(num_explanatory_vals=3, prior_knowledge=forb)
            return m, rec.call(m.fit, [X, X[::-1] * 2])

    for path, (m, out), cut in explore(run, max_depth=40, max_dev=max_dev):
        rec.state((name, tuple(forb), path))
        rec.trace()
        rec.truncated += bool(cut)
        if not out.ok:
            rec.fail(f"{name} failed: {out!r}"[:200], verdicts=path, forbidden=forb)
            continue
        B = m.adjacency_matrix_
        if any(B[j, i] != 0 and not np.isnan(B[j, i]) for i, j in forb):
            rec.fail("a variable declared not to be a cause is reported as a parent", verdicts=path, forbidden=forb, B=B)


# ------------------------------------------------------------------ longitudinal / VAR / bootstrap
def longitudinal(rec, T, lags, t, tau, lo, hi):
    """All matrices for one (time point, lag) slot, the rest unknown."""
    import lingam

    p = 2
    data = [rot_data(p, i % 2, 50) + 0.3 * rng("lg", i).laplace(size=(50, p)) for i in range(T)]
    cells = [(0, 1), (1, 0)] if tau == 0 else list(itertools.product(range(p), repeat=2))
    for k, vals in enumerate(itertools.product([-1, 0, 1], repeat=len(cells))):
        if not lo <= k < hi:
            continue
        pk = np.full((T, lags + 1, p, p), -1)
        for (i, j), v in zip(cells, vals):
            pk[t, tau, i, j] = v
        rec.state(("long", T, lags, t, tau, vals))
        for stub in (True, False):
            m = lingam.LongitudinalLiNGAM(n_lags=lags, prior_knowledge=pk)
            with (all_parents() if stub else contextlib.nullcontext()):
                out = rec.call(m.fit, data)
            rec.trace()
            info = dict(T=T, lags=lags, t=t, lag=tau, pk=pk[t, tau], stub=stub)
            bad = tau == 0 and pk[t, 0, 0, 1] == 1 and pk[t, 0, 1, 0] == 1
            if bad:
                if not out.raised(ValueError):
                    rec.fail("contradictory longitudinal prior knowledge accepted", **info)
                continue
            if not out.ok:
                rec.fail(f"longitudinal fit with prior knowledge failed: {out!r}"[:200], **info)
                continue
            if t < lags:
                continue
            B = np.asarray(m.adjacency_matrices_)[t, tau]
            for (i, j), v in zip(cells, vals):
                if v == 0 and B[i, j] != 0:
                    rec.fail("longitudinal coefficient reported where prior knowledge excludes it", B=B, **info)
                if v == 1 and tau == 0:
                    o = list(m.causal_orders_[t])
                    if o.index(j) > o.index(i):
                        rec.fail("longitudinal order contradicts a required path", order=o, **info)
                if v == -1 and stub and tau > 0 and B[i, j] == 0:
                    rec.fail("an unconstrained lagged coefficient was suppressed", B=B, **info)


def wrapped(rec):
    """Prior knowledge must survive inside autoregressive models and bootstrap refits."""
    import lingam

    X = np.cumsum(rng("w").laplace(size=(80, 3)), axis=0) * 0.1 + rot_data(3, 3, 80)
    for k, vals in enumerate(itertools.product([-1, 0, 1], repeat=6)):
        if k % 7:
            continue
        pk = matrix(3, vals)
        paths, rel = relations(pk)
        if cyclic(3, rel):
            continue
        rec.state(("wrap", vals))
        m = lingam.VARLiNGAM(lags=1, criterion=None, prune=False, lingam_model=lingam.DirectLiNGAM(prior_knowledge=pk))
        with all_parents():
            out = rec.call(m.fit, X)
        if not out.ok:
            rec.fail(f"VAR with prior knowledge failed: {out!r}"[:200], pk=pk)
            continue
        judge(rec, pk, m.causal_order_, [m.adjacency_matrices_[0]], {"pk": pk, "estimator": "var"})
        for name in ("direct", "multigroup"):
            m = estimator(name, pk)
            np.random.seed(k)
            with all_parents():
                out = rec.call(m.bootstrap, [X, X + 1] if name == "multigroup" else X, 2)
            rec.trace()
            if not out.ok:
                rec.fail(f"bootstrap with prior knowledge failed: {out!r}"[:200], pk=pk)
                continue
            for r in (out.value if name == "multigroup" else [out.value]):
                for B in r.adjacency_matrices_:
                    if np.any(B[pk == 0] != 0):
                        rec.fail("a bootstrap replicate ignores the prior knowledge", pk=pk, B=B, estimator=name)


def searched(rec, n, lo, hi, datasets, known=None, multi=True):
    """The order is the one the published search finds among the candidates prior knowledge leaves, applied strictly or
    softly; excluded coefficients are absent either way."""
    import lingam
    mats = list(itertools.product((-1, 0, 1), repeat=n * (n - 1))) if known is None else list(
        {"blocks": lambda n: blocks(), "shapes": tiered}[known](n) if isinstance(known, str) else sparse(n, known))
    for vals in mats[lo:hi]:
        pk = matrix(n, vals)
        paths, rel = relations(pk)
        for v in datasets:
            if v >= 100:  # no particular structure: small sample of dependent, skewed variables
                E = rng("c03 any", n, v).gamma(1.5, size=(30, n))
                X, Y = E[:14] @ (np.eye(n) + 0.6 * np.ones((n, n))), E[14:] ** 1.3 @ (np.eye(n) - 0.2 * np.ones((n, n)))
            else:
                X, Y = rot_data(n, v), rot_data(n, (v * 5 + 1) % (6 if n == 3 else 24), m=40)
            groups = [X, Y]
            for soft in (False, True):
                if not soft and cyclic(n, rel):
                    continue
                for gs in ([[X]] + ([groups] if multi else [])):
                    rec.state(("searched", n, vals, v, soft, len(gs)))
                    want = direct_order(gs, pk, soft, before=rel)
                    if want is None:
                        rec.note("ties")
                        continue
                    if want == "stuck":
                        continue
                    est = lingam.DirectLiNGAM if len(gs) == 1 else lingam.MultiGroupDirectLiNGAM
                    m = est(prior_knowledge=pk, apply_prior_knowledge_softly=soft)
                    out = rec.call(m.fit, gs[0] if len(gs) == 1 else gs)
                    info = dict(prior_knowledge=pk, softly=soft, data=v, groups=len(gs))
                    rec.trace()
                    if not out.ok:
                        rec.fail("fit with satisfiable prior knowledge failed", got=repr(out), **info)
                        continue
                    if [int(o) for o in m.causal_order_] != want:
                        rec.fail("the order is not the one the search finds among the candidates prior knowledge leaves",
                                 got=m.causal_order_, want=want, **info)
                    for B in ([m.adjacency_matrix_] if len(gs) == 1 else m.adjacency_matrices_):
                        if (np.asarray(B)[pk == 0] != 0).any():
                            rec.fail("a coefficient is reported where prior knowledge excludes any path", B=B, **info)


def blocks():
    """n=4: two variables known not to be influenced by the other two, among which anything not contradicting it."""
    ps = pairs(4)
    for p in ((0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)):
        fixed = {(p[2], p[0]), (p[2], p[1]), (p[3], p[0]), (p[3], p[1])}
        free = {(p[2], p[3]), (p[3], p[2])}
        for v in itertools.product(*[(0,) if q in fixed else (-1, 0, 1) if q in free else (-1, 0) for q in ps]):
            yield v


def tiered(n):
    """Shapes of knowledge on many variables: tiers, chains of known paths, sinks, sources, and mixtures consistent with some order."""
    def vals(K):
        return tuple(int(K[i, j]) for i, j in pairs(n))
    for s in range(3):
        p = rng("c03tiers", n, s).permutation(n)
        pos = np.argsort(p)
        for parts in (2, 3, n):
            tier = pos * parts // n
            yield vals(np.where(tier[:, None] < tier[None, :], 0, -1))
            yield vals(np.where(tier[:, None] < tier[None, :], 0, np.where(tier[:, None] == tier[None, :] + 1, 1, -1)))
        yield vals(np.where(pos[:, None] == pos[None, :] + 1, 1, -1))
        yield vals(np.where(np.arange(n)[None, :] == p[0], 0, -1) * np.ones((n, n)))
        yield vals(np.where(np.arange(n)[:, None] == p[0], 0, -1) * np.ones((n, n)))
        for d in (0.2, 0.5):
            r = rng("c03mix", n, s, d)
            K = np.where(r.uniform(size=(n, n)) < d, 0, -1)
            yield vals(K)
            yield vals(np.where((pos[:, None] > pos[None, :]) & (r.uniform(size=(n, n)) < d / 2), 1, np.where(pos[:, None] < pos[None, :], K, -1)))


def sparse(n, known):
    """All matrices with at most `known` known entries."""
    ps = pairs(n)
    for k in range(known + 1):
        for pos in itertools.combinations(range(len(ps)), k):
            for v in itertools.product((0, 1), repeat=k):
                vals = [-1] * len(ps)
                for a, b in zip(pos, v):
                    vals[a] = b
                yield tuple(vals)


def tasks(tier):
    th = tier == "thorough"
    t = [("shapes", {}), ("roles", {"n": 3}), ("roles", {"n": 4}), ("wrapped", {})]
    for lo, hi in chunks(31000, 8):
        t.append(("helper", {"lo": lo, "hi": hi + 1}))
    for lo, hi in chunks(729, 16):
        t.append(("three", {"name": "direct", "lo": lo, "hi": hi, "datasets": list(range(6)), "real": True}))
        t.append(("three", {"name": "multigroup", "lo": lo, "hi": hi, "datasets": [0, 5] if not th else list(range(6))}))
        t.append(("three", {"name": "kernel", "lo": lo, "hi": hi, "datasets": [0, 5] if not th else list(range(6))}))
        for nm in ("parce", "parce_fcorr"):
            t.append(("three", {"name": nm, "lo": lo, "hi": hi, "datasets": [0, 3], "kinds": ["ind", "dep", "mix"]}))
    for lo, hi in chunks(2050, 16):
        t.append(("four", {"name": "direct", "lo": lo, "hi": hi + 1, "datasets": [0, 23] if not th else list(range(0, 24, 3))}))
        t.append(("four", {"name": "parce", "lo": lo, "hi": hi + 1, "datasets": [0], "kinds": ["ind", "mix"]}))
        if th:
            t.append(("four", {"name": "multigroup", "lo": lo, "hi": hi + 1, "datasets": [0, 23]}))
    for lo, hi in chunks(729, 16):
        t.append(("searched", {"n": 3, "lo": lo, "hi": hi, "datasets": [0, 2, 4, 5, 100, 101, 102, 103] if th else [1, 100, 101]}))
    for lo, hi in chunks(289 if not th else 2049, 16):
        t.append(("searched", {"n": 4, "known": 3 if th else 2, "lo": lo, "hi": hi, "datasets": [7, 100, 101] if th else [7, 100], "multi": th}))
    for lo, hi in chunks(1728, 16):
        t.append(("searched", {"n": 4, "known": "blocks", "lo": lo, "hi": hi, "datasets": [7, 100, 101] if th else [100], "multi": th}))
    for n in (5, 6, 8):
        for lo, hi in chunks(39, 3):
            t.append(("searched", {"n": n, "known": "shapes", "lo": lo, "hi": hi, "datasets": [100, 101, 102] if th else [100, 101], "multi": True}))
    for lo, hi in chunks(64, 8):
        t.append(("camuv", {"name": "camuv", "lo": lo, "hi": hi}))
        t.append(("camuv", {"name": "mg_camuv", "lo": lo, "hi": hi}))
    for forb in ([(0, 1)], [(1, 0), (2, 0)], [(0, 2), (1, 2), (2, 1)], [(0, 1), (1, 2), (2, 0)], [(1, 2)], [(2, 0), (2, 1)]):
        for nm in ("camuv", "mg_camuv"):
            t.append(("camuv_tree", {"name": nm, "forb": forb, "max_dev": (4 if nm == "camuv" else 3) if th else (3 if nm == "camuv" else 2)}))
    for T, lags in ((3, 1), (4, 1), (4, 2)):
        for tt in range(T):
            for tau in range(lags + 1):
                if tau <= tt:
                    for lo, hi in (chunks(81, 3) if tau else [(0, 9)]):
                        if T == 3 or th or tt == T - 1:
                            t.append(("longitudinal", {"T": T, "lags": lags, "t": tt, "tau": tau, "lo": lo, "hi": hi}))
    return t
